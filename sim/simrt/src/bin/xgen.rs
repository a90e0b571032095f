//! xgen SEED FIRST LAST DIR: prints specifications FIRST..LAST, runs the real
//! generator on each and writes the glue. One status line per specification.

use model::{curated, glue};

fn main() {
    // The instrumented library reports to the simulator.
    std::hint::black_box(simrt::sys::reached as fn() -> u64);
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let (lo, hi): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let dir = &a[4];
    std::panic::set_hook(Box::new(|_| {}));
    for k in lo..hi {
        let spec = curated::spec(seed, k);
        let text = curated::text(seed, k, &spec);
        std::fs::write(format!("{dir}/spec_{k}.x"), &text).unwrap();
        let r = std::panic::catch_unwind(|| {
            fastxdr::Generator::default()
                .generate(&text)
                .map_err(|e| e.to_string())
        });
        match r {
            Ok(Ok(code)) => {
                std::fs::write(format!("{dir}/gen_{k}.rs"), code).unwrap();
                let mut g = glue::glue(&spec, &format!("{dir}/gen_{k}.rs"));
                if k == curated::GENERAL {
                    g.push_str("simrt::reader_glue!(xdr);\n");
                }
                std::fs::write(format!("{dir}/spec_{k}.rs"), g).unwrap();
                println!("{k} ok");
            }
            Ok(Err(e)) => println!("{k} rejected {}", e.replace('\n', " ")),
            Err(_) => println!("{k} panicked"),
        }
    }
}
