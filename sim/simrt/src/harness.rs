//! The command line of a simulator binary.

use crate::cli;
use crate::decode::{self, Loaded};
use crate::gen;
use crate::glue::{install_hook, Readers, Sizes, TypeOps};
use crate::known;
use crate::plan::Plan;
use crate::readers;
use crate::run::{self, Config, Shared, Totals, C};
use model::curated;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::SeqCst;

pub type SpecEntry = (usize, fn() -> Vec<TypeOps>);

fn world(loaded: &[Loaded], rd: Option<(Readers, Sizes)>, plan: &Plan) {
    match plan.of("run").next().map(|l| l.sub.as_str()) {
        Some("readers") => {
            if let Some(rd) = rd {
                readers::world(rd, plan)
            }
        }
        Some("gen") => gen::world(plan),
        Some("cli") => cli::world(plan),
        Some("bare" | "deep") => known::world(loaded, plan),
        Some(_) => decode::world(loaded, plan),
        None => {}
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Starts the program again without address randomisation, so that addresses
/// are the same in every run of one seed.
fn still() {
    const NO_RANDOMIZE: i32 = 0x0040000;
    unsafe {
        let p = crate::sys::personality(0xffffffff);
        if p < 0 || p & NO_RANDOMIZE != 0 || std::env::var_os("SIM_STILL").is_some() {
            return;
        }
        if crate::sys::personality((p | NO_RANDOMIZE) as u64) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    let _ = std::process::Command::new("/proc/self/exe")
        .args(std::env::args_os().skip(1))
        .env("SIM_STILL", "1")
        .exec();
}

pub fn main(specs: Vec<SpecEntry>, rd: Option<(Readers, Sizes)>) {
    still();
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str, d: u64| get(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    if a.get(1).map(|x| x == "--once").unwrap_or(false) {
        gen::once(a[2].parse().unwrap(), a[3].parse().unwrap());
    }
    let prop = get("--prop").unwrap();
    let seed = num("--seed", 1);
    let out = get("--out").unwrap_or_else(|| "/tmp".into());
    let thorough = get("--tier").as_deref() == Some("thorough");
    let loaded: Vec<Loaded> = specs
        .iter()
        .map(|(k, t)| Loaded::new(*k, curated::spec(seed, *k), t()))
        .collect();
    let loaded: &'static [Loaded] = Box::leak(loaded.into_boxed_slice());
    if let (Some(program), Some(shim)) = (get("--program"), get("--shim")) {
        let _ = cli::TOOLS.set(cli::Tools { program, shim, scratch: out.clone() });
    }
    let w = move |p: &Plan| world(loaded, rd, p);

    if let Some(f) = get("--replay") {
        run::init(&prop, true);
        let plan = Plan::parse(&std::fs::read_to_string(f).unwrap());
        let o = run::run_child(&w, &plan);
        println!("history {:016x} events {}", o.hash, o.events);
        match o.bad {
            Some((c, m)) => println!("REPRODUCED {c} {m}"),
            None => println!("NOT-REPRODUCED {:?}", o.stray),
        }
        return;
    }

    run::init(&prop, false);
    let gen: Box<dyn Fn(u64) -> Plan + Sync> = if prop == "C10" {
        Box::new(move |i| readers::plan(seed, i, thorough))
    } else if prop == "C11" {
        Box::new(move |i| gen::plan(seed, i))
    } else if prop == "C15" {
        Box::new(move |i| cli::plan(seed, i))
    } else {
        let (l, p) = (loaded, prop.clone());
        Box::new(move |i| decode::plan(l, &p, seed, i))
    };
    if let Some(i) = get("--show") {
        print!("{}", gen(i.parse().unwrap()));
        return;
    }
    let cfg = Config {
        prop: prop.clone(),
        seed,
        tier: String::new(),
        runs: num("--runs", 400),
        workers: num("--workers", 8),
        max_secs: num("--secs", 120),
    };

    // Scenarios of the listed findings first.
    let mut known_bits = 0;
    let mut fixed: Vec<Plan> = vec![];
    if ["C01", "C02", "C03", "C05"].contains(&prop.as_str()) {
        let mut p = Plan::default();
        p.push("run", "bare", &[("spec", curated::BARE as i64), ("seed", seed as i64)]);
        fixed.push(p);
    }
    if ["C01", "C04"].contains(&prop.as_str()) {
        let mut p = Plan::default();
        p.push("run", "deep", &[("spec", curated::GENERAL as i64), ("links", 200_000)]);
        fixed.push(p);
    }
    let mut early: Option<(Plan, String, String)> = None;
    for p in fixed {
        let o = run::run_child(&w, &p);
        known_bits |= run::sh().known.load(SeqCst);
        if let Some((c, m)) = o.bad {
            early = Some((p, c, m));
            break;
        }
        if let Some(s) = o.stray {
            if s.contains("K2") && (s.contains("signal 11") || s.contains("signal 6")) {
                known_bits |= known::K2;
            } else {
                early = Some((p, "crash".into(), s));
                break;
            }
        }
    }

    let interesting = |s: &Shared| {
        let g = |c: C| s.ctr[c as usize].load(SeqCst);
        if g(C::gen_fresh_process) > 0 {
            return g(C::gen_identical) > 0 && g(C::gen_layout_pairs) + g(C::gen_order_pairs) > 0;
        }
        if g(C::cli_runs) > 0 {
            return g(C::cli_exact) > 0 || g(C::cli_fail) > 0;
        }
        if s.ctr[C::reader_ops as usize].load(SeqCst) > 0 || g(C::bool_words) > 0 {
            g(C::reader_ok) > 0 && g(C::reader_err) > 0 || g(C::bool_words) > 1000
        } else {
            g(C::decoded_ok) > 0
                && (g(C::decoded_err) > 0 || g(C::fault_trailing) + g(C::fault_reorder) + g(C::fault_duplicate) > 0)
        }
    };
    let t: Totals = if early.is_some() {
        Totals::default()
    } else {
        run::search(&cfg, &w, &*gen, &interesting, &out, true)
    };
    known_bits |= t.known;

    let mut verdict = String::from("null");
    let found = match early {
        Some(x) => Some(x),
        None => t.bad.clone().map(|(i, c, m)| (gen(i), c, m)),
    };
    if let Some((plan, class, msg)) = found {
        let (min, tries) = run::minimise(&w, &plan, &class, num("--shrink", 45));
        let o = run::run_child(&w, &min);
        let (class, msg) = o.bad.clone().unwrap_or((class, msg));
        verdict = format!(
            "{{\"class\":{},\"message\":{},\"plan\":{},\"history\":\"{:016x}\",\"shrink_runs\":{tries},\"lines_before\":{},\"lines_after\":{}}}",
            esc(&class),
            esc(&msg),
            esc(&min.to_string()),
            o.hash,
            plan.lines.len(),
            min.lines.len()
        );
    }

    let mut s = String::from("{");
    write!(
        s,
        "\"runs\":{},\"events\":{},\"sim_ns\":{},\"wall\":{:.3},\"known\":{known_bits},\"distinct_histories\":{},\"distinct_traces\":{},\"nontrivial\":{},\"violation\":{verdict}",
        t.runs,
        t.events,
        t.sim_ns,
        t.wall,
        t.hashes.len(),
        t.traces.len(),
        t.nontrivial.len()
    )
    .unwrap();
    write!(s, ",\"branches\":{},\"branches_reached\":{}", crate::sys::BRANCHES.load(SeqCst), crate::sys::reached()).unwrap();
    s.push_str(",\"counters\":{");
    let c: Vec<String> = t.ctr.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    s.push_str(&c.join(","));
    s.push_str("},\"strays\":[");
    let c: Vec<String> = t.strays.iter().map(|x| esc(x)).collect();
    s.push_str(&c.join(","));
    s.push_str("],\"run_hashes\":[");
    let c: Vec<String> = t.run_hashes.iter().map(|(i, h)| format!("[{i},\"{h:016x}\"]")).collect();
    s.push_str(&c.join(","));
    s.push_str("],\"samples\":[");
    let c: Vec<String> = (0..3.min(cfg.runs)).map(|i| esc(&gen(i * 7 + 41).to_string())).collect();
    s.push_str(&c.join(","));
    s.push_str("]}");
    std::fs::write(format!("{out}/result.json"), s).unwrap();
}
