//! Scenarios for the findings listed in /verif/known-findings.txt. Each reports
//! the finding only when exactly the listed behaviour is seen; the repaired
//! behaviour is silent and anything else is a violation.

use crate::decode::{drop_held, view, Loaded, BUF_KINDS};
use crate::glue::*;
use crate::plan::Plan;
use crate::run::{self, bit, count, crumb, event, violation, C};
use crate::sched;
use model::codec;
use model::rng::Rng;
use model::val::{Shape, ValGen};
use std::sync::atomic::Ordering::SeqCst;

pub const K1: u64 = 1;
pub const K1_ARRAY: u64 = 2;
pub const K2: u64 = 4;

fn known(k: u64, c: C) {
    run::sh().known.fetch_or(k, SeqCst);
    count(c, 1);
}

/// Bare inline opaque fields: sizes short by the length prefix, and counted
/// arrays of types that hold them stepped by that size.
fn bare(l: &'static Loaded, seed: u64) {
    let mut r = Rng::stream(seed, &[0xba2e]);
    for ty in 0..l.ops.len() {
        for n in 0..40u64 {
            let sh = Shape { knob: 1 + (n % 3) as u32, chain: 0, big: 0 };
            let val = ValGen::new(&l.spec, r.next() >> 1, sh).named(l.ops[ty].name);
            let enc = codec::encode(&l.spec, l.ops[ty].name, &val);
            let mut cases = vec![enc.bytes.clone()];
            let mut more = enc.bytes.clone();
            more.extend((0..r.idx(24)).map(|_| 0));
            cases.push(more);
            for _ in 0..4 {
                cases.push(enc.bytes[..r.idx(enc.bytes.len())].to_vec());
            }
            for data in cases {
                one(l, ty, &data, r.below(BUF_KINDS));
            }
        }
    }
}

fn one(l: &Loaded, ty: usize, data: &[u8], kind: u64) {
    let ops = &l.ops[ty];
    let name = ops.name;
    let v = view(data, kind, 2, 5);
    let rfc = codec::decode(&l.spec, name, data, false);
    let quirk = codec::decode(&l.spec, name, data, true);
    crumb(bit("C01") | bit("C04"), &format!("decoding {name} of the bare-opaque specification"));
    let (o, _) = (ops.by_val)(v.clone());
    let mut cur = v.clone();
    let (o2, _) = (ops.by_mut)(&mut cur);
    crumb(0, "");
    let what = || format!("{name} {}", data.iter().map(|x| format!("{x:02x}")).collect::<String>());
    let prefix = data.len();
    match (&o, &o2) {
        (Out::Ok(a), Out::Ok(b)) if a.val().diff(&b.val(), &mut vec![]).is_none() => {}
        (Out::Err(a), Out::Err(b)) if a == b => {}
        _ => violation("C03", "families", &format!("the families disagree on {}", what())),
    }
    match o {
        Out::Panic(m) => {
            violation("C04", "panic", &format!("panic '{m}' for {}", what()));
            violation("C01", "rejected", &format!("panic '{m}' for {}", what()));
        }
        Out::Err(_) => match (&rfc, &quirk) {
            (Err(_), _) => {}
            (Ok(_), Err(_)) => known(K1_ARRAY, C::known_k1_array),
            (Ok(d), Ok(_)) => {
                if !d.odd_pad {
                    violation("C01", "rejected", &format!("rejected: {}", what()));
                }
            }
        },
        Out::Ok(h) => {
            let val = h.val();
            let wire = h.wire();
            let used = prefix - cur.len();
            let hit = |d: &codec::Dec| val.diff(&d.val, &mut vec![]).is_none() && d.used == used;
            match (&rfc, &quirk) {
                (Ok(d), _) if hit(d) => {
                    if wire == d.used {
                    } else if wire + 4 * d.bare == d.used {
                        known(K1, C::known_k1);
                    } else {
                        violation(
                            "C02",
                            "size",
                            &format!("wire_size() is {wire}, the encoding has {} bytes: {}", d.used, what()),
                        );
                    }
                }
                (r, Ok(q)) if hit(q) => {
                    known(K1_ARRAY, C::known_k1_array);
                    let _ = r;
                }
                (Ok(_), _) => {
                    let m = format!("{} is neither right nor the listed finding: {}", val.short(), what());
                    violation("C01", "value", &m);
                    violation("C03", "consumed", &m);
                }
                (Err(e), _) => violation(
                    if matches!(
                        e.err,
                        codec::RefErr::Short | codec::RefErr::PadShort | codec::RefErr::OverMax(..) | codec::RefErr::Beyond(_)
                    ) {
                        "C05"
                    } else {
                        "C06"
                    },
                    "accepted",
                    &format!("{} accepted where {:?}: {}", val.short(), e.err, what()),
                ),
            }
            drop_held(Some(h));
        }
    }
    drop_held(match o2 {
        Out::Ok(h) => Some(h),
        _ => None,
    });
    event(|| format!("bare {name} {}", data.len()));
}

/// 200 000 optional links on an ordinary 8 MiB stack.
fn deep(l: &'static Loaded, links: usize) {
    let i = l.ops.iter().position(|o| o.name == "link").unwrap();
    let mut b = Vec::new();
    for k in 0..links {
        b.extend((k as u32).to_be_bytes());
        b.extend([0, 0, 0, (k + 1 < links) as u8]);
    }
    let v = Bytes::from(b);
    crumb(0, "K2");
    let (o, _) = (l.ops[i].by_val)(v);
    crumb(0, "");
    match o {
        Out::Panic(m) => {
            violation("C04", "panic", &format!("panic '{m}' decoding {links} optional links"));
            violation("C01", "rejected", &format!("panic '{m}' decoding {links} optional links"));
        }
        Out::Err(e) => violation("C01", "rejected", &format!("{e:?} for {links} optional links")),
        Out::Ok(h) => {
            // Neither inspected nor dropped: that recurses in ways the decoder
            // has no say in.
            std::mem::forget(h);
        }
    }
}

pub fn world(loaded: &[Loaded], plan: &Plan) {
    count(C::runs, 1);
    let h = plan.of("run").next().unwrap().clone();
    let l: Option<&Loaded> = loaded.iter().find(|l| l.k == h.get("spec") as usize);
    let Some(l) = l else { return };
    let l: &'static Loaded = unsafe { &*(l as *const Loaded) };
    let f: Box<dyn FnOnce() + Send> = match h.sub.as_str() {
        "bare" => Box::new(move || bare(l, h.get("seed") as u64)),
        _ => Box::new(move || deep(l, h.get("links") as usize)),
    };
    sched::run(vec![(8 << 20, f)], vec![]);
}
