//! The reader world: sequences of `DeserialiserExt` calls by several tasks on
//! buffers that end at an arbitrary byte, against a cursor model.

use crate::decode::{view, BUF_KINDS};
use crate::glue::*;
use crate::plan::{Line, Plan};
use crate::run::{self, bit, count, crumb, event, violation, C};
use crate::sched;
use model::rng::Rng;
use std::sync::atomic::Ordering::SeqCst;

fn up(n: usize) -> Option<usize> {
    n.checked_add(3).map(|x| x / 4 * 4)
}

/// What the contract says of one call on a buffer holding `b`.
enum Want {
    /// Value, bytes consumed, whether padding was odd (then an error is fine).
    Ok(Val, usize, bool),
    Err,
}

struct Cur<'a>(&'a [u8], usize);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() - self.1 < n {
            return None;
        }
        let s = &self.0[self.1..self.1 + n];
        self.1 += n;
        Some(s)
    }
    fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_be_bytes(b.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|b| u64::from_be_bytes(b.try_into().unwrap()))
    }
}

fn element(kind: u32, c: &mut Cur) -> Option<Val> {
    Some(match kind {
        0 => Val::U32(c.take(1)?[0] as u32),
        1 => {
            let b = c.take(3)?;
            Val::U32(u32::from_be_bytes([0, b[0], b[1], b[2]]))
        }
        2 => Val::U32(c.u32()?),
        3 => Val::U64(c.u64()?),
        4 => {
            let n = c.u32()? as usize;
            let d = c.take(n)?.to_vec();
            c.take(up(n)? - n)?;
            Val::Opaque(d, 0)
        }
        5 => match c.u32()? {
            x if x & 1 == 1 => return None,
            x => Val::U32(x),
        },
        _ => match c.u32()? {
            0 => Val::Struct(vec![Val::Bool(false), Val::U64(0)]),
            1 => Val::Struct(vec![Val::Bool(true), Val::U64(c.u64()?)]),
            _ => return None,
        },
    })
}

fn want(op: Op, b: &[u8]) -> Want {
    let mut c = Cur(b, 0);
    let mut odd = false;
    let r = (|| {
        Some(match op {
            Op::U32 => Val::U32(c.u32()?),
            Op::I32 => Val::I32(c.u32()? as i32),
            Op::F32 => Val::F32(c.u32()?),
            Op::U64 => Val::U64(c.u64()?),
            Op::I64 => Val::I64(c.u64()? as i64),
            Op::F64 => Val::F64(c.u64()?),
            Op::Bool => match c.u32()? {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return None,
            },
            Op::Bytes(_) | Op::VarBytes(_) | Op::Str(_) => {
                let n = match op {
                    Op::Bytes(n) => n,
                    _ => c.u32()? as usize,
                };
                if let Op::VarBytes(Some(m)) | Op::Str(Some(m)) = op {
                    if n > m {
                        return None;
                    }
                }
                let at = c.1;
                let d = c.take(n)?.to_vec();
                odd = c.take(up(n)? - n)?.iter().any(|x| *x != 0);
                if let Op::Str(_) = op {
                    std::str::from_utf8(&d).ok()?;
                    Val::Str(d)
                } else {
                    Val::Opaque(d, at)
                }
            }
            Op::Arr(k, m) => {
                let n = c.u32()? as usize;
                if m.map(|m| n > m).unwrap_or(false) || n > b.len() - 4 {
                    return None;
                }
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(element(k, &mut c)?);
                }
                let used = c.1 - 4;
                odd = c.take(up(used)? - used)?.iter().any(|x| *x != 0);
                Val::Array(v)
            }
        })
    })();
    match r {
        Some(v) => Want::Ok(v, c.1, odd),
        None => Want::Err,
    }
}

/// One call, judged. Returns whether the buffer may be used further.
pub fn call(rd: Readers, b: &mut Bytes, op: Op) -> bool {
    let before = b.clone();
    let what = || {
        format!(
            "{op:?} with {} bytes remaining: {}",
            before.len(),
            before.iter().take(64).map(|x| format!("{x:02x}")).collect::<String>()
        )
    };
    count(C::reader_ops, 1);
    crumb(bit("C10"), &what());
    let (r, _) = rd(b, op);
    crumb(0, "");
    let w = want(op, &before);
    let left = b.len();
    let mut go = false;
    match (r, w) {
        (Err(p), _) => violation("C10", "panic", &format!("panic '{p}' in {}", what())),
        (Ok(Err(_)), Want::Err) => count(C::reader_err, 1),
        (Ok(Err(_)), Want::Ok(_, _, true)) => count(C::reader_err, 1),
        (Ok(Err(e)), Want::Ok(v, _, _)) => violation(
            "C10",
            "refused",
            &format!("{e:?} where {} is complete: {}", v.short(), what()),
        ),
        (Ok(Ok(v)), Want::Err) => violation(
            "C10",
            "accepted",
            &format!("Ok({}) instead of an error: {}", v.short(), what()),
        ),
        (Ok(Ok(v)), Want::Ok(x, used, _)) => {
            count(C::reader_ok, 1);
            if v.diff(&x, &mut vec![]).is_some() {
                violation(
                    "C10",
                    "value",
                    &format!("{} instead of {}: {}", v.short(), x.short(), what()),
                );
            } else if before.len() - left.min(before.len()) != used
                || b[..] != before[used..]
            {
                violation(
                    "C10",
                    "advance",
                    &format!(
                        "{} bytes remain, {} should: {}",
                        left,
                        before.len() - used,
                        what()
                    ),
                );
            } else {
                if let (Val::Opaque(d, at), Val::Opaque(_, off)) = (&v, &x) {
                    if !d.is_empty() && *at != before.as_ptr() as usize + off {
                        violation(
                            "C10",
                            "payload-copied",
                            &format!("the payload is not a view of the buffer: {}", what()),
                        );
                    }
                }
                go = true;
            }
        }
    }
    event(|| format!("{op:?} {} -> {}", before.len(), left));
    go
}

fn word(n: usize) -> [u8; 4] {
    (n as u32).to_be_bytes()
}

/// A random call and bytes it could be answered from.
fn random_op(r: &mut Rng, out: &mut Vec<u8>) -> Op {
    let len = |r: &mut Rng| match r.below(8) {
        0 => 0,
        1 => 4 * r.idx(5),
        2 => 100 + r.idx(40),
        3 if r.chance(1, 12) => *r.pick(&[255, 256, 257, 65_535, 65_536, 65_537, 70_001, 1 << 20]),
        3 if r.chance(1, 60) => (1 << 24) + r.idx(3),
        _ => r.idx(14),
    };
    let max = |r: &mut Rng, n: usize| match r.below(6) {
        0 | 1 => None,
        2 => Some(n),
        3 => Some(n.saturating_sub(1)),
        4 => Some(n + 1 + r.idx(9)),
        _ => Some(*r.pick(&[0, 1, usize::MAX, u32::MAX as usize, 1 << 33])),
    };
    let payload = |r: &mut Rng, out: &mut Vec<u8>, n: usize, text: bool| {
        for _ in 0..n {
            out.push(if text { b'a' + r.below(26) as u8 } else { r.next() as u8 });
        }
        let pad = (4 - n % 4) % 4;
        let odd = r.chance(1, 12);
        out.extend((0..pad).map(|_| if odd { 7 } else { 0 }));
    };
    match r.below(16) {
        0 => {
            out.extend(r.u32().to_be_bytes());
            Op::U32
        }
        1 => {
            out.extend(r.next().to_be_bytes());
            Op::U64
        }
        2 => {
            out.extend(r.u32().to_be_bytes());
            Op::I32
        }
        3 => {
            out.extend(r.next().to_be_bytes());
            Op::I64
        }
        4 => {
            out.extend(r.u32().to_be_bytes());
            Op::F32
        }
        5 => {
            out.extend(r.next().to_be_bytes());
            Op::F64
        }
        6 => {
            let w = *r.pick(&[0u32, 1, 1, 0, 2, 0x0100_0000, 0xffff_ffff, 256, 0x8000_0001]);
            out.extend(w.to_be_bytes());
            Op::Bool
        }
        7 | 8 => {
            let n = len(r);
            payload(r, out, n, false);
            match r.below(12) {
                0 => Op::Bytes(*r.pick(&[
                    usize::MAX,
                    usize::MAX - 1,
                    usize::MAX - 2,
                    usize::MAX - 3,
                    usize::MAX - 4,
                    isize::MAX as usize,
                    u32::MAX as usize,
                    1 << 63,
                ])),
                _ => Op::Bytes(n),
            }
        }
        9 | 10 => {
            let n = len(r);
            out.extend(word(n));
            payload(r, out, n, false);
            Op::VarBytes(max(r, n))
        }
        11 | 12 => {
            let n = len(r);
            out.extend(word(n));
            let at = out.len();
            payload(r, out, n, true);
            if n > 0 && r.chance(1, 5) {
                let i = at + r.idx(n);
                out[i] = *r.pick(&[0xff, 0xc3, 0x80, 0xe2]);
            }
            Op::Str(max(r, n))
        }
        _ => {
            let k = r.below(ELEMS as u64) as u32;
            let n = if matches!(k, 0 | 2) && r.chance(1, 40) {
                *r.pick(&[255, 256, 65_535, 65_536, 65_537])
            } else {
                r.idx(7)
            };
            out.extend(word(n));
            let at = out.len();
            for _ in 0..n {
                match k {
                    0 => out.push(r.next() as u8),
                    1 => out.extend([1, 2, r.next() as u8]),
                    2 => out.extend(r.u32().to_be_bytes()),
                    3 => out.extend(r.next().to_be_bytes()),
                    4 => {
                        let n = len(r);
                        out.extend(word(n));
                        payload(r, out, n, false);
                    }
                    5 => out.extend((r.u32() << 1 | r.chance(1, 20) as u32).to_be_bytes()),
                    _ => {
                        let b = r.below(2) as usize;
                        out.extend(word(b));
                        if b == 1 {
                            out.extend(r.next().to_be_bytes());
                        }
                    }
                }
            }
            while (out.len() - at) % 4 != 0 {
                out.push(0);
            }
            Op::Arr(k, max(r, n))
        }
    }
}

/// One buffer: calls are made until it runs out or one fails.
fn sequence(rd: Readers, x: &Line) {
    let mut r = Rng::stream(x.get("seed") as u64, &[0x5e9]);
    let n = x.get("n").max(1) as usize;
    let mut bytes = Vec::new();
    let mut ops = Vec::new();
    let mut starts = Vec::new();
    for _ in 0..n {
        starts.push(bytes.len());
        ops.push(random_op(&mut r, &mut bytes));
    }
    let full = bytes.len();
    // A smashed length word.
    if x.get("smash") > 0 && full >= 4 {
        let s = *r.pick(&starts);
        if s + 4 <= full {
            let left = full - s - 4;
            let v = *r.pick(&[
                left,
                left + 1,
                left.saturating_sub(1),
                left / 4,
                0xffff_ffff,
                0x8000_0000,
                0x7fff_ffff,
                0xffff_fffd,
                left + 3,
            ]);
            bytes[s..s + 4].copy_from_slice(&word(v));
            count(C::fault_word, 1);
        }
    }
    // The input ends here.
    let cut = x.get("cut");
    if cut > 0 {
        bytes.truncate(full - (cut as usize % (full + 1)));
        count(C::fault_truncate, 1);
    } else if cut < 0 {
        bytes.extend((0..(-cut) as usize % 23).map(|_| r.next() as u8));
        count(C::fault_trailing, 1);
    }
    let mut b = view(&bytes, x.get("kind") as u64 % BUF_KINDS, r.idx(8), r.idx(9));
    for op in ops {
        if !call(rd, &mut b, op) {
            break;
        }
        // A clone made mid-way must not disturb the original.
        if r.chance(1, 6) {
            let mut c = b.clone();
            call(rd, &mut c, op);
        }
    }
}

/// Every small combination of payload length, bytes remaining and maximum.
fn sweep(rd: Readers, lo: usize, hi: usize) {
    for n in lo..hi {
        for r in 0..n + 13 {
            for kind in 0..3u64 {
                let fixed: Vec<u8> = (0..r).map(|i| if i < n { b'A' + (i % 26) as u8 } else { 0 }).collect();
                let mut b = view(&fixed, kind * 3, n % 5, 3);
                call(rd, &mut b, Op::Bytes(n));
                let mut counted = word(n).to_vec();
                counted.extend(&fixed);
                counted.truncate(r);
                let maxes = [
                    None,
                    Some(0),
                    Some(n.saturating_sub(1)),
                    Some(n),
                    Some(n + 1),
                    Some(r),
                    Some(usize::MAX),
                ];
                for m in maxes {
                    for op in [Op::VarBytes(m), Op::Str(m), Op::Arr(0, m)] {
                        let mut b = view(&counted, kind * 3, n % 4, 1);
                        call(rd, &mut b, op);
                    }
                }
            }
            // n bytes' worth of wider elements.
            for (k, sz) in [(1u32, 3usize), (2, 4), (3, 8), (5, 4)] {
                let mut counted = word(n).to_vec();
                counted.extend((0..n * sz).map(|i| (i * 2 % 250) as u8 & 0xfe));
                while counted.len() % 4 != 0 {
                    counted.push(0);
                }
                let full = counted.len();
                for cut in [0usize, 1, 2, 3, 4, 5, 7, 8, 9] {
                    if cut > full || r > 2 {
                        continue;
                    }
                    for m in [None, Some(n), Some(n.wrapping_sub(1)), Some(n + 1)] {
                        let mut b = view(&counted[..full - cut], (k % 2) as u64, 1, 2);
                        call(rd, &mut b, Op::Arr(k, m));
                    }
                }
            }
        }
    }
    for r in 0..12usize {
        for op in [Op::U32, Op::U64, Op::I32, Op::I64, Op::F32, Op::F64, Op::Bool] {
            let mut b = view(&vec![0u8; r], lo as u64 % BUF_KINDS, r % 3, 2);
            call(rd, &mut b, op);
            let mut b = view(&(0..r).map(|i| 0x80 | i as u8).collect::<Vec<_>>(), lo as u64 % BUF_KINDS, r % 3, 2);
            call(rd, &mut b, op);
        }
    }
}

fn bools(rd: Readers, lo: u64, hi: u64, step: u64) {
    let mut x = lo;
    while x < hi {
        let w = x as u32;
        let mut b = Bytes::copy_from_slice(&w.to_be_bytes());
        crumb(bit("C10"), "read_bool");
        let (r, _) = rd(&mut b, Op::Bool);
        let good = match r {
            Ok(Ok(Val::Bool(v))) => w <= 1 && v == (w == 1) && b.is_empty(),
            Ok(Err(_)) => w > 1,
            _ => false,
        };
        count(C::bool_words, 1);
        if !good {
            violation("C10", "boolean", &format!("read_bool of {w:#010x} is wrong"));
        }
        x += step;
    }
}

fn sizes(sz: Sizes, x: &Line) {
    let mut r = Rng::stream(x.get("seed") as u64, &[0x512e]);
    let case = x.get("case") as u32 % SIZE_CASES;
    for _ in 0..40 {
        let l: Vec<usize> = (0..r.idx(6)).map(|_| r.idx(18)).collect();
        crumb(bit("C10"), &format!("wire_size case {case} of {l:?}"));
        match sz(case, &l) {
            Ok((a, b)) if a == b => count(C::checks, 1),
            Ok((a, b)) => violation(
                "C10",
                "wire-size",
                &format!("blanket wire_size case {case} over lengths {l:?} is {a}, RFC size {b}"),
            ),
            Err(m) => violation("C10", "panic", &format!("panic '{m}' in wire_size case {case} of {l:?}")),
        }
        event(|| format!("size {case} {l:?}"));
    }
}

pub fn world(rd: (Readers, Sizes), plan: &Plan) {
    count(C::runs, 1);
    let n = plan.of("run").next().map(|h| h.get("recv")).unwrap_or(1).clamp(1, 6) as usize;
    let mut tasks: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
    for t in 0..n {
        let lines: Vec<Line> = plan
            .lines
            .iter()
            .filter(|l| l.kw != "run" && l.kw != "pre" && l.get("c") as usize % n == t)
            .cloned()
            .collect();
        tasks.push((
            8 << 20,
            Box::new(move || {
                for x in lines {
                    match x.kw.as_str() {
                        "seq" => sequence(rd.0, &x),
                        "sweep" => sweep(rd.0, x.get("lo") as usize, x.get("hi") as usize),
                        "bools" => bools(rd.0, x.get("lo") as u64, x.get("hi") as u64, x.get("step").max(1) as u64),
                        "sizes" => sizes(rd.1, &x),
                        _ => {}
                    }
                    sched::yield_point();
                }
            }),
        ));
    }
    let sc = sched::run(tasks, plan.preemptions());
    count(C::preemptions, sc.forced);
    count(C::preemptions_in_code_under_test, sc.forced_in_sut);
    count(C::preemptions_at_branch, sc.forced_at_branch);
    count(C::task_switches, sc.switches);
    run::sh().trace.store(sc.trace, SeqCst);
}

pub fn plan(seed: u64, i: u64, thorough: bool) -> Plan {
    let mut r = Rng::stream(seed, &[0x4ead, i]);
    let mut p = Plan::default();
    let recv = 1 + r.idx(4);
    p.push("run", "readers", &[("recv", recv as i64)]);
    if i < 40 {
        // Together these cover every payload length up to 80.
        p.push("sweep", "-", &[("c", 0), ("lo", 2 * i as i64), ("hi", 2 * i as i64 + 2)]);
    } else if thorough && i < 40 + 1024 {
        let c = 1i64 << 22;
        let k = i as i64 - 40;
        p.push("bools", "-", &[("c", 0), ("lo", k * c), ("hi", (k + 1) * c), ("step", 1)]);
    } else if i < 72 {
        let c = 1i64 << 27;
        let k = i as i64 - 40;
        p.push(
            "bools",
            "-",
            &[("c", 0), ("lo", k * c + r.range(0, 4000)), ("hi", (k + 1) * c), ("step", 4099)],
        );
        p.push("bools", "-", &[("c", 1), ("lo", 1 << k), ("hi", (1 << k) + 3), ("step", 1)]);
        p.push("bools", "-", &[("c", 2), ("lo", k * 256), ("hi", k * 256 + 256), ("step", 1)]);
    } else {
        for _ in 0..2 + r.idx(8) {
            if r.chance(1, 5) {
                p.push(
                    "sizes",
                    "-",
                    &[
                        ("c", r.range(0, 5)),
                        ("case", r.range(0, SIZE_CASES as i64 - 1)),
                        ("seed", (r.next() >> 8) as i64),
                    ],
                );
                continue;
            }
            p.push(
                "seq",
                "-",
                &[
                    ("c", r.range(0, 5)),
                    ("seed", (r.next() >> 8) as i64),
                    ("n", r.range(1, 9)),
                    ("cut", match r.below(4) {
                        0 => 0,
                        1 => -r.range(1, 40),
                        2 => r.range(1, 9),
                        _ => r.range(1, 400),
                    }),
                    ("smash", r.chance(1, 3) as i64),
                    ("kind", r.below(BUF_KINDS) as i64),
                ],
            );
        }
    }
    for _ in 0..r.below(10) {
        p.push_pre(&mut r, 80);
    }
    p
}
