//! The generator world: the real code generator runs on several preemptible
//! tasks of one process, on shared and separate `Generator` values, under a
//! simulated environment (hash seeds, clock, process id, environment variables,
//! heap layout), and next to fresh processes. Every call must give exactly the
//! bytes a fresh process gives for that text, and texts that differ only in
//! layout or declaration order must give the same items.

use crate::glue::under_test;
use crate::plan::Plan;
use crate::run::{self, bit, count, crumb, event, violation, C};
use crate::sched;
use crate::sys;
use fastxdr::Generator;
use model::curated;
use model::items;
use model::print::{self, Layout, Tok};
use model::rng::{hash_bytes, Rng};
use model::spec::*;
use model::specgen;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub const DERIVES: [&str; 4] = [
    fastxdr::DEFAULT_DERIVE,
    "#[derive(Debug, PartialEq, Clone)]",
    "",
    "#[derive(Debug, Clone)]\n#[allow(dead_code)]",
];

// Whether the value may be shared or moved between threads decides how the
// tasks use it.
#[allow(dead_code)]
trait Plain {
    const YES: bool = false;
}
impl<T> Plain for T {}
struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Sync + Send> Probe<T> {
    #[allow(dead_code)]
    const YES: bool = true;
}
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

pub fn shareable() -> bool {
    Probe::<Generator>::YES
}

fn generator(d: i64) -> Generator {
    match d.rem_euclid(5) {
        4 => Generator::default(),
        d => Generator::default().with_derive(DERIVES[d as usize]),
    }
}

// ---- texts --------------------------------------------------------------------

/// A long dependency graph: chains, diamonds and cycles whose only opaque sits
/// at one end.
fn chains(r: &mut Rng) -> Spec {
    let n = 6 + r.idx(34);
    let mut d = vec![Decl::Const("LIM".into(), 7, false)];
    let name = |i: usize| format!("node_{i}");
    let leaf = match r.below(3) {
        0 => Ty::Opaque,
        1 => Ty::Str,
        _ => Ty::Prim(Prim::U32),
    };
    for i in 0..n {
        let ty = if i == 0 { leaf.clone() } else { Ty::Ref(name(i - 1 - r.idx(i.min(2)))) };
        let arr = match r.below(4) {
            0 => Arr::Var(None),
            1 => Arr::Var(Some(Size::Const("LIM".into(), 7))),
            2 if !matches!(ty, Ty::Str) => Arr::Fixed(Size::Lit(2)),
            _ if i == 0 => Arr::Var(None),
            _ => Arr::None,
        };
        let other = Ty::Ref(name(r.idx(n)));
        d.push(match r.below(if i == 0 { 2 } else { 4 }) {
            0 => Decl::Typedef(TypedefDef { name: name(i), ty, arr }),
            1 | 2 => {
                let mut f = vec![Field { name: "a".into(), ty, arr, optional: false }];
                if r.chance(1, 3) {
                    // Back edge: a cycle.
                    f.push(Field { name: "back".into(), ty: other, arr: Arr::None, optional: true });
                }
                Decl::Struct(StructDef { name: name(i), fields: f })
            }
            _ => Decl::Union(UnionDef {
                name: name(i),
                switch: Switch::Prim(Prim::U32),
                var: "d".into(),
                arms: vec![Arm {
                    labels: vec![Label { text: "1".into(), value: 1, kind: LabelKind::Num }],
                    body: if r.chance(1, 2) {
                        Body::Void
                    } else {
                        Body::Data { ty: Ty::Prim(Prim::I64), field: "n".into() }
                    },
                }],
                default: Some((vec![], Body::Data { ty, field: "x".into() })),
            }),
        });
    }
    Spec::new(d)
}

pub fn spec(seed: u64, k: i64, shape: i64) -> Spec {
    let mut r = Rng::stream(seed, &[0xc11, k as u64, shape as u64]);
    match shape {
        0 => curated::spec(seed, curated::GENERAL),
        1 => curated::spec(seed, curated::BARE),
        2 | 3 => chains(&mut r),
        s => {
            let types = [8, 16, 32, 70][(s - 4).rem_euclid(4) as usize];
            let sh = specgen::Shape {
                enums: 1 + r.idx(1 + types / 5),
                types: 4 + r.idx(types),
                consts: 2 + r.idx(10),
                part: if r.chance(1, 2) { Some((r.next(), r.idx(specgen::PARTS))) } else { None },
            };
            specgen::generate(&mut r, sh)
        }
    }
}

fn mutate(toks: &[Vec<Tok>], r: &mut Rng) -> Vec<Vec<Tok>> {
    let mut t = toks.to_vec();
    for _ in 0..1 + r.below(3) {
        let i = r.idx(t.len());
        if t[i].is_empty() {
            continue;
        }
        let j = r.idx(t[i].len());
        match r.below(5) {
            0 => {
                t[i].remove(j);
            }
            1 => {
                let x = t[i][j].clone();
                t[i].insert(j, x);
            }
            2 => {
                let k = r.idx(t.len());
                if !t[k].is_empty() {
                    let x = t[k][r.idx(t[k].len())].clone();
                    t[i][j] = x;
                }
            }
            3 => t[i].truncate(j),
            _ => {
                let x = t[i].clone();
                t.insert(i, x);
            }
        }
    }
    t
}

pub fn text(seed: u64, k: i64, shape: i64, kind: &str, tseed: i64) -> String {
    let s = spec(seed, k, shape);
    // The same spelling of every token in all texts of one specification.
    let toks = print::token_lists(&s, &mut Rng::stream(seed, &[0x70c, k as u64]));
    let mut r = Rng::stream(tseed as u64, &[0x7e]);
    match kind {
        "base" => print::layout(&toks, Layout::Plain, &mut r),
        "tight" => print::layout(&toks, Layout::Tight, &mut r),
        "space" => print::layout(&toks, Layout::Space, &mut r),
        "comment" => print::layout(&toks, Layout::Comments, &mut r),
        "perm" => {
            let mut t = toks;
            match r.below(4) {
                0 => t.reverse(),
                1 => {
                    let n = r.idx(t.len());
                    t.rotate_left(n);
                }
                _ => r.shuffle(&mut t),
            }
            let l = *r.pick(&[Layout::Plain, Layout::Plain, Layout::Comments, Layout::Tight]);
            print::layout(&t, l, &mut r)
        }
        // Other declarations in as many bytes.
        "twin" => {
            let mut t = toks;
            let names: Vec<String> = t
                .iter()
                .flatten()
                .filter(|x| x.s.len() > 3 && x.s.contains('_') && x.s.is_ascii())
                .map(|x| x.s.clone())
                .collect();
            if !names.is_empty() {
                let old = r.pick(&names).clone();
                let mut new = old.clone();
                let last = new.pop();
                new.push(if last == Some('q') { 'z' } else { 'q' });
                for x in t.iter_mut().flatten().filter(|x| x.s == old) {
                    x.s = new.clone();
                }
            }
            print::layout(&t, Layout::Plain, &mut r)
        }
        _ => {
            let t = mutate(&toks, &mut r);
            let mut s = print::layout(&t, Layout::Plain, &mut r);
            if r.chance(1, 4) {
                let mut n = r.idx(s.len().max(1));
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            s
        }
    }
}

// ---- outcomes -----------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
pub enum Outcome {
    Text(String),
    Refused,
    Panicked,
    /// The process ended or said nothing.
    Lost,
}

impl Outcome {
    fn short(&self) -> String {
        match self {
            Outcome::Text(t) => format!("{} bytes (hash {:016x})", t.len(), hash_bytes(3, t.as_bytes())),
            Outcome::Refused => "Err".into(),
            Outcome::Panicked => "a panic".into(),
            Outcome::Lost => "no answer".into(),
        }
    }
}

fn call(g: &Generator, text: &str) -> Outcome {
    let (r, _) = under_test(|| g.generate(text).map_err(|_| ()));
    match r {
        Ok(Ok(s)) => Outcome::Text(s),
        Ok(Err(())) => Outcome::Refused,
        Err(_) => Outcome::Panicked,
    }
}

fn first_difference(a: &str, b: &str) -> String {
    let n = a
        .bytes()
        .zip(b.bytes())
        .position(|(x, y)| x != y)
        .unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let lo = n.saturating_sub(40);
        String::from_utf8_lossy(&s.as_bytes()[lo..(n + 60).min(s.len())]).replace('\n', "\\n")
    };
    format!("at byte {n}: `{}` against `{}`", cut(a), cut(b))
}

// ---- environments -------------------------------------------------------------

/// The world the process believes to be in.
fn environment(seed: u64) {
    let mut r = Rng::stream(seed, &[0xe4f]);
    sys::ENTROPY.store(r.next(), SeqCst);
    sys::CLOCK_NS.store((r.next() >> 2) as i64, SeqCst);
    sys::PID.store(2 + r.below(60_000) as i64, SeqCst);
    sys::HEAP_SKEW.store(if r.chance(1, 2) { r.next() | 1 } else { 0 }, SeqCst);
    sys::CPUS.store(*r.pick(&[1, 2, 3, 4, 8, 16, 64]), SeqCst);
    count(C::env_hash_seed, 1);
    count(C::env_processors, 1);
    count(C::env_clock, 1);
    count(C::env_pid, 1);
    count(C::env_heap_skew, 1);
    for (k, vs) in [
        ("LANG", ["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
        ("HOME", ["/", "/nonexistent", ""]),
        ("TMPDIR", ["/tmp", "/nonexistent", "."]),
        ("RUST_BACKTRACE", ["0", "1", "full"]),
        ("OUT_DIR", ["/tmp", "", "out"]),
        ("SOURCE_DATE_EPOCH", ["0", "1700000000", "x"]),
    ] {
        if r.chance(1, 2) {
            std::env::set_var(k, r.pick(&vs));
        } else {
            std::env::remove_var(k);
        }
        count(C::env_vars, 1);
    }
    sys::VARS.store(r.next(), SeqCst);
    let _ = std::env::set_current_dir(r.pick(&["/", "/dev", "/tmp", "/usr", "/nonexistent"]));
    sys::ENV_ON.store(true, SeqCst);
}

/// One call in a process that has done nothing else.
pub fn alone(seed: u64, derive: i64, text: &str) -> Outcome {
    const CAP: usize = 8 << 20;
    let p = unsafe { sys::mmap(std::ptr::null_mut(), CAP + 16, 3, 0x4021, -1, 0) };
    assert!(p as isize != -1, "mmap");
    let head = p as *mut u64;
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        environment(seed);
        let text = text.to_string();
        let (ph, pp) = (head as usize, p as usize);
        sched::run(
            vec![(
                64 << 20,
                Box::new(move || {
                    let o = call(&generator(derive), &text);
                    unsafe {
                        let h = ph as *mut u64;
                        *h.add(1) = 0;
                        match o {
                            Outcome::Text(t) => {
                                let n = t.len().min(CAP);
                                std::ptr::copy_nonoverlapping(t.as_ptr(), (pp + 16) as *mut u8, n);
                                *h.add(1) = n as u64;
                                *h = 1;
                            }
                            Outcome::Refused => *h = 2,
                            Outcome::Panicked => *h = 3,
                            Outcome::Lost => {}
                        }
                    }
                }),
            )],
            vec![],
        );
        seam_counts();
        unsafe { sys::_exit(0) };
    }
    let mut st = 0;
    unsafe { while sys::waitpid(pid, &mut st, 0) < 0 {} }
    let o = unsafe {
        match *head {
            1 => {
                let b = std::slice::from_raw_parts(p.add(16), *head.add(1) as usize);
                Outcome::Text(String::from_utf8_lossy(b).to_string())
            }
            2 => Outcome::Refused,
            3 => Outcome::Panicked,
            _ => Outcome::Lost,
        }
    };
    unsafe { sys::munmap(p, CAP + 16) };
    o
}

fn seam_counts() {
    for (i, c) in [C::reach_sut_futex, C::reach_sut_entropy, C::reach_sut_clock].into_iter().enumerate() {
        count(c, sys::SEAM_HITS[i].load(SeqCst));
    }
    count(C::reach_sut_processors, sys::SEAM_HITS[4].load(SeqCst));
    count(C::reach_sut_environment, sys::SEAM_HITS[5].load(SeqCst));
    count(C::reach_sut_threads, sched::s().adopted);
}

/// One call in a freshly started program.
fn started(seed: u64, derive: i64, text: &str) -> Outcome {
    let run = || -> std::io::Result<Outcome> {
        let mut c = std::process::Command::new("/proc/self/exe")
            .args(["--once", &seed.to_string(), &derive.to_string()])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()?;
        c.stdin.take().unwrap().write_all(text.as_bytes())?;
        let o = c.wait_with_output()?;
        Ok(match o.status.code() {
            Some(0) => Outcome::Text(String::from_utf8_lossy(&o.stdout).to_string()),
            Some(2) => Outcome::Refused,
            Some(3) => Outcome::Panicked,
            _ => Outcome::Lost,
        })
    };
    run().unwrap_or(Outcome::Lost)
}

/// The other side of `started`.
pub fn once(seed: u64, derive: i64) -> ! {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    environment(seed);
    sched::run(
        vec![(
            64 << 20,
            Box::new(move || {
                let code = match call(&generator(derive), &text) {
                    Outcome::Text(t) => {
                        std::io::stdout().write_all(t.as_bytes()).unwrap();
                        std::io::stdout().flush().unwrap();
                        0
                    }
                    Outcome::Refused => 2,
                    _ => 3,
                };
                unsafe { sys::_exit(code) };
            }),
        )],
        vec![],
    );
    unsafe { sys::_exit(4) }
}

// ---- the run ------------------------------------------------------------------

struct Job {
    gen: usize,
    derive: i64,
    text: i64,
    body: String,
    want: Outcome,
    shared: bool,
}

pub fn world(plan: &Plan) {
    let Some(h) = plan.of("run").next() else { return };
    count(C::runs, 1);
    let (seed, k, shape) = (h.get("vseed") as u64, h.get("spec"), h.get("shape"));
    let env = h.get("env") as u64;

    // Texts, and what fresh processes make of them.
    let mut texts: BTreeMap<i64, (String, String)> = BTreeMap::new();
    for t in plan.of("text") {
        if t.sub == "twin" {
            count(C::gen_twin_texts, 1);
        }
        texts.insert(t.get("id"), (t.sub.clone(), text(seed, k, shape, &t.sub, t.get("seed"))));
    }
    let gens: Vec<i64> = plan.of("gen").map(|g| g.get("derive")).collect();
    if gens.is_empty() {
        return;
    }
    let gen_of = |c: &crate::plan::Line| c.get("gen") as usize % gens.len();
    let mut want: BTreeMap<(i64, i64), Outcome> = BTreeMap::new();
    let mut salt = env;
    let mut fresh = |derive: i64, t: &str| {
        salt = salt.wrapping_mul(6364136223846793005).wrapping_add(99);
        count(C::gen_fresh_process, 1);
        alone(salt, derive, t)
    };
    for c in plan.of("call") {
        let key = (gens[gen_of(c)], c.get("text"));
        if let Some((_, t)) = texts.get(&key.1) {
            if !want.contains_key(&key) {
                let o = fresh(key.0, t);
                event(|| format!("alone {key:?} {}", o.short()));
                want.insert(key, o);
            }
        }
    }

    // Layout and order.
    let base = texts.iter().find(|t| t.1 .0 == "base").map(|t| t.1 .1.clone());
    if let Some(b) = base {
        let d = gens[0];
        let ob = fresh(d, &b);
        let ib = match &ob {
            Outcome::Text(t) => Some(items::items(t)),
            _ => None,
        };
        for (id, (kind, t)) in &texts {
            if kind == "base" || kind == "broken" || kind == "twin" {
                continue;
            }
            let o = match want.get(&(d, *id)) {
                Some(o) => o.clone(),
                None => fresh(d, t),
            };
            let what = if kind == "perm" { "order" } else { "layout" };
            count(if kind == "perm" { C::gen_order_pairs } else { C::gen_layout_pairs }, 1);
            match (&ib, &o) {
                (_, Outcome::Lost) | (None, _) => {}
                (Some(ib), Outcome::Text(x)) => {
                    if let Some(m) = items::difference(ib, &items::items(x)) {
                        violation(
                            "C11",
                            what,
                            &format!(
                                "another {what} of the same declarations gives other items: {m}; texts: {} AGAINST {}",
                                excerpt(&b),
                                excerpt(t)
                            ),
                        );
                    }
                }
                (Some(_), o) => violation(
                    "C11",
                    what,
                    &format!(
                        "another {what} of the same declarations gives {}: {} AGAINST {}",
                        o.short(),
                        excerpt(&b),
                        excerpt(t)
                    ),
                ),
            }
        }
    }

    // A newly started program.
    for s in plan.of("start") {
        let d = gens[gen_of(s)];
        if let Some((_, t)) = texts.get(&s.get("text")) {
            let a = match want.get(&(d, s.get("text"))) {
                Some(o) => o.clone(),
                None => fresh(d, t),
            };
            let b = started(env ^ s.get("env") as u64, d, t);
            count(C::gen_fresh_process, 1);
            event(|| format!("started {} {}", s.get("text"), b.short()));
            compare(&a, &b, "a newly started program", t);
        }
    }

    // Several tasks in this process.
    environment(env ^ 0x7777);
    let share = shareable();
    let pool: Arc<Vec<Force<Generator>>> = Arc::new(gens.iter().map(|d| Force(generator(*d))).collect());
    let ntasks = (h.get("tasks").max(1) as usize).min(6);
    let mut jobs: Vec<Vec<Job>> = (0..ntasks).map(|_| vec![]).collect();
    for c in plan.of("call") {
        let Some((_, body)) = texts.get(&c.get("text")) else { continue };
        let gen = gen_of(c);
        let w = want[&(gens[gen], c.get("text"))].clone();
        if w == Outcome::Lost {
            continue;
        }
        jobs[c.get("task") as usize % ntasks].push(Job {
            gen,
            derive: gens[gen],
            text: c.get("text"),
            body: body.clone(),
            want: w,
            shared: share && c.sub != "own",
        });
    }
    count(C::gen_threads, ntasks as u64);
    let mut tasks: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
    for (ti, js) in jobs.into_iter().enumerate() {
        let pool = pool.clone();
        let n = gens.len();
        tasks.push((
            64 << 20,
            Box::new(move || {
                let mut mine: Vec<Option<Generator>> = (0..n).map(|_| None).collect();
                // Texts one after the other in the same place.
                let mut place = String::with_capacity(1 << 20);
                for j in js {
                    crumb(bit("C11"), &format!("generating {}", excerpt(&j.body)));
                    let body = if ti % 2 == 0 && j.body.len() < place.capacity() {
                        count(C::gen_same_place, 1);
                        place.clear();
                        place.push_str(&j.body);
                        &place
                    } else {
                        &j.body
                    };
                    let o = if j.shared {
                        call(&pool[j.gen].0, body)
                    } else {
                        call(mine[j.gen].get_or_insert_with(|| generator(j.derive)), body)
                    };
                    crumb(0, "");
                    count(C::gen_calls, 1);
                    event(|| format!("task {ti} gen {} text {} {}", j.gen, j.text, o.short()));
                    compare(&j.want, &o, "the same text in a process with a history", &j.body);
                    sched::yield_point();
                }
            }),
        ));
    }
    let sc = sched::run(tasks, plan.preemptions());
    count(C::preemptions, sc.forced);
    count(C::preemptions_in_code_under_test, sc.forced_in_sut);
    count(C::preemptions_at_branch, sc.forced_at_branch);
    count(C::task_switches, sc.switches);
    run::sh().trace.store(sc.trace, SeqCst);
    run::sh().sim_ns.store(sc.step * 100, SeqCst);
    seam_counts();
}

fn excerpt(t: &str) -> String {
    let s: String = t.split_whitespace().collect::<Vec<_>>().join(" ");
    let n: String = s.chars().take(700).collect();
    n
}

fn compare(a: &Outcome, b: &Outcome, what: &str, text: &str) {
    match (a, b) {
        (Outcome::Lost, _) | (_, Outcome::Lost) => {}
        (Outcome::Text(x), Outcome::Text(y)) => {
            if x != y {
                violation(
                    "C11",
                    "not-repeatable",
                    &format!("{what} gives other text, {}; for {}", first_difference(x, y), excerpt(text)),
                );
            } else {
                count(C::gen_identical, 1);
            }
        }
        _ if a == b => count(C::gen_err_agree, 1),
        _ => violation(
            "C11",
            "outcome",
            &format!("{what} gives {} where a fresh process gave {}; for {}", b.short(), a.short(), excerpt(text)),
        ),
    }
}

pub fn plan(seed: u64, i: u64) -> Plan {
    let mut r = Rng::stream(seed, &[0xc11c11, i]);
    let mut p = Plan::default();
    let shape = *r.pick(&[0, 1, 2, 2, 3, 4, 4, 5, 5, 5, 6, 6, 7]);
    let tasks = 1 + r.range(0, 4);
    p.push(
        "run",
        "gen",
        &[
            ("vseed", seed as i64),
            ("spec", i as i64),
            ("shape", shape),
            ("tasks", tasks),
            ("env", (r.next() >> 8) as i64),
        ],
    );
    let ng = 1 + r.range(0, 2);
    for _ in 0..ng {
        p.push("gen", "-", &[("derive", *r.pick(&[4, 4, 0, 1, 2, 3]))]);
    }
    p.push("text", "base", &[("id", 0), ("seed", 1)]);
    let nt = r.range(2, 6);
    for id in 1..=nt {
        let kind = *r.pick(&["tight", "space", "comment", "comment", "perm", "perm", "broken", "twin"]);
        p.push("text", kind, &[("id", id), ("seed", (r.next() >> 8) as i64)]);
    }
    for _ in 0..r.range(2, 10) {
        p.push(
            "call",
            if r.chance(1, 4) { "own" } else { "pool" },
            &[
                ("task", r.range(0, tasks - 1)),
                ("gen", r.range(0, ng - 1)),
                ("text", r.range(0, nt)),
            ],
        );
    }
    if r.chance(1, 3) {
        p.push(
            "start",
            "-",
            &[
                ("text", r.range(0, nt)),
                ("gen", r.range(0, ng - 1)),
                ("env", (r.next() >> 8) as i64),
            ],
        );
    }
    let span = *r.pick(&[200, 3000, 30_000]);
    // Also for a single task: the generator may start threads.
    for _ in 0..r.below(24) {
        p.push_pre(&mut r, span);
    }
    p
}
