//! Runs: one forked child per plan, shared counters, crash attribution, the
//! parallel search loop, minimisation and replay files.

use crate::plan::Plan;
use crate::sys;
use model::rng::hash_bytes;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const NC: usize = 160;
const CRUMB: usize = 2048;
const VIOL: usize = 8192;
/// Processor seconds one decode may take: thousands of times what any needs.
const PATIENCE: u64 = 20;

#[repr(C)]
pub struct Shared {
    pub ctr: [AtomicU64; NC],
    pub hash: AtomicU64,
    pub trace: AtomicU64,
    pub events: AtomicU64,
    pub sim_ns: AtomicU64,
    pub oom: AtomicU64,
    pub known: AtomicU64,
    crumb_mask: AtomicU64,
    crumb_len: AtomicU64,
    viol_len: AtomicU64,
    crumb: [u8; CRUMB],
    viol: [u8; VIOL],
}

#[repr(C)]
struct Control {
    /// Lowest run index with a violation so far.
    min_bad: AtomicU64,
}

static mut SH: *mut Shared = std::ptr::null_mut();
static VERBOSE: AtomicBool = AtomicBool::new(false);
static PROP: OnceLock<String> = OnceLock::new();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

fn map<T>() -> *mut T {
    let p = unsafe { sys::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut T
}

/// Bit of a property id such as "C04".
pub fn bit(p: &str) -> u64 {
    1 << p[1..].parse::<u64>().unwrap()
}

pub fn prop() -> &'static str {
    PROP.get().map(|s| s.as_str()).unwrap_or("")
}

// ---- counters -------------------------------------------------------------

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum C { $($n),* , __N }
        pub const NAMES: &[&str] = &[ $(stringify!($n)),* ];
    };
}

counters!(
    runs,
    attempts,
    attempts_pristine,
    attempts_truncated,
    attempts_mutated,
    attempts_multi_fault,
    decoded_ok,
    decoded_err,
    ref_short,
    ref_pad_short,
    ref_over_max,
    ref_beyond,
    ref_bool,
    ref_enum,
    ref_marker,
    ref_disc,
    ref_utf8,
    ref_too_deep,
    fault_truncate,
    fault_bitflip,
    fault_word,
    fault_padding,
    fault_utf8,
    fault_junk,
    fault_trailing,
    fault_duplicate,
    fault_drop,
    fault_reorder,
    fault_splice,
    fault_torn_write,
    fault_reset,
    fault_crash_restart,
    fault_delay,
    fault_alloc_pressure,
    segments_delivered,
    datagrams_delivered,
    log_recoveries,
    stream_resyncs,
    records_sent,
    records_delivered,
    probe_prefix_cuts,
    probe_words,
    probe_embeddings,
    probe_over_maximum,
    probe_claims,
    probe_soaks,
    soak_decodes,
    preemptions,
    preemptions_in_code_under_test,
    preemptions_at_branch,
    task_switches,
    reach_union_default,
    reach_optional_chain_50,
    reach_array_8,
    reach_payload_4k,
    reach_at_declared_max,
    reach_opaque_leaf,
    reach_nan,
    reach_zero_capacity_count,
    reach_held_value_rechecked,
    reach_size_stepping,
    reader_ops,
    reader_ok,
    reader_err,
    bool_words,
    known_k1,
    known_k1_array,
    known_k2,
    gen_calls,
    gen_threads,
    gen_layout_pairs,
    gen_order_pairs,
    gen_identical,
    gen_err_agree,
    gen_fresh_process,
    env_hash_seed,
    env_clock,
    env_pid,
    env_vars,
    env_heap_skew,
    env_processors,
    reach_sut_futex,
    reach_sut_entropy,
    reach_sut_clock,
    reach_sut_processors,
    reach_sut_environment,
    gen_twin_texts,
    gen_same_place,
    reach_sut_threads,
    cli_runs,
    cli_ok,
    cli_fail,
    cli_faults_armed,
    io_open_fail,
    io_read_fail,
    io_read_eintr,
    io_read_short,
    io_stat_fail,
    io_write_fail,
    io_write_eintr,
    io_write_short,
    io_stat_size,
    cli_edits,
    cli_unreadable,
    cli_exact,
    cli_concurrent,
    io_content_nonutf8,
    checks,
    soak_attempts,
    peak_alloc_per_kib,
    reach_decode_after_error,
    reach_static_buffer,
    reach_shared_buffer,
    reach_odd_padding,
    reach_two_families,
);

pub fn count(c: C, n: u64) {
    sh().ctr[c as usize].fetch_add(n, SeqCst);
}
pub fn count_max(c: C, n: u64) {
    sh().ctr[c as usize].fetch_max(n, SeqCst);
}

// ---- inside a run -----------------------------------------------------------

/// Everything that happens in a run goes through here: it is what two runs of
/// one seed are compared by.
pub fn event(f: impl FnOnce() -> String) {
    let s = sh();
    let t = f();
    s.events.fetch_add(1, SeqCst);
    let h = s.hash.load(SeqCst);
    s.hash.store(hash_bytes(h, t.as_bytes()), SeqCst);
    if VERBOSE.load(SeqCst) {
        eprintln!("  {t}");
    }
}

/// Notes what is about to run, and for which properties a crash there is a
/// violation.
pub fn crumb(mask: u64, text: &str) {
    let s = sh();
    if mask != 0 {
        patience();
    }
    s.crumb_mask.store(mask, SeqCst);
    let mut n = text.len().min(CRUMB);
    while !text.is_char_boundary(n) {
        n -= 1;
    }
    s.crumb[..n].copy_from_slice(&text.as_bytes()[..n]);
    s.crumb_len.store(n as u64, SeqCst);
}

/// Reports a violation of property `p`. Only those of the property under check
/// end the run; the caller carries on otherwise.
pub fn violation(p: &str, class: &str, msg: &str) {
    event(|| format!("violation {p} {class} {msg}"));
    if p != prop() {
        return;
    }
    let s = sh();
    let t = format!("{class}\n{msg}");
    let mut n = t.len().min(VIOL);
    while !t.is_char_boundary(n) {
        n -= 1;
    }
    s.viol[..n].copy_from_slice(&t.as_bytes()[..n]);
    s.viol_len.store(n as u64, SeqCst);
    unsafe { sys::_exit(3) };
}

/// From here on the run may use this much more processor time.
pub fn patience() {
    let mut ts = [0i64; 2];
    unsafe {
        sys::raw_syscall(sys::SYS_CLOCK_GETTIME, 2, ts.as_mut_ptr() as i64, 0, 0, 0, 0);
        let l = ts[0] as u64 + 1 + PATIENCE;
        sys::setrlimit(0, &[l, u64::MAX]);
    }
}

pub fn note_oom(n: u64) {
    if !unsafe { SH }.is_null() {
        sh().oom.store(n, SeqCst);
    }
}

pub fn deadlock() -> ! {
    sh().oom.store(u64::MAX, SeqCst);
    unsafe { sys::_exit(5) };
}

// ---- outcome of a run -------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    /// (class, message) when the run violated the property under check.
    pub bad: Option<(String, String)>,
    /// The run could not be completed for a reason that is no violation.
    pub stray: Option<String>,
    pub hash: u64,
    pub trace: u64,
    pub events: u64,
}

pub type World = dyn Fn(&Plan) + Sync;

/// Executes one plan in a forked child.
pub fn run_child(world: &World, plan: &Plan) -> Outcome {
    let s = sh();
    for c in s.ctr.iter() {
        c.store(0, SeqCst);
    }
    s.hash.store(0xcbf29ce484222325, SeqCst);
    for a in [
        &s.trace,
        &s.events,
        &s.sim_ns,
        &s.oom,
        &s.known,
        &s.crumb_mask,
        &s.crumb_len,
        &s.viol_len,
    ] {
        a.store(0, SeqCst);
    }
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            sys::prctl(1, 9, 0, 0, 0);
            sys::setrlimit(4, &[0, 0]);
            if !VERBOSE.load(SeqCst) {
                let n = sys::open(c"/dev/null".as_ptr(), 1);
                sys::dup2(n, 2);
            }
        }
        patience();
        unsafe { sys::alarm(200) };
        world(plan);
        unsafe { sys::_exit(0) };
    }
    let mut st = 0i32;
    unsafe {
        while sys::waitpid(pid, &mut st, 0) < 0 {}
    }
    let s = sh();
    let mut o = Outcome {
        bad: None,
        stray: None,
        hash: s.hash.load(SeqCst),
        trace: s.trace.load(SeqCst),
        events: s.events.load(SeqCst),
    };
    let sig = st & 0x7f;
    let code = st >> 8 & 0xff;
    if sig == 0 && code == 0 {
        return o;
    }
    if sig == 0 && code == 3 {
        let n = s.viol_len.load(SeqCst) as usize;
        let t = String::from_utf8_lossy(&s.viol[..n]).to_string();
        let (c, m) = t.split_once('\n').unwrap_or((&t, ""));
        o.bad = Some((c.to_string(), m.to_string()));
        return o;
    }
    let n = s.crumb_len.load(SeqCst) as usize;
    let at = String::from_utf8_lossy(&s.crumb[..n]).to_string();
    let oom = s.oom.load(SeqCst);
    let (class, what) = if code == 5 && sig == 0 {
        ("deadlock".to_string(), "every task is blocked inside the code under test".to_string())
    } else if oom > 0 {
        ("abort-oom".to_string(), format!("process ended by a refused allocation of {oom} bytes"))
    } else if sig == 24 || sig == 14 {
        ("hang".to_string(), format!("no end within {PATIENCE} s of processor time"))
    } else {
        (
            format!("crash-{}", if sig != 0 { sig } else { 1000 + code }),
            format!("process ended by signal {sig} (exit code {code})"),
        )
    };
    let mask = s.crumb_mask.load(SeqCst);
    // For memory, only a refused request speaks.
    let owed = mask & bit(prop()) != 0 && (prop() != "C09" || class == "abort-oom");
    if owed {
        o.bad = Some((class, format!("{what} while {at}")));
    } else {
        o.stray = Some(format!("{what} while {at}"));
    }
    o
}

// ---- search -----------------------------------------------------------------

pub struct Config {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub workers: u64,
    pub max_secs: u64,
}

#[derive(Default, Debug)]
pub struct Totals {
    pub ctr: BTreeMap<String, u64>,
    pub runs: u64,
    pub events: u64,
    pub sim_ns: u64,
    pub known: u64,
    pub strays: Vec<String>,
    pub hashes: HashSet<u64>,
    pub traces: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub bad: Option<(u64, String, String)>,
    pub wall: f64,
    pub run_hashes: Vec<(u64, u64)>,
}

pub fn init(prop: &str, verbose: bool) {
    unsafe {
        if SH.is_null() {
            SH = map::<Shared>();
        }
        if sys::BRANCHES.load(SeqCst) > 0 {
            sys::REACHED.store(map::<[u8; sys::MAX_BRANCHES]>() as *mut u8, SeqCst);
        }
    }
    let _ = PROP.set(prop.to_string());
    VERBOSE.store(verbose, SeqCst);
}

/// Searches runs 0..n for a violation, on `workers` processes. `nontrivial`
/// says from the run's counters whether it counts as non-trivial.
pub fn search(
    cfg: &Config,
    world: &World,
    gen: &(dyn Fn(u64) -> Plan + Sync),
    nontrivial: &dyn Fn(&Shared) -> bool,
    dir: &str,
    keep_hashes: bool,
) -> Totals {
    let t0 = Instant::now();
    let ctl: &'static Control = unsafe { &*map::<Control>() };
    ctl.min_bad.store(u64::MAX, SeqCst);
    let mut pids = Vec::new();
    for w in 0..cfg.workers {
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                sys::prctl(1, 9, 0, 0, 0);
                SH = map::<Shared>();
            }
            let mut ctr = vec![0u64; NC];
            let mut out = String::new();
            let mut hs: Vec<(u64, u64, u64, bool)> = Vec::new();
            let (mut runs, mut events, mut sim, mut known) = (0u64, 0u64, 0u64, 0u64);
            let mut i = w;
            let mut strays = 0;
            while i < cfg.runs
                && i < ctl.min_bad.load(SeqCst)
                && t0.elapsed() < Duration::from_secs(cfg.max_secs)
            {
                let plan = gen(i);
                let o = run_child(world, &plan);
                let s = sh();
                runs += 1;
                events += o.events;
                sim += s.sim_ns.load(SeqCst);
                known |= s.known.load(SeqCst);
                for (k, c) in s.ctr.iter().enumerate() {
                    let v = c.load(SeqCst);
                    if k == C::peak_alloc_per_kib as usize {
                        ctr[k] = ctr[k].max(v);
                    } else {
                        ctr[k] += v;
                    }
                }
                hs.push((i, o.hash, o.trace, nontrivial(s)));
                if let Some(x) = o.stray {
                    strays += 1;
                    if strays <= 3 {
                        out.push_str(&format!("stray {i} {}\n", x.replace('\n', " ")));
                    }
                }
                if let Some((c, m)) = o.bad {
                    ctl.min_bad.fetch_min(i, SeqCst);
                    out.push_str(&format!("bad {i} {c} {}\n", m.replace('\n', " ")));
                    break;
                }
                i += cfg.workers;
            }
            out.push_str(&format!("sum {runs} {events} {sim} {known}\n"));
            for (k, n) in NAMES.iter().enumerate() {
                out.push_str(&format!("ctr {n} {}\n", ctr[k]));
            }
            for (i, h, t, nt) in hs {
                out.push_str(&format!("h {i} {h} {t} {}\n", nt as u8));
            }
            let _ = std::fs::write(format!("{dir}/w{w}.txt"), out);
            unsafe { sys::_exit(0) };
        }
        pids.push(pid);
    }
    let mut lost = false;
    for p in pids {
        let mut st = 0;
        unsafe { while sys::waitpid(p, &mut st, 0) < 0 {} }
        lost |= st != 0;
    }
    let mut t = Totals::default();
    for w in 0..cfg.workers {
        let f = match std::fs::read_to_string(format!("{dir}/w{w}.txt")) {
            Ok(f) => f,
            Err(_) => {
                lost = true;
                continue;
            }
        };
        for l in f.lines() {
            let mut it = l.splitn(4, ' ');
            match it.next() {
                Some("sum") => {
                    let v: Vec<u64> = l.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
                    t.runs += v[0];
                    t.events += v[1];
                    t.sim_ns += v[2];
                    t.known |= v[3];
                }
                Some("ctr") => {
                    let n = it.next().unwrap().to_string();
                    let v: u64 = it.next().unwrap().parse().unwrap();
                    let e = t.ctr.entry(n.clone()).or_insert(0);
                    if n == "peak_alloc_per_kib" {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
                Some("h") => {
                    let v: Vec<u64> = l.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
                    t.hashes.insert(v[1]);
                    t.traces.insert(v[2]);
                    if v[3] == 1 {
                        t.nontrivial.insert(v[1]);
                    }
                    if keep_hashes {
                        t.run_hashes.push((v[0], v[1]));
                    }
                }
                Some("stray") => t.strays.push(l.to_string()),
                Some("bad") => {
                    let i: u64 = it.next().unwrap().parse().unwrap();
                    let c = it.next().unwrap().to_string();
                    let m = it.next().unwrap_or("").to_string();
                    if t.bad.as_ref().map(|b| b.0 > i).unwrap_or(true) {
                        t.bad = Some((i, c, m));
                    }
                }
                _ => {}
            }
        }
        let _ = std::fs::remove_file(format!("{dir}/w{w}.txt"));
    }
    if lost {
        t.strays.push("a worker process was lost".into());
    }
    t.run_hashes.sort();
    t.wall = t0.elapsed().as_secs_f64();
    t
}

/// Shrinks a failing plan while the same class of violation persists.
pub fn minimise(world: &World, plan: &Plan, class: &str, secs: u64) -> (Plan, u64) {
    let t0 = Instant::now();
    let tries = std::cell::Cell::new(0u64);
    let fails = |p: &Plan| -> bool {
        tries.set(tries.get() + 1);
        matches!(run_child(world, p).bad, Some((c, _)) if c == class)
    };
    let mut best = plan.clone();
    let out_of_time = || t0.elapsed() > Duration::from_secs(secs);
    loop {
        let before = best.clone();
        // Drop lines, in chunks.
        let mut chunk = (best.lines.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.lines.len() && !out_of_time() {
                let mut c = best.clone();
                let end = (i + chunk).min(c.lines.len());
                c.lines.drain(i..end);
                if fails(&c) {
                    best = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 || out_of_time() {
                break;
            }
            chunk /= 2;
        }
        // Shrink arguments.
        for li in 0..best.lines.len() {
            for ai in 0..best.lines[li].args.len() {
                if matches!(best.lines[li].args[ai].0.as_str(), "seed" | "c" | "r" | "spec" | "ty") {
                    continue;
                }
                loop {
                    let v = best.lines[li].args[ai].1;
                    let mut hit = false;
                    for cand in [0, v / 2, v - v.signum()] {
                        if cand == v || cand.abs() >= v.abs() || out_of_time() {
                            continue;
                        }
                        let mut c = best.clone();
                        c.lines[li].args[ai].1 = cand;
                        if fails(&c) {
                            best = c;
                            hit = true;
                            break;
                        }
                    }
                    if !hit {
                        break;
                    }
                }
            }
        }
        if best == before || out_of_time() {
            break;
        }
    }
    (best, tries.get())
}
