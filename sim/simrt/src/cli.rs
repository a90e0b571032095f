//! The command line world: the real `fastxdr` program, preloaded with a shim
//! that stops at every call on its input files and on standard output. The
//! simulator decides what each such call meets (errors, short reads and writes,
//! wrong sizes) and, when several programs run at once, which goes next. The
//! files, the argument list, the environment and what standard output is
//! connected to come from the plan.

use crate::gen::{self, Outcome};
use crate::plan::{Line, Plan};
use crate::run::{self, count, event, violation, C};
use crate::sys;
use model::rng::{hash_bytes, Rng};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::symlink;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::OnceLock;

pub struct Tools {
    pub program: String,
    pub shim: String,
    pub scratch: String,
}
pub static TOOLS: OnceLock<Tools> = OnceLock::new();

extern "C" {
    fn socketpair(d: i32, t: i32, p: i32, fds: *mut i32) -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn poll(p: *mut PollFd, n: u64, ms: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

const KINDS: [&str; 7] = ["", "open", "read", "write", "stat", "seek", "other"];
const HANG_MS: i32 = 40_000;

#[repr(C)]
#[derive(Clone, Copy)]
struct Ask {
    kind: u32,
    fd: i32,
    len: u64,
    path: [u8; 240],
}

// ---- files --------------------------------------------------------------------

#[derive(Clone)]
struct Input {
    /// What to pass on the command line.
    arg: OsString,
    /// What the program finds there: text, or nothing readable.
    content: Option<Vec<u8>>,
    /// A pipe handed down instead of a file.
    pipe: bool,
    path: PathBuf,
}

const NAMES: [&[u8]; 29] = [
    b"spec.x",
    b"a b.x",
    b"-",
    b"--help",
    b"-v",
    "\u{fc}n\u{ef}.x".as_bytes(),
    b"x;y&z",
    b"new\nline.x",
    b"\xff\xfe\x80.x",
    b"@file",
    b"*",
    b"a=b",
    b"%s%n",
    b"spec.x.bak",
    b"SPEC.X",
    b".hidden",
    b"no_extension",
    b"~",
    b"lib.rs",
    b"--",
    b"-h",
    b"--version",
    b"-o",
    b"$HOME",
    b"a,b",
    b"%20",
    b"*.x",
    b" ",
    b"trailing ",
];

fn content(kind: &str, vseed: u64, l: &Line) -> Option<Vec<u8>> {
    let (k, shape, s) = (l.get("spec"), l.get("shape"), l.get("seed"));
    let mut r = Rng::stream(s as u64, &[0xc11]);
    let text = |what: &str| gen::text(vseed, k, shape, what, s).into_bytes();
    Some(match kind {
        "valid" => text(r.pick(&["base", "tight", "space", "comment", "perm"])),
        "broken" => text("broken"),
        "empty" => vec![],
        "blank" => r.pick(&[" ", "\n", "\r\n\t", "// nothing\n", "/* */ "]).as_bytes().to_vec(),
        "torn" => {
            let mut t = text("comment");
            let n = 1 + r.idx(t.len());
            t.truncate(n);
            t
        }
        "nonutf8" => {
            let mut t = text("comment");
            let bad: &[&[u8]] = &[b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f", b"\xc0\xaf"];
            let b = *r.pick(bad);
            let c = [b"\n// ", b, b"\n"].concat();
            match r.below(3) {
                0 => t.extend_from_slice(&c),
                1 => t.splice(0..0, c).for_each(drop),
                // At the very end, where reading by pieces may lose it.
                _ => {
                    t.extend_from_slice(b"\n//");
                    t.extend_from_slice(b)
                }
            }
            t
        }
        "bom" => [b"\xef\xbb\xbf".to_vec(), text("base")].concat(),
        "nul" => {
            let mut t = text("base");
            match r.below(3) {
                0 => t.push(0),
                1 => t.insert(0, 0),
                _ => {
                    let n = r.idx(t.len());
                    t.insert(n, 0)
                }
            }
            t
        }
        "long" => {
            // More than one read, with multi-byte characters everywhere.
            let mut t = text("base");
            let n = 3000 + r.idx(20_000);
            t.extend_from_slice(b"\n/* ");
            for _ in 0..n {
                t.extend_from_slice(r.pick(&["\u{fc}", "\u{2028}", "\u{1f980}", "x"]).as_bytes());
            }
            t.extend_from_slice(b" */\n");
            t
        }
        _ => return None,
    })
}

fn lay(dir: &Path, vseed: u64, l: &Line, prev: &BTreeMap<i64, Input>) -> Input {
    let kind = l.sub.as_str();
    let id = l.get("id");
    let body = content(kind, vseed, l);
    if kind == "nothing" {
        return Input { arg: OsString::new(), content: None, pipe: false, path: dir.join("nothing").join(id.to_string()) };
    }
    let name = NAMES[l.get("name") as usize % NAMES.len()];
    // Each file in a directory of its own, so that names may repeat.
    let sub = format!("d{id}");
    std::fs::create_dir_all(dir.join(&sub)).unwrap();
    // Names with a leading dash are only of interest bare.
    let bare = l.get("how") == 4;
    let path = if bare { dir.join(OsStr::from_bytes(name)) } else { dir.join(&sub).join(OsStr::from_bytes(name)) };
    let pipe = l.get("how") == 5 && body.as_ref().map(|b| b.len() < 60_000).unwrap_or(false);
    if let Some(p) = prev.values().find(|p| p.path == path) {
        // The same file again.
        return p.clone();
    }
    let mut body = body;
    let mut shows = path.clone();
    match kind {
        "missing" => {}
        "same" => {
            // Another name for a file there is, or another file of the same text.
            let of = prev.get(&l.get("of")).filter(|p| !p.pipe && p.path.is_file());
            if let Some(of) = of {
                body = of.content.clone();
                // A name that may be given to another file is no link.
                let link = if bare { 2 } else { l.get("seed") % 3 };
                match link {
                    0 => std::fs::hard_link(of.path.canonicalize().unwrap(), &path).unwrap(),
                    1 => symlink(&of.path, &path).unwrap(),
                    _ => {
                        std::fs::copy(&of.path, &path).unwrap();
                    }
                }
                if link < 2 {
                    shows = of.path.clone();
                }
            }
        }
        "dir" => std::fs::create_dir_all(&path).unwrap(),
        "dangling" => symlink("nowhere", &path).unwrap(),
        "loop" => symlink(path.file_name().unwrap(), &path).unwrap(),
        _ if pipe => {}
        _ => {
            let b = body.as_deref().unwrap_or(b"");
            if l.get("how") == 3 {
                let t = dir.join(&sub).join("target");
                std::fs::write(&t, b).unwrap();
                symlink(if l.get("seed") % 2 == 0 { t } else { PathBuf::from("target") }, &path).unwrap();
            } else {
                std::fs::write(&path, b).unwrap();
            }
        }
    }
    let rel = |pre: &str| {
        let mut v = format!("{pre}{sub}/").into_bytes();
        v.extend_from_slice(name);
        OsString::from_vec(v)
    };
    let arg = match l.get("how") {
        4 => OsString::from_vec(name.to_vec()),
        0 => rel(""),
        1 => rel("./"),
        2 => path.clone().into_os_string(),
        6 => rel(&format!("{sub}/.././/")),
        _ => rel(""),
    };
    Input { arg, content: body, pipe, path: shows }
}

// ---- one program --------------------------------------------------------------

struct Prog {
    child: Option<Child>,
    sock: OwnedFd,
    out: Option<OwnedFd>,
    err: Option<OwnedFd>,
    out_file: Option<PathBuf>,
    prior: Vec<u8>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    pending: Option<Ask>,
    done: bool,
    status: Option<std::process::ExitStatus>,
    nth: [i64; 7],
    inv: i64,
    fired: Vec<String>,
    hard: bool,
    write_fault: bool,
    lenient: bool,
    /// Handed-down pipes stay open until the program has started.
    _keep: Vec<OwnedFd>,
}

fn pipe() -> (OwnedFd, OwnedFd) {
    let mut f = [0; 2];
    unsafe {
        assert_eq!(pipe2(f.as_mut_ptr(), 0o2000000), 0);
        (OwnedFd::from_raw_fd(f[0]), OwnedFd::from_raw_fd(f[1]))
    }
}

fn keep_open(fd: RawFd) {
    unsafe {
        fcntl(fd, 2, 0);
    }
}

fn start(dir: &Path, inv: &Line, inputs: &BTreeMap<i64, Input>, entropy: u64) -> Prog {
    let t = TOOLS.get().expect("no tools");
    let mut keep = vec![];
    let mut c = Command::new(&t.program);
    if inv.get("arg0") == 1 {
        c.arg0(OsStr::from_bytes(b"\xff\xfe"));
    } else {
        c.arg0("fastxdr");
    }
    if inv.get("clean") == 1 {
        c.env_clear();
    }
    let mut r = Rng::stream(inv.get("env") as u64, &[0xe]);
    let d = dir.to_str().unwrap();
    for (k, vs) in [
        ("LANG", ["C", "de_DE.UTF-8", "ja_JP.EUC-JP"]),
        ("HOME", ["/nonexistent", d, ""]),
        ("TMPDIR", [d, d, d]),
        ("XDG_CACHE_HOME", [d, d, d]),
        ("RUST_BACKTRACE", ["0", "1", "0"]),
        ("COLUMNS", ["1", "80", "x"]),
        ("NO_COLOR", ["1", "", "0"]),
        ("TERM", ["dumb", "xterm", ""]),
        ("OUT_DIR", [d, "", "."]),
        ("RUST_LOG", ["trace", "off", ""]),
    ] {
        let v = *r.pick(&vs);
        if k == "TMPDIR" || k == "XDG_CACHE_HOME" || r.chance(1, 3) {
            c.env(k, v);
        }
    }
    for i in 0..inv.get("n") {
        let f = inv.get(&format!("a{i}"));
        let Some(input) = inputs.get(&f) else { continue };
        if input.pipe {
            let (rd, wr) = pipe();
            File::from(wr).write_all(input.content.as_ref().unwrap()).unwrap();
            keep_open(rd.as_raw_fd());
            c.arg(format!("/dev/fd/{}", rd.as_raw_fd()));
            keep.push(rd);
        } else {
            c.arg(&input.arg);
        }
    }
    let mut p = [0; 2];
    unsafe { assert_eq!(socketpair(1, 5 | 0o2000000, 0, p.as_mut_ptr()), 0) };
    let (ours, theirs) = unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) };
    keep_open(theirs.as_raw_fd());
    c.current_dir(dir)
        .env("LD_PRELOAD", &t.shim)
        .env("SIM_FD", theirs.as_raw_fd().to_string())
        .env("SIM_DIR", d)
        .env("SIM_ENTROPY", entropy.to_string())
        .env("SIM_SCHED", inv.get("sched").to_string())
        .env("SIM_VARS", inv.get("vars").to_string())
        .env("SIM_TTY", inv.get("tty").to_string());
    match inv.get("in") {
        // A specification that nobody asked for.
        1 => {
            let (rd, wr) = pipe();
            File::from(wr).write_all(b"struct from_standard_input { int x; };\n").unwrap();
            c.stdin(Stdio::from(rd));
        }
        2 => {
            let f = dir.join(format!("in{}", inv.get("id")));
            std::fs::write(&f, b"struct from_standard_input { int x; };\n").unwrap();
            c.stdin(Stdio::from(File::open(f).unwrap()));
        }
        _ => {
            c.stdin(Stdio::null());
        }
    }
    let (mut out, mut out_file, mut prior) = (None, None, vec![]);
    match inv.sub.as_str() {
        "file" | "append" => {
            let f = dir.join(format!("out{}", inv.get("id")));
            if inv.sub == "append" {
                prior = b"what was there before\n".to_vec();
                std::fs::write(&f, &prior).unwrap();
            }
            let h = std::fs::OpenOptions::new()
                .create(true)
                .append(inv.sub == "append")
                .write(true)
                .open(&f)
                .unwrap();
            c.stdout(Stdio::from(h));
            out_file = Some(f);
        }
        "full" => {
            let h = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
            c.stdout(Stdio::from(h));
        }
        "gone" => {
            let (rd, wr) = pipe();
            drop(rd);
            c.stdout(Stdio::from(wr));
        }
        _ => {
            let (rd, wr) = pipe();
            c.stdout(Stdio::from(wr));
            out = Some(rd);
        }
    }
    let (erd, ewr) = pipe();
    c.stderr(Stdio::from(ewr));
    unsafe {
        c.pre_exec(|| {
            sys::prctl(1, 9, 0, 0, 0);
            setrlimit(4, &[0, 0]);
            setrlimit(0, &[60, 60]);
            signal(13, 0);
            Ok(())
        });
    }
    let child = c.spawn().expect("cannot start the program");
    drop(theirs);
    drop(c);
    Prog {
        child: Some(child),
        sock: ours,
        out,
        err: Some(erd),
        out_file,
        prior,
        stdout: vec![],
        stderr: vec![],
        pending: None,
        done: false,
        status: None,
        nth: [0; 7],
        inv: inv.get("id"),
        fired: vec![],
        hard: false,
        write_fault: inv.sub == "full" || inv.sub == "gone",
        lenient: false,
        _keep: keep,
    }
}

fn drain(fd: &mut Option<OwnedFd>, into: &mut Vec<u8>) {
    let Some(f) = fd else { return };
    let mut b = [0u8; 65536];
    let n = unsafe {
        let mut f = std::mem::ManuallyDrop::new(File::from_raw_fd(f.as_raw_fd()));
        f.read(&mut b)
    };
    match n {
        Ok(0) | Err(_) => *fd = None,
        Ok(n) => into.extend_from_slice(&b[..n]),
    }
}

/// Waits until every program stands at a call or has ended. False when one does
/// neither.
fn settle(ps: &mut [Prog]) -> bool {
    loop {
        let mut fds: Vec<PollFd> = vec![];
        let mut what: Vec<(usize, u8)> = vec![];
        let mut waiting = false;
        for (i, p) in ps.iter().enumerate() {
            if !p.done && p.pending.is_none() {
                waiting = true;
                fds.push(PollFd { fd: p.sock.as_raw_fd(), events: 1, revents: 0 });
                what.push((i, 0));
            }
            for (f, k) in [(&p.out, 1), (&p.err, 2)] {
                if let Some(f) = f {
                    fds.push(PollFd { fd: f.as_raw_fd(), events: 1, revents: 0 });
                    what.push((i, k));
                }
            }
        }
        if !waiting {
            return true;
        }
        let n = unsafe { poll(fds.as_mut_ptr(), fds.len() as u64, HANG_MS) };
        if n == 0 {
            return false;
        }
        for (f, (i, k)) in fds.iter().zip(what) {
            if f.revents == 0 {
                continue;
            }
            let p = &mut ps[i];
            match k {
                1 => drain(&mut p.out, &mut p.stdout),
                2 => drain(&mut p.err, &mut p.stderr),
                _ => {
                    let mut a = Ask { kind: 0, fd: 0, len: 0, path: [0; 240] };
                    let n = unsafe {
                        sys::raw_syscall(0, f.fd as i64, &mut a as *mut Ask as i64, std::mem::size_of::<Ask>() as i64, 0, 0, 0)
                    };
                    if n == std::mem::size_of::<Ask>() as i64 {
                        p.pending = Some(a);
                    } else {
                        p.done = true;
                        while p.out.is_some() {
                            drain(&mut p.out, &mut p.stdout);
                        }
                        while p.err.is_some() {
                            drain(&mut p.err, &mut p.stderr);
                        }
                        p.status = p.child.take().map(|mut c| c.wait().unwrap());
                        if let Some(f) = &p.out_file {
                            p.stdout = std::fs::read(f).unwrap_or_default();
                        }
                    }
                }
            }
        }
    }
}

fn answer(p: &mut Prog, faults: &[&Line], step: u64) {
    let a = p.pending.take().unwrap();
    let kind = a.kind as usize % KINDS.len();
    p.nth[kind] += 1;
    let mut reply = [0i64, 0];
    for f in faults {
        if f.get("inv") != p.inv || f.sub != KINDS[kind] || f.get("nth") != p.nth[kind] {
            continue;
        }
        // Standard output and input files are told apart.
        if kind == 3 && a.fd != 1 {
            continue;
        }
        if f.get("errno") != 0 {
            reply = [1, f.get("errno")];
            let benign = f.get("errno") == 4;
            match kind {
                3 if !benign => p.write_fault = true,
                1 | 2 if !benign => p.hard = true,
                // An interrupted call is to be made again: nothing is wrong
                // with the file or the output.
                1..=3 => {}
                _ => p.lenient = true,
            }
            count(
                match (kind, benign) {
                    (1, _) => C::io_open_fail,
                    (2, true) => C::io_read_eintr,
                    (2, false) => C::io_read_fail,
                    (3, true) => C::io_write_eintr,
                    (3, false) => C::io_write_fail,
                    _ => C::io_stat_fail,
                },
                1,
            );
        } else if f.get("short") != 0 {
            if a.len < 2 {
                continue;
            }
            reply = [2, f.get("short")];
            count(if kind == 3 { C::io_write_short } else { C::io_read_short }, 1);
        } else if kind == 4 {
            reply = [3, f.get("size")];
            count(C::io_stat_size, 1);
        }
        if reply[0] != 0 {
            p.fired.push(f.to_string());
        }
    }
    let n = a.path.iter().position(|x| *x == 0).unwrap_or(240);
    // Descriptor numbers and the scratch directory differ between hosts.
    let path = String::from_utf8_lossy(&a.path[..n]).to_string();
    let path = path.rsplit('/').next().unwrap_or("").to_string();
    event(|| {
        format!(
            "{step}: program {} {} #{} {} -> {:?}",
            p.inv,
            KINDS[kind],
            p.nth[kind],
            if kind == 1 { if path.parse::<u32>().is_ok() { "fd".into() } else { path } } else { String::new() },
            reply
        )
    });
    unsafe {
        sys::raw_syscall(1, p.sock.as_raw_fd() as i64, reply.as_ptr() as i64, 16, 0, 0, 0);
    }
}

// ---- the run ------------------------------------------------------------------

pub fn world(plan: &Plan) {
    let Some(h) = plan.of("run").next() else { return };
    count(C::runs, 1);
    let vseed = h.get("vseed") as u64;
    let t = TOOLS.get().expect("no tools");
    // The same length in every run, as long as process ids have up to 7 digits.
    let dir = PathBuf::from(format!("{}/cli{:07}", t.scratch, unsafe { sys::raw_syscall(sys::SYS_GETPID, 0, 0, 0, 0, 0, 0) }));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let done = |what: &str, msg: &str| {
        let _ = std::fs::remove_dir_all(&dir);
        violation("C15", what, msg);
    };

    let mut inputs: BTreeMap<i64, Input> = BTreeMap::new();
    for l in plan.of("file") {
        let f = lay(&dir, vseed, l, &inputs);
        inputs.insert(l.get("id"), f);
    }
    let mut oracle: BTreeMap<Vec<u8>, Outcome> = BTreeMap::new();
    let faults: Vec<&Line> = plan.of("fault").collect();
    count(C::cli_faults_armed, faults.len() as u64);
    let pre = plan.preemptions();
    let invs: Vec<&Line> = plan.of("inv").collect();
    let mut groups: Vec<i64> = invs.iter().map(|i| i.get("group")).collect();
    groups.dedup();
    let (mut step, mut trace) = (0u64, 0xcbf29ce484222325u64);
    for g in groups {
        // Edits made before this group starts.
        for e in plan.of("edit").filter(|e| e.get("group") == g) {
            let id = e.get("file");
            let Some(f) = inputs.get_mut(&id) else { continue };
            let Some(old) = f.content.clone() else { continue };
            if f.pipe || !f.path.exists() {
                continue;
            }
            let Some(mut new) = content(&e.sub, vseed, e) else { continue };
            let meta = std::fs::metadata(&f.path).unwrap();
            // Same length and time stamp where that is possible, as a restored
            // or quickly rewritten file would have.
            if new.len() < old.len() {
                new.resize(old.len(), b'\n');
            }
            std::fs::write(&f.path, &new).unwrap();
            let h = File::options().write(true).open(&f.path).unwrap();
            h.set_modified(meta.modified().unwrap()).unwrap();
            f.content = Some(new.clone());
            // Every other name of the file shows the same.
            let p = f.path.clone();
            for o in inputs.values_mut().filter(|o| o.path == p) {
                o.content = Some(new.clone());
            }
            count(C::cli_edits, 1);
        }
        let group: Vec<&&Line> = invs.iter().filter(|i| i.get("group") == g).collect();
        let mut ps: Vec<Prog> = group
            .iter()
            .map(|i| start(&dir, i, &inputs, vseed ^ (i.get("env") as u64).wrapping_mul(77)))
            .collect();
        count(C::cli_runs, ps.len() as u64);
        if ps.len() > 1 {
            count(C::cli_concurrent, ps.len() as u64);
        }
        let mut cur = 0usize;
        loop {
            if !settle(&mut ps) {
                let who: Vec<i64> = ps.iter().filter(|p| !p.done).map(|p| p.inv).collect();
                for p in ps.iter_mut() {
                    if let Some(c) = &mut p.child {
                        let _ = c.kill();
                    }
                }
                done("hang", &format!("program {who:?} neither ends nor does anything"));
                return;
            }
            let ready: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].pending.is_some()).collect();
            if ready.is_empty() {
                break;
            }
            step += 1;
            if step > 2_000_000 {
                done("hang", "two million calls without an end");
                return;
            }
            let forced = pre.iter().find(|x| x.step == step).map(|x| x.to as usize);
            let pick = match forced {
                Some(k) => ready[k % ready.len()],
                None if ready.contains(&cur) => cur,
                None => ready[0],
            };
            if pick != cur {
                count(C::task_switches, 1);
                if forced.is_some() {
                    count(C::preemptions, 1);
                }
                trace = hash_bytes(trace, format!("{step} {pick}").as_bytes());
            }
            cur = pick;
            answer(&mut ps[pick], &faults, step);
        }
        for (p, inv) in ps.iter().zip(&group) {
            judge(&dir, p, inv, &inputs, &mut oracle, &done);
        }
    }
    run::sh().trace.store(trace, SeqCst);
    run::sh().sim_ns.store(step * 1000, SeqCst);
    let _ = std::fs::remove_dir_all(&dir);
}

fn judge(
    dir: &Path,
    p: &Prog,
    inv: &Line,
    inputs: &BTreeMap<i64, Input>,
    oracle: &mut BTreeMap<Vec<u8>, Outcome>,
    done: &dyn Fn(&str, &str),
) {
    let mut texts: Vec<Option<String>> = vec![];
    let mut lost = false;
    for i in 0..inv.get("n") {
        let Some(f) = inputs.get(&inv.get(&format!("a{i}"))) else { continue };
        let o = match &f.content {
            None => {
                count(C::cli_unreadable, 1);
                Outcome::Refused
            }
            Some(b) => match std::str::from_utf8(b) {
                Err(_) => {
                    count(C::io_content_nonutf8, 1);
                    Outcome::Refused
                }
                Ok(t) => oracle
                    .entry(b.clone())
                    .or_insert_with(|| gen::alone(p.inv as u64 ^ 0x5151, 4, t))
                    .clone(),
            },
        };
        texts.push(match o {
            Outcome::Text(t) => Some(t),
            Outcome::Lost => {
                lost = true;
                None
            }
            _ => None,
        });
    }
    let st = p.status.unwrap();
    let ok = st.code() == Some(0);
    event(|| {
        format!(
            "program {} ended {:?} signal {:?}, wrote {} bytes (hash {:016x}), diagnostic {}",
            p.inv,
            st.code(),
            st.signal(),
            p.stdout.len(),
            // The usage line and the like may name the program.
            hash_bytes(1, &p.stdout),
            !p.stderr.is_empty()
        )
    });
    if lost {
        return;
    }
    let args: Vec<String> = (0..inv.get("n"))
        .map(|i| inputs.get(&inv.get(&format!("a{i}"))).map(|f| if f.pipe { "a pipe".into() } else { format!("{:?}", f.arg) }).unwrap_or_default())
        .collect();
    let ctx = format!(
        "fastxdr {} (stdout: {}; faults that fired: {:?})",
        args.join(" ").replace(dir.to_str().unwrap(), "DIR"),
        inv.sub,
        p.fired
    );
    let tell = format!(
        "; stderr: {:?}",
        // Thread and process numbers differ from run to run.
        String::from_utf8_lossy(&p.stderr).replace(dir.to_str().unwrap(), "DIR").chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(300).collect::<String>()
    );
    let all_good = !texts.is_empty() && texts.iter().all(|t| t.is_some());
    let Some(got) = p.stdout.strip_prefix(&p.prior[..]) else {
        done("overwrote", &format!("{ctx}: what standard output held before is gone"));
        return;
    };
    if ok {
        count(C::cli_ok, 1);
        if !all_good {
            let why = if texts.is_empty() {
                "it was given no file".to_string()
            } else {
                format!("file {} cannot be read or is rejected by the library", texts.iter().position(|t| t.is_none()).unwrap())
            };
            done("exit-0", &format!("{ctx} exits 0 although {why}{tell}"));
            return;
        }
        let want: Vec<u8> = texts.iter().flatten().flat_map(|t| t.bytes()).collect();
        // Nothing can be seen of what goes to a full device or to nobody.
        let blind = matches!(inv.sub.as_str(), "full" | "gone");
        if blind && !want.is_empty() {
            done("lost-output", &format!("{ctx} exits 0 although nothing could be written{tell}"));
            return;
        }
        if !blind && got != want {
            let n = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            let cut = |s: &[u8]| String::from_utf8_lossy(&s[n.saturating_sub(30)..(n + 50).min(s.len())]).to_string();
            done(
                "text",
                &format!(
                    "{ctx} exits 0 having written {} bytes where the library gives {}; they differ at byte {n}: {:?} against {:?}{tell}",
                    got.len(),
                    want.len(),
                    cut(got),
                    cut(&want)
                ),
            );
            return;
        }
        count(C::cli_exact, 1);
        return;
    }
    count(C::cli_fail, 1);
    if all_good && !p.hard && !p.write_fault && !p.lenient {
        done("failed", &format!("{ctx} fails with {st} although every file can be read and is accepted{tell}"));
        return;
    }
    if p.write_fault {
        return;
    }
    // Whole texts of some of the files in their order, then perhaps a message.
    if texts.is_empty() {
        if p.stderr.is_empty() && got.is_empty() {
            done("silent", &format!("{ctx} fails with {st} without saying anything"));
        }
        return;
    }
    let mut rest = got;
    for t in texts.iter().flatten() {
        if let Some(r) = rest.strip_prefix(t.as_bytes()) {
            rest = r;
        }
    }
    if p.stderr.is_empty() && rest.is_empty() {
        done("silent", &format!("{ctx} fails with {st} without saying anything"));
        return;
    }
    let torn = texts.iter().flatten().any(|t| rest.len() >= 64 && t.as_bytes().starts_with(&rest[..64]));
    if torn {
        done("torn", &format!("{ctx} fails with {st}, leaving part of a text on standard output{tell}"));
    }
}

// ---- plans --------------------------------------------------------------------

pub fn plan(seed: u64, i: u64) -> Plan {
    let mut r = Rng::stream(seed, &[0xc15, i]);
    let mut p = Plan::default();
    p.push("run", "cli", &[("vseed", seed as i64)]);
    let nf = r.range(1, 4);
    // Most runs have only good files, so that whole argument lists work.
    let mood = r.below(5);
    for id in 0..nf {
        let kind = if id > 0 && r.chance(1, 6) {
            "same"
        } else if mood < 3 || r.chance(1, 2) {
            *r.pick(&["valid", "valid", "valid", "long", "empty", "blank"])
        } else {
            *r.pick(&[
                "valid", "broken", "torn", "nonutf8", "bom", "nul", "missing", "dir", "dangling", "loop", "nothing",
            ])
        };
        p.push(
            "file",
            kind,
            &[
                ("id", id),
                ("spec", r.range(0, 400)),
                ("shape", *r.pick(&[0, 1, 2, 3, 4, 4, 5, 5, 6, 7])),
                ("seed", (r.next() >> 8) as i64),
                ("name", r.range(0, NAMES.len() as i64 - 1)),
                ("how", r.range(0, 6)),
                ("of", r.range(0, 3)),
            ],
        );
    }
    let n = 1 + if r.chance(1, 2) { r.range(0, 3) } else { 0 };
    let mut group = 0;
    for id in 0..n {
        if r.chance(2, 3) {
            group += 1;
            if id > 0 {
                for f in 0..nf {
                    if r.chance(1, 3) {
                        p.push(
                            "edit",
                            *r.pick(&["valid", "valid", "valid", "torn", "empty", "nonutf8"]),
                            &[
                                ("file", f),
                                ("group", group),
                                ("spec", r.range(0, 400)),
                                ("shape", *r.pick(&[0, 1, 4, 5])),
                                ("seed", (r.next() >> 8) as i64),
                            ],
                        );
                    }
                }
            }
        }
        let na = *r.pick(&[0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 3, 5]);
        let mut a: Vec<(String, i64)> = vec![
            ("id".into(), id),
            ("group".into(), group),
            ("env".into(), (r.next() >> 8) as i64),
            ("arg0".into(), r.chance(1, 40) as i64),
            ("clean".into(), r.chance(1, 8) as i64),
            ("n".into(), na),
            ("in".into(), *r.pick(&[0, 0, 0, 1, 2])),
            ("tty".into(), *r.pick(&[0, 0, 7, 2, 5])),
            ("vars".into(), if r.chance(1, 2) { 0 } else { (r.next() >> 24) as i64 }),
            ("sched".into(), if r.chance(1, 5) { 0 } else { (r.next() >> 24) as i64 }),
        ];
        for k in 0..na {
            a.push((format!("a{k}"), r.range(0, nf - 1)));
        }
        let out = *r.pick(&["pipe", "pipe", "pipe", "pipe", "file", "file", "file", "append", "append", "append", "full", "gone"]);
        let a: Vec<(&str, i64)> = a.iter().map(|(k, v)| (k.as_str(), *v)).collect();
        p.push("inv", out, &a);
        for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 6]) {
            let kind = *r.pick(&["open", "read", "read", "read", "write", "write", "write", "stat", "seek", "other"]);
            let top = *r.pick(&[1, 2, 4, 12]);
            let nth = r.range(1, top);
            let len = *r.pick(&[1, 3, 40, 1024, 5000]);
            let mut a = vec![("inv", id), ("nth", nth)];
            match kind {
                "open" => a.push(("errno", *r.pick(&[2, 13, 24, 23, 5, 40, 4, 12, 20]))),
                "read" => match r.below(4) {
                    0 => a.push(("errno", *r.pick(&[5, 116, 21, 4, 4]))),
                    _ => a.push(("short", r.range(1, len))),
                },
                "write" => match r.below(3) {
                    0 => a.push(("errno", *r.pick(&[28, 32, 5, 122, 27, 4, 4]))),
                    _ => a.push(("short", r.range(1, len))),
                },
                "stat" => match r.below(3) {
                    0 => a.push(("errno", *r.pick(&[5, 116, 75, 13]))),
                    _ => a.push(("size", *r.pick(&[0, 1, 1, 17, 4096]))),
                },
                _ => a.push(("errno", *r.pick(&[5, 29, 2]))),
            }
            p.push("fault", kind, &a);
        }
    }
    for _ in 0..r.below(20) {
        p.push("pre", "-", &[("step", r.range(1, 60)), ("to", r.range(0, 3))]);
    }
    p
}
