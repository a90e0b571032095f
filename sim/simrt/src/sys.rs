//! The seams: allocator, futex, entropy, clock and process id. Inside a
//! simulated task's code under test they are answered by the simulator; outside
//! they pass through to the kernel.

use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

#[inline]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub const SYS_FUTEX: i64 = 202;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_GETPID: i64 = 39;

extern "C" {
    fn __errno_location() -> *mut i32;
    pub fn fork() -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn kill(pid: i32, s: i32) -> i32;
    pub fn munmap(a: *mut u8, l: usize) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn open(p: *const i8, f: i32, ...) -> i32;
    fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
}

thread_local! {
    /// Nesting depth of code under test on this thread.
    static SUT: Cell<u32> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    /// The task this thread runs, 0 when it is not a simulated task.
    pub static TASK: Cell<u32> = const { Cell::new(0) };
    /// Branches of instrumented code until this task is switched out.
    pub static FINE: Cell<u64> = const { Cell::new(0) };
}

/// A single request above this is refused, and so is what brings one call's
/// requests above twice this, as on a host with that much memory.
pub static HARD_CAP: AtomicU64 = AtomicU64::new(512 << 20);
/// Simulated environment, set per run.
pub static ENTROPY: AtomicU64 = AtomicU64::new(1);
pub static CLOCK_NS: AtomicI64 = AtomicI64::new(0);
pub static PID: AtomicI64 = AtomicI64::new(0);
pub static ENV_ON: AtomicBool = AtomicBool::new(false);
/// When non-zero, allocations get this many bytes of seeded extra, so that
/// addresses differ between runs.
pub static HEAP_SKEW: AtomicU64 = AtomicU64::new(0);
pub static CPUS: AtomicU64 = AtomicU64::new(0);
/// Decides which variables that nobody set are there all the same.
pub static VARS: AtomicU64 = AtomicU64::new(0);
pub static SEAM_HITS: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];

pub fn in_sut() -> bool {
    SUT.with(|s| s.get() > 0)
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Meter {
    pub bytes: u64,
    pub biggest: u64,
    pub calls: u64,
}

/// Runs `f` as code under test, metering what this thread requests.
pub fn sut<R>(f: impl FnOnce() -> R) -> (R, Meter) {
    BYTES.with(|c| c.set(0));
    BIGGEST.with(|c| c.set(0));
    CALLS.with(|c| c.set(0));
    struct Guard(u32);
    impl Drop for Guard {
        fn drop(&mut self) {
            SUT.with(|s| s.set(self.0));
        }
    }
    let g = Guard(SUT.with(|s| s.replace(1)));
    let r = f();
    drop(g);
    let m = Meter {
        bytes: BYTES.with(|c| c.get()),
        biggest: BIGGEST.with(|c| c.get()),
        calls: CALLS.with(|c| c.get()),
    };
    (r, m)
}

/// Suspends metering (used by panic hooks and by the simulator itself).
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let old = SUT.with(|s| s.replace(0));
    let r = f();
    SUT.with(|s| s.set(old));
    r
}

pub struct SimAlloc;

impl SimAlloc {
    fn note(&self, size: usize) -> bool {
        let on = SUT.with(|s| s.get()) > 0;
        if on {
            BYTES.with(|c| c.set(c.get() + size as u64));
            BIGGEST.with(|c| c.set(c.get().max(size as u64)));
            CALLS.with(|c| c.set(c.get() + 1));
            let cap = HARD_CAP.load(SeqCst);
            if size as u64 > cap || BYTES.with(|c| c.get()) > 2 * cap {
                crate::run::note_oom(size as u64);
                return false;
            }
            crate::sched::yield_point();
        }
        true
    }
}

fn skew() -> usize {
    let s = HEAP_SKEW.load(SeqCst);
    if s == 0 {
        return 0;
    }
    let n = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    HEAP_SKEW.store(n | 1, SeqCst);
    ((n >> 40) % 9) as usize * 48
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !self.note(l.size()) {
            return std::ptr::null_mut();
        }
        let k = if in_sut() { skew() } else { 0 };
        if k > 0 && l.size() > 0 {
            // Leak a gap in front: moves what follows.
            let _ = System.alloc(Layout::from_size_align_unchecked(k, 16));
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !self.note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_sut() {
            crate::sched::yield_point();
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !self.note(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: SimAlloc = SimAlloc;

fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { *__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}

/// libc's `syscall(2)` wrapper: std's Mutex, Once, Condvar... block through it.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if TASK.with(|t| t.get()) > 0 && in_sut() {
        match n {
            SYS_FUTEX => {
                SEAM_HITS[0].fetch_add(1, SeqCst);
                let op = b & 0x7f;
                if op == 0 || op == 9 {
                    // WAIT: other tasks run.
                    let cur = *(a as *const u32);
                    if cur != c as u32 {
                        return ret(-11);
                    }
                    return match crate::sched::futex_wait(a as usize, d != 0) {
                        Ok(()) => 0,
                        Err(true) => ret(-110),
                        Err(false) => crate::run::deadlock(),
                    };
                }
                return crate::sched::futex_wake(a as usize, c);
            }
            SYS_GETRANDOM => return getrandom(a as *mut u8, b as usize, c as u32) as i64,
            _ => {}
        }
    }
    if n == SYS_FUTEX && matches!(b & 0x7f, 1 | 10) {
        // A task may wait for what the simulator's own code releases.
        crate::sched::futex_wake(a as usize, c);
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

// Threads the code under test starts are tasks.

type Body = extern "C" fn(*mut u8) -> *mut u8;
struct Start {
    me: u32,
    f: Body,
    arg: *mut u8,
}

/// The next definition of a library function after the one in this program.
unsafe fn real(name: &std::ffi::CStr) -> *mut u8 {
    dlsym(-1isize as *mut u8, name.as_ptr())
}

extern "C" fn born(p: *mut u8) -> *mut u8 {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let mut r = std::ptr::null_mut();
    crate::sched::live(s.me, || {
        crate::glue::guard(true);
        SUT.with(|c| c.set(1));
        r = (s.f)(s.arg);
        SUT.with(|c| c.set(0));
    });
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, attr: *const u8, f: Body, arg: *mut u8) -> i32 {
    let go: extern "C" fn(*mut u64, *const u8, Body, *mut u8) -> i32 = std::mem::transmute(real(c"pthread_create"));
    if !crate::sched::adopting() {
        return go(t, attr, f, arg);
    }
    let Some(me) = crate::sched::admit() else {
        // Too many, as a host may have it.
        return 11;
    };
    let p = host(|| Box::into_raw(Box::new(Start { me, f, arg })));
    let r = go(t, attr, born, p as *mut u8);
    crate::sched::started(me, if r == 0 { Some(*t) } else { None });
    if r == 0 {
        crate::sched::yield_point();
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, out: *mut *mut u8) -> i32 {
    let go: extern "C" fn(u64, *mut *mut u8) -> i32 = std::mem::transmute(real(c"pthread_join"));
    if crate::sched::adopting() && !crate::sched::join(t) {
        crate::run::deadlock();
    }
    go(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: u64) -> i32 {
    let go: extern "C" fn(u64) -> i32 = std::mem::transmute(real(c"pthread_detach"));
    if crate::sched::adopting() {
        crate::sched::detach(t);
    }
    go(t)
}

/// Does nothing for ever.
pub fn rest() -> ! {
    loop {
        unsafe { raw_syscall(34, 0, 0, 0, 0, 0, 0) };
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::sched::adopting() {
        crate::sched::give_way();
        return 0;
    }
    raw_syscall(24, 0, 0, 0, 0, 0, 0) as i32
}

/// Sleeping takes simulated time.
unsafe fn sleep(t: *const [i64; 2]) -> bool {
    if !crate::sched::adopting() {
        return false;
    }
    CLOCK_NS.fetch_add((*t)[0].saturating_mul(1_000_000_000).saturating_add((*t)[1]), SeqCst);
    crate::sched::give_way();
    true
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sleep(t) {
        return 0;
    }
    ret(raw_syscall(35, t as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, t: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if fl == 0 && sleep(t) {
        return 0;
    }
    if fl != 0 && crate::sched::adopting() {
        let until = (*t)[0].saturating_mul(1_000_000_000).saturating_add((*t)[1]);
        CLOCK_NS.fetch_max(until, SeqCst);
        crate::sched::give_way();
        return 0;
    }
    -raw_syscall(230, id as i64, fl as i64, t as i64, rem as i64, 0, 0) as i32
}

/// Processors of the simulated host.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, m: *mut u8) -> i32 {
    let c = CPUS.load(SeqCst) as usize;
    if c > 0 && ENV_ON.load(SeqCst) && in_sut() && n >= 8 {
        SEAM_HITS[4].fetch_add(1, SeqCst);
        std::ptr::write_bytes(m, 0, n);
        for i in 0..c.min(64) {
            *m.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw_syscall(204, pid as i64, n as i64, m as i64, 0, 0, 0);
    if r > 0 {
        std::ptr::write_bytes(m.add(r as usize), 0, n - r as usize);
        return 0;
    }
    ret(r) as i32
}

extern "C" {
    static environ: *const *const u8;
}

unsafe fn at(p: *const u8, i: usize) -> u8 {
    *p.add(i)
}

/// Values of variables that only the simulator set.
const VALUES: [&[u8; 8]; 6] =
    [b"1\0\0\0\0\0\0\0", b"0\0\0\0\0\0\0\0", b"\0\0\0\0\0\0\0\0", b"true\0\0\0\0", b"/tmp/x\0\0", b"full,x\0\0"];

/// A variable asked for by the code under test may be set to anything.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    let mut h = 0xcbf29ce484222325u64;
    while at(name, n) != 0 {
        h = (h ^ at(name, n) as u64).wrapping_mul(0x100000001b3);
        n += 1;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e;
        if (0..n).all(|i| at(v, i) == at(name, i)) && at(v, n) == b'=' {
            return v.add(n + 1);
        }
        e = e.add(1);
    }
    // The standard library's own stay as they are.
    let own = n > 4 && (0..5).all(|i| at(name, i) == b"RUST_"[i]);
    if !own && ENV_ON.load(SeqCst) && in_sut() {
        SEAM_HITS[5].fetch_add(1, SeqCst);
        let mut z = h ^ VARS.load(SeqCst);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        if z % 2 == 0 {
            return VALUES[(z >> 8) as usize % VALUES.len()].as_ptr();
        }
    }
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if ENV_ON.load(SeqCst) {
        SEAM_HITS[1].fetch_add(1, SeqCst);
        let mut x = ENTROPY.load(SeqCst);
        for i in 0..n {
            if i % 8 == 0 {
                x = x.wrapping_add(0x9e3779b97f4a7c15);
            }
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^= z >> 31;
            *p.add(i) = (z >> (8 * (i % 8))) as u8;
        }
        ENTROPY.store(x, SeqCst);
        return n as isize;
    }
    ret(raw_syscall(SYS_GETRANDOM, p as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if ENV_ON.load(SeqCst) && in_sut() {
        SEAM_HITS[2].fetch_add(1, SeqCst);
        let t = CLOCK_NS.fetch_add(1_000, SeqCst);
        (*ts)[0] = t.div_euclid(1_000_000_000);
        (*ts)[1] = t.rem_euclid(1_000_000_000);
        return 0;
    }
    ret(raw_syscall(SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if ENV_ON.load(SeqCst) && in_sut() {
        SEAM_HITS[3].fetch_add(1, SeqCst);
        return PID.load(SeqCst) as i32;
    }
    raw_syscall(SYS_GETPID, 0, 0, 0, 0, 0, 0) as i32
}

// ---- instrumented code --------------------------------------------------------

/// Branches known, numbered from 1 as their modules are loaded.
pub static BRANCHES: AtomicU64 = AtomicU64::new(0);
/// One byte per branch, shared by all runs of a search.
pub static REACHED: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub const MAX_BRANCHES: usize = 1 << 22;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            let n = BRANCHES.fetch_add(1, SeqCst) + 1;
            *p = (n as usize).min(MAX_BRANCHES - 1) as u32;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if SUT.with(|s| s.get()) == 0 {
        return;
    }
    let m = REACHED.load(std::sync::atomic::Ordering::Relaxed);
    if !m.is_null() {
        // Read first: writes would fight over the cache line.
        let b = m.add(*guard as usize);
        if *b == 0 {
            *b = 1;
        }
    }
    FINE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
            if n == 1 {
                crate::sched::at_branch();
            }
        }
    })
}

/// How many branches some run has reached so far.
pub fn reached() -> u64 {
    let m = REACHED.load(SeqCst);
    if m.is_null() {
        return 0;
    }
    let n = (BRANCHES.load(SeqCst) as usize).min(MAX_BRANCHES - 1);
    (1..=n).filter(|i| unsafe { *m.add(*i) != 0 }).count() as u64
}
