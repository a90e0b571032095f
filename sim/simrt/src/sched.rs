//! Real threads, one at a time: exactly one task holds the baton, and who gets
//! it next is decided by the plan. Tasks can be preempted at every allocator
//! call made by the code under test and at every operation boundary. Threads the
//! code under test starts become tasks of their own.

use crate::plan::Pre;
use crate::sys::{raw_syscall, FINE, SYS_FUTEX, TASK};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

/// Tasks at the same time, those of started threads included.
pub const MAX_TASKS: usize = 62;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Blocked,
    Done,
}

pub struct Sched {
    pub n: usize,
    pub st: [St; MAX_TASKS + 1],
    pub step: u64,
    /// Forced switches, ascending by step.
    pub pre: Vec<Pre>,
    pub next: usize,
    pub switches: u64,
    pub forced: u64,
    pub forced_in_sut: u64,
    pub forced_at_branch: u64,
    fine_to: u32,
    pub trace: u64,
    futex_spins: u64,
    /// Tasks of the simulator; the others belong to the code under test.
    own: usize,
    /// What a blocked task waits for.
    wait: [Wait; MAX_TASKS + 1],
    threads: [Thread; MAX_TASKS + 1],
    pub adopted: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wait {
    Nothing,
    Futex { addr: usize, timed: bool },
    TimedOut,
    Thread(u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Thread {
    id: u64,
    /// Nobody will ask for this task again.
    free: bool,
}

struct G(UnsafeCell<Option<Sched>>);
unsafe impl Sync for G {}
static S: G = G(UnsafeCell::new(None));
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CUR: AtomicU32 = AtomicU32::new(0);
static BORN: AtomicU32 = AtomicU32::new(0);

/// Only the baton holder may call this.
pub fn s() -> &'static mut Sched {
    unsafe { (*S.0.get()).as_mut().expect("no scheduler") }
}

fn wait_turn(me: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me {
            return;
        }
        unsafe {
            raw_syscall(SYS_FUTEX, CUR.as_ptr() as i64, 128, c as i64, 0, 0, 0);
        }
    }
}

fn pass(to: u32) {
    CUR.store(to, SeqCst);
    unsafe {
        raw_syscall(SYS_FUTEX, CUR.as_ptr() as i64, 129, i32::MAX as i64, 0, 0, 0);
    }
}

/// The next ready task after `me`, cyclically; `me` itself last.
fn next_ready(me: u32) -> Option<u32> {
    let sc = s();
    for k in 1..=sc.n as u32 {
        let t = (me - 1 + k) % sc.n as u32 + 1;
        if sc.st[t as usize] == St::Ready {
            return Some(t);
        }
    }
    None
}

fn mix(x: u64) {
    let sc = s();
    sc.trace = (sc.trace ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
}

fn switch(me: u32, to: u32) {
    if to == me {
        return;
    }
    let sc = s();
    sc.switches += 1;
    mix((to as u64) << 32 | sc.step);
    pass(to);
    wait_turn(me);
}

/// A point where the simulator may hand the baton to another task.
#[inline]
pub fn yield_point() {
    if !ACTIVE.load(SeqCst) {
        return;
    }
    let me = TASK.with(|t| t.get());
    if me == 0 {
        return;
    }
    let sc = s();
    sc.step += 1;
    while sc.next < sc.pre.len() && sc.pre[sc.next].step < sc.step {
        sc.next += 1;
    }
    if sc.next < sc.pre.len() && sc.pre[sc.next].step == sc.step {
        let p = sc.pre[sc.next];
        sc.next += 1;
        if p.edge > 0 {
            sc.fine_to = p.to;
            FINE.with(|f| f.set(p.edge));
        } else {
            force(me, p.to);
        }
    }
}

/// Switches to the nth other ready task.
fn force(me: u32, want: u32) {
    let sc = s();
    let ready: u64 = (1..=sc.n)
        .filter(|t| *t as u32 != me && sc.st[*t] == St::Ready)
        .fold(0, |m, t| m | 1 << t);
    let k = ready.count_ones();
    if k == 0 {
        return;
    }
    let mut left = want % k;
    for t in 1..=sc.n {
        if ready >> t & 1 == 1 {
            if left == 0 {
                sc.forced += 1;
                if crate::sys::in_sut() {
                    sc.forced_in_sut += 1;
                }
                switch(me, t as u32);
                return;
            }
            left -= 1;
        }
    }
}

/// The branch of instrumented code a plan named.
#[cold]
pub fn at_branch() {
    if !ACTIVE.load(SeqCst) {
        return;
    }
    let me = TASK.with(|t| t.get());
    if me != 0 {
        let sc = s();
        let was = sc.forced;
        mix(0x6272 ^ sc.step << 16);
        let to = sc.fine_to;
        force(me, to);
        let sc = s();
        sc.forced_at_branch += (sc.forced > was) as u64;
    }
}

/// Whoever can go on when nobody is ready: a wait that may time out first, then
/// one that wakes up for no reason, as the kernel allows.
fn unstick(me: u32) -> Option<u32> {
    let sc = s();
    sc.futex_spins += 1;
    if sc.futex_spins > 20_000 {
        return None;
    }
    let n = sc.n as u32;
    let from = if sc.futex_spins % 2 == 0 { me } else { (sc.futex_spins % n as u64) as u32 + 1 };
    let order = (0..n).map(|k| (from - 1 + k) % n + 1);
    for want in [true, false] {
        for t in order.clone() {
            if let (St::Blocked, Wait::Futex { timed, .. }) = (sc.st[t as usize], sc.wait[t as usize]) {
                if timed == want {
                    if timed {
                        crate::sys::CLOCK_NS.fetch_add(1_000_000_000, SeqCst);
                    }
                    sc.wait[t as usize] = if timed { Wait::TimedOut } else { Wait::Nothing };
                    sc.st[t as usize] = St::Ready;
                    return Some(t);
                }
            }
        }
    }
    None
}

/// Gives the baton away until somebody makes `me` ready. False when that will
/// never happen.
fn stand_by(me: u32) -> bool {
    let sc = s();
    sc.step += 1;
    let all_done = (1..=sc.own).all(|t| sc.st[t] == St::Done);
    match next_ready(me).or_else(|| if all_done { None } else { unstick(me) }) {
        Some(t) => {
            switch(me, t);
            true
        }
        None if all_done => {
            // An idle thread of the code under test outlives the run.
            sc.st[me as usize] = St::Done;
            pass(u32::MAX);
            crate::sys::rest();
        }
        None => false,
    }
}

/// Waits on a futex inside the code under test: Ok when woken, Err(true) when
/// the time is up, Err(false) when nothing can ever happen again.
pub fn futex_wait(addr: usize, timed: bool) -> Result<(), bool> {
    let me = TASK.with(|t| t.get());
    let sc = s();
    sc.st[me as usize] = St::Blocked;
    sc.wait[me as usize] = Wait::Futex { addr, timed };
    let ok = stand_by(me);
    let sc = s();
    sc.st[me as usize] = St::Ready;
    match std::mem::replace(&mut sc.wait[me as usize], Wait::Nothing) {
        Wait::TimedOut => Err(true),
        _ if ok => Ok(()),
        _ => Err(false),
    }
}

/// Makes up to `n` tasks that wait on this futex ready again.
pub fn futex_wake(addr: usize, n: i64) -> i64 {
    if !ACTIVE.load(SeqCst) || TASK.with(|t| t.get()) == 0 {
        return 0;
    }
    let sc = s();
    let mut k = 0;
    for t in 1..=sc.n {
        if k >= n {
            break;
        }
        if matches!(sc.wait[t], Wait::Futex { addr: a, .. } if a == addr) {
            sc.wait[t] = Wait::Nothing;
            sc.st[t] = St::Ready;
            k += 1;
        }
    }
    k
}

// ---- threads of the code under test --------------------------------------------

/// Whether what the calling thread starts is to become a task.
pub fn adopting() -> bool {
    ACTIVE.load(SeqCst) && TASK.with(|t| t.get()) > 0 && crate::sys::in_sut()
}

/// A number for a thread about to start, None when there are too many.
pub fn admit() -> Option<u32> {
    let sc = s();
    let t = match (sc.own + 1..=sc.n).find(|t| sc.st[*t] == St::Done && sc.threads[*t].free) {
        Some(t) => t,
        None if sc.n < MAX_TASKS => {
            sc.n += 1;
            sc.n
        }
        None => return None,
    };
    sc.st[t] = St::Ready;
    sc.wait[t] = Wait::Nothing;
    sc.threads[t] = Thread { id: 0, free: false };
    sc.adopted += 1;
    mix(0x7468 ^ (t as u64) << 32);
    Some(t as u32)
}

pub fn started(t: u32, id: Option<u64>) {
    let sc = s();
    match id {
        Some(id) => sc.threads[t as usize].id = id,
        None => {
            sc.st[t as usize] = St::Done;
            sc.threads[t as usize].free = true;
        }
    }
}

/// Runs a started thread's body as task `me`.
pub fn live(me: u32, f: impl FnOnce()) {
    TASK.with(|t| t.set(me));
    wait_turn(me);
    f();
    FINE.with(|f| f.set(0));
    TASK.with(|t| t.set(0));
    leave(me);
}

fn numbered(id: u64) -> Option<u32> {
    let sc = s();
    (sc.own + 1..=sc.n).find(|t| sc.threads[*t].id == id && !sc.threads[*t].free).map(|t| t as u32)
}

/// Waits for the end of a thread that is a task. False when that never comes.
pub fn join(id: u64) -> bool {
    let Some(t) = numbered(id) else { return true };
    let me = TASK.with(|t| t.get());
    while s().st[t as usize] != St::Done {
        let sc = s();
        sc.st[me as usize] = St::Blocked;
        sc.wait[me as usize] = Wait::Thread(t);
        let ok = stand_by(me);
        let sc = s();
        sc.st[me as usize] = St::Ready;
        sc.wait[me as usize] = Wait::Nothing;
        if !ok {
            return false;
        }
    }
    s().threads[t as usize].free = true;
    true
}

pub fn detach(id: u64) {
    if let Some(t) = numbered(id) {
        s().threads[t as usize].free = true;
    }
}

/// The end of task `me`: somebody else goes on.
fn leave(me: u32) {
    let sc = s();
    sc.st[me as usize] = St::Done;
    for t in 1..=sc.n {
        if sc.wait[t] == Wait::Thread(me) {
            sc.wait[t] = Wait::Nothing;
            sc.st[t] = St::Ready;
        }
    }
    let busy = (1..=sc.own).any(|t| sc.st[t] != St::Done);
    match next_ready(me).or_else(|| if busy { unstick(me) } else { None }) {
        Some(t) => {
            mix((t as u64) << 40 | 7);
            pass(t)
        }
        None => {
            // Whoever is left is blocked for good: let them see it.
            match (1..=sc.own).find(|t| sc.st[*t] == St::Blocked) {
                Some(t) => pass(t as u32),
                None => pass(u32::MAX),
            }
        }
    }
}

/// Blocks until `ready()` holds; false when every task is blocked.
pub fn block_until(mut ready: impl FnMut() -> bool) -> bool {
    let me = TASK.with(|t| t.get());
    loop {
        if ready() {
            s().st[me as usize] = St::Ready;
            return true;
        }
        s().st[me as usize] = St::Blocked;
        match next_ready(me).or_else(|| unstick(me)) {
            Some(t) if t != me => switch(me, t),
            _ => {
                s().st[me as usize] = St::Ready;
                return false;
            }
        }
    }
}

/// Lets every other ready task run before coming back.
pub fn give_way() {
    let me = TASK.with(|t| t.get());
    s().step += 1;
    match next_ready(me) {
        Some(t) if t != me => switch(me, t),
        _ => {
            if let Some(t) = unstick(me) {
                switch(me, t);
            }
        }
    }
}

/// Whether every other task waits for the simulator or is done, and nothing the
/// code under test started is under way.
pub fn others_blocked() -> bool {
    let me = TASK.with(|t| t.get());
    let sc = s();
    (1..=sc.n).all(|t| t as u32 == me || sc.st[t] != St::Ready)
        && (1..=sc.own).all(|t| sc.wait[t] == Wait::Nothing)
}

pub fn wake_all() {
    let sc = s();
    for t in 1..=sc.own {
        if sc.st[t] == St::Blocked && sc.wait[t] == Wait::Nothing {
            sc.st[t] = St::Ready;
        }
    }
}

/// Runs the tasks to completion under the given preemptions. Task i is numbered
/// i + 1.
pub fn run(tasks: Vec<(usize, Box<dyn FnOnce() + Send>)>, pre: Vec<Pre>) -> &'static Sched {
    let n = tasks.len();
    assert!(n <= MAX_TASKS && n > 0);
    unsafe {
        *S.0.get() = Some(Sched {
            n,
            st: [St::Ready; MAX_TASKS + 1],
            step: 0,
            pre,
            next: 0,
            switches: 0,
            forced: 0,
            forced_in_sut: 0,
            forced_at_branch: 0,
            fine_to: 0,
            trace: 0xcbf29ce484222325,
            futex_spins: 0,
            own: n,
            wait: [Wait::Nothing; MAX_TASKS + 1],
            threads: [Thread { id: 0, free: true }; MAX_TASKS + 1],
            adopted: 0,
        });
    }
    CUR.store(0, SeqCst);
    BORN.store(0, SeqCst);
    let mut hs = Vec::new();
    for (i, (stack, f)) in tasks.into_iter().enumerate() {
        let me = i as u32 + 1;
        hs.push(
            std::thread::Builder::new()
                .stack_size(stack)
                .name(format!("task{me}"))
                .spawn(move || {
                    TASK.with(|t| t.set(me));
                    BORN.store(me, SeqCst);
                    wait_turn(me);
                    f();
                    TASK.with(|t| t.set(0));
                    leave(me);
                })
                .expect("spawn"),
        );
        // One thread starts at a time, so that start-up is repeatable too.
        while BORN.load(SeqCst) != me {
            std::thread::yield_now();
        }
    }
    ACTIVE.store(true, SeqCst);
    pass(1);
    for h in hs {
        let _ = h.join();
    }
    // Threads left behind run until they end or wait for good.
    wait_turn(u32::MAX);
    ACTIVE.store(false, SeqCst);
    s()
}
