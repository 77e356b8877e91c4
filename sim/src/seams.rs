//! Every source of nondeterminism and every fault point sits behind a seam in
//! this file:
//!
//! * memory        - the global allocator: k-th allocation of a call fails,
//!                   fresh memory is poisoned, blocks are shifted, live bytes
//!                   are counted
//! * scheduling    - SanitizerCoverage callbacks at every basic block of the
//!                   library and at every access to a writable static; real
//!                   threads hold a baton, only the plan decides who runs
//! * blocking      - futex calls made inside the library
//! * randomness    - getrandom
//! * time          - clock_gettime, nanosleep, sched_yield
//! * environment   - getenv

use crate::engine;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

// ---------------------------------------------------------------- per thread

/// inside a call into the library
#[thread_local]
pub static INLIB: Cell<bool> = Cell::new(false);
/// allocations are attributed to the workload (not to the harness)
#[thread_local]
pub static TRACK: Cell<bool> = Cell::new(false);
/// allocations made by the library on this thread since the last reset
#[thread_local]
pub static ALLOCS: Cell<u64> = Cell::new(0);
/// bytes asked for by the library on this thread, freed or not
#[thread_local]
pub static ALLOC_BYTES: Cell<u64> = Cell::new(0);
/// live bytes of the whole process at which the run is given up
pub static MEM_LIMIT: AtomicI64 = AtomicI64::new(3 << 30);
/// which of them fails (0: none)
#[thread_local]
pub static FAIL_AT: Cell<u64> = Cell::new(0);
#[thread_local]
pub static FIRED: Cell<bool> = Cell::new(false);
/// the size of the allocation that was refused
#[thread_local]
pub static FIRED_SIZE: Cell<usize> = Cell::new(0);
/// steps (basic blocks and static accesses) executed by the library
#[thread_local]
pub static STEPS: Cell<u64> = Cell::new(0);
#[thread_local]
static CHECK_AT: Cell<u64> = Cell::new(u64::MAX);
/// step count at which the run is given up as endless
#[thread_local]
static LIMIT: Cell<u64> = Cell::new(u64::MAX);
#[thread_local]
static ME: Cell<usize> = Cell::new(usize::MAX);

// ------------------------------------------------------------------- globals

pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
static POISON: AtomicU8 = AtomicU8::new(0);
static PAD_SEED: AtomicU64 = AtomicU64::new(0);
static HASH_SEED: AtomicU64 = AtomicU64::new(7);
static CLOCK_BASE: AtomicI64 = AtomicI64::new(1_700_000_000);
static CLOCK_STEP: AtomicI64 = AtomicI64::new(1000);
static GETENV_VALUE: AtomicU32 = AtomicU32::new(0);
/// environment seams touched from inside the library (probes, not faults)
pub static SEAM_HITS: AtomicU64 = AtomicU64::new(0);
/// accesses of the library to writable statics
pub static STATIC_HITS: AtomicU64 = AtomicU64::new(0);
static NEED_STATIC_POS: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy)]
pub struct Env {
    pub poison: u8,
    pub pad: u64,
    pub hash: u64,
    pub clock: i64,
    pub clock_step: i64,
    pub getenv: u32,
}

pub fn set_env(e: Env) {
    POISON.store(e.poison, Relaxed);
    PAD_SEED.store(e.pad, Relaxed);
    HASH_SEED.store(e.hash, Relaxed);
    CLOCK_BASE.store(e.clock, Relaxed);
    CLOCK_STEP.store(e.clock_step, Relaxed);
    GETENV_VALUE.store(e.getenv, Relaxed);
}

// ----------------------------------------------------------------- allocator

pub struct Alloc;

#[repr(C)]
struct Hdr {
    size: u64,
    off: u32,
    tracked: u32,
}
const H: usize = 16;

#[global_allocator]
static GLOBAL: Alloc = Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if INLIB.get() {
            let n = ALLOCS.get() + 1;
            ALLOCS.set(n);
            ALLOC_BYTES.set(ALLOC_BYTES.get() + l.size() as u64);
            if n == FAIL_AT.get() {
                FIRED.set(true);
                FIRED_SIZE.set(l.size());
                FAIL_AT.set(0);
                return std::ptr::null_mut();
            }
            if l.size() > 3 << 30 {
                engine::violation("memory", "the library asked for more memory than any text of this size can need");
            }
        }
        let align = l.align().max(H);
        let mut off = align;
        let seed = PAD_SEED.load(Relaxed);
        if seed != 0 && INLIB.get() {
            let s = crate::rng::mix(seed);
            PAD_SEED.store(s | 1, Relaxed);
            off += align * (s as usize % 9);
        }
        let Some(total) = l.size().checked_add(off) else {
            return std::ptr::null_mut();
        };
        let Ok(full) = Layout::from_size_align(total, align) else {
            return std::ptr::null_mut();
        };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let tracked = TRACK.get();
        *(p.sub(H) as *mut Hdr) = Hdr {
            size: l.size() as u64,
            off: off as u32,
            tracked: tracked as u32,
        };
        if tracked {
            let b = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            if b > MEM_LIMIT.load(Relaxed) {
                engine::violation("memory", "the library holds more memory than any text of this size can need");
            }
            if b > PEAK_BYTES.load(Relaxed) {
                PEAK_BYTES.store(b, Relaxed);
            }
        }
        let poison = POISON.load(Relaxed);
        if poison != 0 && INLIB.get() {
            std::ptr::write_bytes(p, poison, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = &*(p.sub(H) as *const Hdr);
        if h.tracked != 0 {
            LIVE_BYTES.fetch_sub(h.size as i64, Relaxed);
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
        }
        let align = l.align().max(H);
        let off = h.off as usize;
        let total = h.size as usize + off;
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(total, align));
    }
}

/// payload of every unwinding the simulator injects
pub struct Injected(pub &'static str);

pub fn install_hooks() {
    std::alloc::set_alloc_error_hook(|_| {
        // real out-of-memory must not be mistaken for an injected fault
        if FIRED.get() {
            std::panic::resume_unwind(Box::new(Injected("alloc")));
        }
        engine::harness_error("the sandbox ran out of memory");
    });
    std::panic::set_hook(Box::new(|info| {
        let (i, t) = (INLIB.replace(false), TRACK.replace(false));
        let m = info.to_string().replace('\n', " ");
        // sources of the library have absolute paths, those of the simulator
        // do not
        let file = info.location().map(|l| l.file()).unwrap_or("");
        let ours = !file.starts_with('/') || file.starts_with("/rustc/") || file.contains("/rustlib/");
        *PANICKED.lock().unwrap_or_else(|e| e.into_inner()) = (!ours).then(|| m.clone());
        LAST_PANIC.with(|c| *c.borrow_mut() = m);
        INLIB.set(i);
        TRACK.set(t);
    }));
}

/// the last panic of the process, when it started in the library
pub static PANICKED: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// run harness code (no faults, no steps, no attribution)
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let (i, t) = (INLIB.replace(false), TRACK.replace(false));
    struct Restore(bool, bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            INLIB.set(self.0);
            TRACK.set(self.1);
        }
    }
    let _r = Restore(i, t);
    f()
}

/// run workload code whose memory is attributed to the workload
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let t = TRACK.replace(true);
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            TRACK.set(self.0);
        }
    }
    let _r = Restore(t);
    f()
}

pub enum Caught {
    /// the simulator's own fault
    Injected(&'static str),
    /// the library panicked by itself
    Panic(String),
}

/// a call into the library
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    debug_assert!(!INLIB.get());
    let r = tracked(|| {
        INLIB.set(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        INLIB.set(false);
        r
    });
    r.map_err(|e| {
        if let Some(i) = e.downcast_ref::<Injected>() {
            Caught::Injected(i.0)
        } else {
            let m = LAST_PANIC.with(|c| c.borrow().clone());
            Caught::Panic(m)
        }
    })
}

/// arm the allocation fault for the next library call of this thread
pub fn arm_alloc(k: u64) {
    ALLOCS.set(0);
    FIRED.set(false);
    FAIL_AT.set(k);
}
pub fn disarm_alloc() -> bool {
    FAIL_AT.set(0);
    FIRED.get()
}

/// run calls that are not the ones a fault is planned for
pub fn unarmed<R>(f: impl FnOnce() -> R) -> R {
    let (k, n, x) = (FAIL_AT.replace(0), ALLOCS.get(), FIRED.get());
    let r = f();
    FAIL_AT.set(k);
    ALLOCS.set(n);
    FIRED.set(x);
    r
}

/// give the thread a budget of library steps, counted from now
pub fn set_limit(steps: u64) {
    LIMIT.set(STEPS.get().saturating_add(steps));
    recompute();
}

// ------------------------------------------------------- coverage callbacks

pub static EDGES: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = EDGES.fetch_add(1, Relaxed) as u32 + 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !INLIB.get() {
        return;
    }
    engine::edge(*guard);
    step();
}

#[inline(always)]
fn step() {
    let s = STEPS.get() + 1;
    STEPS.set(s);
    if s >= CHECK_AT.get() {
        slow(s);
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
unsafe fn memory_access(p: *const u8) {
    if p >= &raw const __data_start && p < &raw const _end && INLIB.get() {
        static_access(p)
    }
}

#[cold]
fn static_access(_p: *const u8) {
    STATIC_HITS.fetch_add(1, Relaxed);
    if std::env::var_os("SIM_TRACE_STATICS").is_some() {
        outside(|| eprintln!("static {:x}", _p as usize - unsafe { &raw const __data_start as usize }));
    }
    step();
    if NEED_STATIC_POS.load(Relaxed) {
        outside(|| STATIC_POS.with(|v| v.borrow_mut().push(STEPS.get())));
    }
}

thread_local! {
    /// own-step positions at which this thread touched a writable static
    pub static STATIC_POS: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) };
}
pub fn record_static_positions(on: bool) {
    NEED_STATIC_POS.store(on, Relaxed);
}

macro_rules! mem_cb {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $l(p: *const u8) { memory_access(p) }
        #[no_mangle] pub unsafe extern "C" fn $s(p: *const u8) { memory_access(p) }
    )*};
}
mem_cb!(
    __sanitizer_cov_load1 __sanitizer_cov_store1,
    __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4,
    __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

// ----------------------------------------------------------------- scheduler

const MAXT: usize = 8;
const RUN: u8 = 0;
const DONE: u8 = 1;
const STALLED: u8 = 2;

#[derive(Clone, Copy, PartialEq, Eq)]
struct Sw {
    delta: u64,
    to: usize,
}

struct Sched {
    n: usize,
    state: [u8; MAXT],
    stall_at: [u64; MAXT],
    switches: Vec<Sw>,
    idx: usize,
    /// library steps left until the next planned switch
    left: u64,
    /// own step count at which the running thread got the baton
    since: u64,
    /// performed switches: (from, to, global step)
    log: Vec<(u8, u8, u64)>,
    gstep: u64,
    unstalled: bool,
    stalls: u64,
}

static mut SCHED: Option<Sched> = None;
static BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static MAIN: AtomicU32 = AtomicU32::new(0);
static ON: AtomicBool = AtomicBool::new(false);

#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched {
    // only the holder of the baton comes here
    unsafe { SCHED.as_mut().unwrap() }
}

fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _)
    };
    r
}
const FUTEX: i64 = 202;

fn wait_baton(b: &AtomicU32) {
    use std::sync::atomic::Ordering::{Acquire, SeqCst};
    let mut spins = 0;
    while b.swap(0, SeqCst) == 0 {
        spins += 1;
        if spins < 200 {
            std::hint::spin_loop();
            continue;
        }
        if b.load(Acquire) == 0 {
            raw(FUTEX, b.as_ptr() as i64, 128, 0, 0, 0, 0);
        }
    }
}
fn give_baton(b: &AtomicU32) {
    b.store(1, std::sync::atomic::Ordering::SeqCst);
    raw(FUTEX, b.as_ptr() as i64, 1 | 128, 1, 0, 0, 0);
}

fn recompute() {
    let mut c = LIMIT.get();
    if ON.load(Relaxed) && ME.get() < MAXT {
        let s = sched();
        c = c.min(s.since.saturating_add(s.left));
        if !s.unstalled {
            c = c.min(s.stall_at[ME.get()]);
        }
    }
    CHECK_AT.set(c);
}

#[cold]
fn slow(now: u64) {
    if now >= LIMIT.get() {
        engine::violation(
            "endless",
            &format!("a library call did not finish within its budget of execution steps ({now} steps)"),
        );
    }
    if !ON.load(Relaxed) || ME.get() >= MAXT {
        CHECK_AT.set(LIMIT.get());
        return;
    }
    outside(|| {
        let me = ME.get();
        let s = sched();
        account(s);
        if !s.unstalled && now >= s.stall_at[me] {
            s.stall_at[me] = u64::MAX;
            s.state[me] = STALLED;
            s.stalls += 1;
            let to = pick(s, me, me + 1);
            go(me, to);
        } else if s.left == 0 {
            let to = s.switches[s.idx].to;
            s.idx += 1;
            s.left = s.switches.get(s.idx).map(|x| x.delta.max(1)).unwrap_or(u64::MAX);
            let to = pick(s, me, to);
            go(me, to);
        }
        recompute();
    })
}

/// charge the steps the running thread made since it got the baton
fn account(s: &mut Sched) {
    let used = STEPS.get() - s.since;
    s.since = STEPS.get();
    s.gstep += used;
    if s.left != u64::MAX {
        s.left = s.left.saturating_sub(used);
    }
}

/// first runnable thread at or after `want`; wakes the stalled ones when
/// nobody else can run
fn pick(s: &mut Sched, _me: usize, want: usize) -> usize {
    for _ in 0..2 {
        for d in 0..s.n {
            let t = (want + d) % s.n;
            if s.state[t] == RUN {
                return t;
            }
        }
        for t in 0..s.n {
            if s.state[t] == STALLED {
                s.state[t] = RUN;
                s.unstalled = true;
            }
        }
    }
    usize::MAX
}

fn go(me: usize, to: usize) {
    if me == to {
        sched().since = STEPS.get();
        return;
    }
    let s = sched();
    s.log.push((me as u8, to as u8, s.gstep));
    give_baton(&BATON[to]);
    wait_baton(&BATON[me]);
    sched().since = STEPS.get();
}

pub struct SchedReport {
    pub log: Vec<(u8, u8, u64)>,
    pub steps: Vec<u64>,
    pub gstep: u64,
    pub stalls: u64,
}

/// Runs the closures as real threads of which exactly one runs at any time.
/// `switches`: after `delta` further library steps the baton goes to `to`.
/// `stalls[t]`: after that many own steps t does not run until all others are done.
pub fn run_threads<'a>(
    fs: Vec<Box<dyn FnOnce() + Send + 'a>>,
    first: usize,
    switches: &[(u64, usize)],
    stalls: &[Option<u64>],
    limits: &[u64],
) -> SchedReport {
    let n = fs.len();
    assert!(n <= MAXT && n > 0);
    let mut stall_at = [u64::MAX; MAXT];
    for (i, s) in stalls.iter().enumerate() {
        if let Some(s) = s {
            stall_at[i] = (*s).max(1)
        }
    }
    let sw: Vec<Sw> = switches.iter().map(|&(delta, to)| Sw { delta, to }).collect();
    unsafe {
        SCHED = Some(Sched {
            n,
            state: [RUN; MAXT],
            stall_at,
            left: sw.first().map(|x| x.delta.max(1)).unwrap_or(u64::MAX),
            switches: sw,
            idx: 0,
            since: 0,
            log: Vec::with_capacity(256),
            gstep: 0,
            unstalled: false,
            stalls: 0,
        })
    }
    MAIN.store(0, Relaxed);
    for b in BATON.iter() {
        b.store(0, Relaxed)
    }
    let steps: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let steps = &steps;
    let allocs_before = INLIB.get();
    assert!(!allocs_before);
    std::thread::scope(|sc| {
        for (i, f) in fs.into_iter().enumerate() {
            let limit = limits[i];
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .name(format!("client-{i}"))
                .spawn_scoped(sc, move || {
                    ME.set(i);
                    wait_baton(&BATON[i]);
                    sched().since = STEPS.get();
                    set_limit(limit);
                    f();
                    LIMIT.set(u64::MAX);
                    CHECK_AT.set(u64::MAX);
                    steps[i].store(STEPS.get(), Relaxed);
                    let s = sched();
                    account(s);
                    s.state[i] = DONE;
                    let to = pick(s, i, i + 1);
                    ME.set(usize::MAX);
                    if to == usize::MAX {
                        give_baton(&MAIN);
                    } else {
                        s.log.push((i as u8, to as u8, s.gstep));
                        give_baton(&BATON[to]);
                    }
                })
                .unwrap_or_else(|_| engine::harness_error("cannot start a thread"));
        }
        ON.store(true, Relaxed);
        let s = sched();
        let first = pick(s, 0, first % n);
        give_baton(&BATON[first]);
        wait_baton(&MAIN);
        ON.store(false, Relaxed);
    });
    let s = unsafe { (*(&raw mut SCHED)).take().unwrap() };
    SchedReport {
        log: s.log,
        steps: steps.iter().map(|x| x.load(Relaxed)).collect(),
        gstep: s.gstep,
        stalls: s.stalls,
    }
}

/// lets a value cross to another thread whatever its type says; whether the
/// library's types say so is decided by C03
pub struct Anywhere<T>(T);
unsafe impl<T> Send for Anywhere<T> {}
unsafe impl<T> Sync for Anywhere<T> {}
impl<T> Anywhere<T> {
    pub fn new(t: T) -> Self {
        Anywhere(t)
    }
    pub fn get(self) -> T {
        self.0
    }
}

// -------------------------------------------------------- system call seams

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == FUTEX && INLIB.get() {
        SEAM_HITS.fetch_add(1, Relaxed);
        let op = b & 0x7f;
        // FUTEX_WAIT, FUTEX_WAIT_BITSET
        if (op == 0 || op == 9) && *(a as *const u32) == c as u32 {
            outside(|| {
                engine::violation(
                    "wait",
                    "a library call put its caller to sleep waiting for another call (futex wait)",
                )
            });
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
    static environ: *const *const i8;
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.load(Relaxed);
    for i in 0..len {
        s = crate::rng::mix(s);
        *buf.add(i) = s as u8;
    }
    HASH_SEED.store(s, Relaxed);
    if INLIB.get() {
        SEAM_HITS.fetch_add(1, Relaxed);
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32 {
    if INLIB.get() {
        SEAM_HITS.fetch_add(1, Relaxed);
        let st = CLOCK_STEP.load(Relaxed);
        let t = CLOCK_BASE.fetch_add(st, Relaxed);
        *ts = [t / 1000, (t % 1000) * 1_000_000];
        return 0;
    }
    raw(228, clock as i64, ts as i64, 0, 0, 0, 0) as i32
}

unsafe fn sim_sleep() -> i32 {
    SEAM_HITS.fetch_add(1, Relaxed);
    outside(|| {
        engine::violation("wait", "a library call put its caller to sleep");
    })
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const i64, b: *mut i64) -> i32 {
    if INLIB.get() {
        return sim_sleep();
    }
    raw(35, a as i64, b as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, a: *const i64, b: *mut i64) -> i32 {
    if INLIB.get() {
        return sim_sleep();
    }
    -(raw(230, c as i64, f as i64, a as i64, b as i64, 0, 0) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if INLIB.get() {
        SEAM_HITS.fetch_add(1, Relaxed);
        step();
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    if INLIB.get() {
        SEAM_HITS.fetch_add(1, Relaxed);
        return match GETENV_VALUE.load(Relaxed) {
            0 => std::ptr::null(),
            1 => c"1".as_ptr() as *const i8,
            2 => c"0".as_ptr() as *const i8,
            _ => c"tr_TR.UTF-8".as_ptr() as *const i8,
        };
    }
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let mut i = 0;
        while *name.add(i) != 0 && *(*e).add(i) == *name.add(i) {
            i += 1
        }
        if *name.add(i) == 0 && *(*e).add(i) == b'=' as i8 {
            return (*e).add(i + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

// ------------------------------------------------- work done by memory moves

/// The compiled standard library is not instrumented; most of what it does
/// for the library by the byte goes through these.  32 bytes count as a step.
mod moves {
    use super::{INLIB, STEPS};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

    static REAL: [AtomicUsize; 5] = [const { AtomicUsize::new(0) }; 5];
    extern "C" {
        fn dlsym(h: *mut u8, name: *const i8) -> usize;
    }

    #[used]
    #[link_section = ".init_array"]
    static INIT: extern "C" fn() = init;

    extern "C" fn init() {
        for (i, n) in [c"memcpy", c"memmove", c"memcmp", c"memset", c"memchr"].iter().enumerate() {
            // RTLD_NEXT
            REAL[i].store(unsafe { dlsym(-1isize as *mut u8, n.as_ptr() as *const i8) }, Relaxed);
        }
    }

    #[inline(always)]
    fn work(n: usize) {
        if INLIB.get() {
            STEPS.set(STEPS.get() + n as u64 / 32);
        }
    }
    macro_rules! real {
        ($i:expr) => {{
            let p = REAL[$i].load(Relaxed);
            if p == 0 {
                init();
            }
            REAL[$i].load(Relaxed)
        }};
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        work(n);
        let f: unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8 = std::mem::transmute(real!(0));
        f(d, s, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        work(n);
        let f: unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8 = std::mem::transmute(real!(1));
        f(d, s, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(d: *const u8, s: *const u8, n: usize) -> i32 {
        work(n);
        let f: unsafe extern "C" fn(*const u8, *const u8, usize) -> i32 = std::mem::transmute(real!(2));
        f(d, s, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(d: *const u8, s: *const u8, n: usize) -> i32 {
        work(n);
        let f: unsafe extern "C" fn(*const u8, *const u8, usize) -> i32 = std::mem::transmute(real!(2));
        f(d, s, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        work(n);
        let f: unsafe extern "C" fn(*mut u8, i32, usize) -> *mut u8 = std::mem::transmute(real!(3));
        f(d, c, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn memchr(s: *const u8, c: i32, n: usize) -> *const u8 {
        work(n);
        let f: unsafe extern "C" fn(*const u8, i32, usize) -> *const u8 = std::mem::transmute(real!(4));
        f(s, c, n)
    }
}
