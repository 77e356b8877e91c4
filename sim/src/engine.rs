//! Runs plans: one forked process per run (so that no run sees what another
//! left behind in statics), eight worker processes, verdicts through shared
//! memory, minimisation, replay files and evidence.

use crate::rng::{hash, mix, Rng};
use crate::seams;
use crate::sx::Sx;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub enum Fail {
    /// the plan means nothing (only after minimisation steps)
    Invalid,
    Violation {
        class: String,
        msg: String,
        /// the same failure as a plan that names the failing fault
        refined: Option<Sx>,
    },
}

pub type Run = Result<(), Fail>;

pub fn viol(class: &str, msg: impl Into<String>) -> Fail {
    Fail::Violation {
        class: class.into(),
        msg: msg.into(),
        refined: None,
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($m:tt)*) => {
        if !$c { return Err($crate::engine::viol($class, format!($($m)*))) }
    };
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn runs(&self, tier: Tier) -> u64;
    fn gen(&self, rng: &mut Rng, run: u64, tier: Tier) -> Sx;
    fn run(&self, plan: &Sx) -> Run;
    fn rule(&self) -> &'static str;
    fn components(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str>;
    /// extra work in the main process after the workers (known findings, ...)
    fn epilogue(&self, _seed: u64, _tier: Tier) -> Vec<String> {
        Vec::new()
    }
}

// ------------------------------------------------------------ shared memory

const NCTR: usize = 96;
const NSIG: usize = 1 << 17;
const MSG: usize = 1 << 16;
const PLAN: usize = 4 << 20;

#[repr(C)]
pub struct Shm {
    status: AtomicU32,
    class_len: AtomicU32,
    msg_len: AtomicU32,
    plan_len: AtomicU32,
    digest: AtomicU64,
    class: [u8; 128],
    msg: [u8; MSG],
    plan: [u8; PLAN],
    /// where the run was when it ended
    note_len: AtomicU32,
    note: [u8; 4096],
    names: [[u8; 48]; NCTR],
    ctr: [AtomicU64; NCTR],
    nctr: AtomicU32,
    nsig: AtomicU32,
    sig: [u64; NSIG],
    nstate: AtomicU32,
    state: [u64; NSIG],
    // worker results
    runs: u64,
    invalid: u64,
    total_digest: u64,
    first_bad: u64,
    bad_status: u32,
    done: u32,
    nsigs: u64,
    nstates: u64,
}

pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
const INVALID: u32 = 3;
const HARNESS: u32 = 4;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

unsafe fn shared(len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    let p = mmap(std::ptr::null_mut(), len, 3, 1 | 0x20 | 0x4000, -1, 0);
    if p as isize == -1 {
        harness_error("mmap failed");
    }
    p
}

static mut SHM: *mut Shm = std::ptr::null_mut();
static mut EDGEMAP: *mut u8 = std::ptr::null_mut();
const NEDGE: usize = 1 << 16;

fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

#[inline(always)]
pub fn edge(id: u32) {
    unsafe {
        if !EDGEMAP.is_null() {
            *EDGEMAP.add(id as usize & (NEDGE - 1)) = 1;
        }
    }
}

pub fn init() {
    unsafe {
        if EDGEMAP.is_null() {
            EDGEMAP = shared(NEDGE);
        }
        if SHM.is_null() {
            SHM = shared(std::mem::size_of::<Shm>()) as *mut Shm;
        }
    }
}

fn edges_reached() -> u64 {
    unsafe { (0..NEDGE).filter(|i| *EDGEMAP.add(*i) != 0).count() as u64 }
}

fn put(len: &AtomicU32, buf: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(buf.len());
    buf[..n].copy_from_slice(&b[..n]);
    len.store(n as u32, Relaxed);
}
fn get(len: &AtomicU32, buf: &[u8]) -> String {
    String::from_utf8_lossy(&buf[..len.load(Relaxed) as usize]).into_owned()
}

/// count something that really happened
pub fn count(name: &str, n: u64) {
    if unsafe { SHM.is_null() } || n == 0 {
        return;
    }
    let s = shm();
    let b = name.as_bytes();
    assert!(b.len() < 48, "counter name too long: {name}");
    let k = s.nctr.load(Relaxed) as usize;
    for i in 0..k {
        if s.names[i][..b.len()] == *b && s.names[i][b.len()] == 0 {
            s.ctr[i].fetch_add(n, Relaxed);
            return;
        }
    }
    if k < NCTR {
        s.names[k] = [0; 48];
        s.names[k][..b.len()].copy_from_slice(b);
        s.ctr[k].store(n, Relaxed);
        s.nctr.store(k as u32 + 1, Relaxed);
    }
}

/// the maximum seen of something
pub fn maximum(name: &str, v: u64) {
    let s = shm();
    let full = format!("max:{name}");
    let b = full.as_bytes();
    let k = s.nctr.load(Relaxed) as usize;
    for i in 0..k {
        if s.names[i][..b.len()] == *b && s.names[i][b.len()] == 0 {
            s.ctr[i].fetch_max(v, Relaxed);
            return;
        }
    }
    count(&full, v);
}

/// one evaluated case with its signature
pub fn case(sig: u64) {
    count("evaluations", 1);
    let s = shm();
    let i = s.nsig.fetch_add(1, Relaxed) as usize;
    if i < NSIG {
        s.sig[i] = sig;
    }
}
/// one evaluated case that does not count as non-trivial
pub fn trivial_case() {
    count("evaluations", 1);
}
/// a distinct state / interleaving reached
pub fn state(sig: u64) {
    let s = shm();
    let i = s.nstate.fetch_add(1, Relaxed) as usize;
    if i < NSIG {
        s.state[i] = sig;
    }
}
/// part of the event log of the run
pub fn event(bytes: &[u8]) {
    let s = shm();
    let d = s.digest.load(Relaxed);
    s.digest.store(mix(d ^ hash(bytes)), Relaxed);
}
/// where the run is (shown when it crashes or never returns)
pub fn note(t: &str) {
    let s = shm();
    put(&s.note_len, &mut s.note, t);
}
/// the plan to report should the process die in the middle of the run
pub fn candidate(plan: &Sx) {
    let s = shm();
    put(&s.plan_len, &mut s.plan, &plan.to_string());
}

/// report a violation from anywhere and end the run
pub fn violation(class: &str, msg: &str) -> ! {
    seams::INLIB.set(false);
    if unsafe { SHM.is_null() } {
        println!("violation {class}: {msg}");
        unsafe { _exit(1) }
    }
    let s = shm();
    let m = format!("{msg} [{}]", get(&s.note_len, &s.note));
    put(&s.class_len, &mut s.class, class);
    put(&s.msg_len, &mut s.msg, &m);
    s.status.store(VIOLATION, Relaxed);
    unsafe { _exit(0) }
}

pub fn harness_error(msg: &str) -> ! {
    seams::INLIB.set(false);
    unsafe {
        if !SHM.is_null() {
            let s = shm();
            put(&s.msg_len, &mut s.msg, msg);
            s.status.store(HARNESS, Relaxed);
        }
        eprintln!("simulator error: {msg}");
        _exit(3)
    }
}

// ------------------------------------------------------------------ running

pub struct Outcome {
    pub status: u32,
    pub class: String,
    pub msg: String,
    pub refined: Option<Sx>,
    pub digest: u64,
}

pub fn try_plan(check: &dyn Check, plan: &Sx) -> Outcome {
    isolated(check, Source::Plan(plan))
}

/// the line of the known-findings file about this finding, as it is reported
pub fn known(property: &str, name: &str) -> Option<String> {
    let t = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/../known-findings.txt")).ok()?;
    let head = format!("finding: property={property} {name}: ");
    t.lines().find_map(|l| l.strip_prefix(&head)).map(|l| format!("KNOWN-FINDING: property={property} {name}: {l}"))
}

enum Source<'a> {
    Seed(u64, u64, Tier),
    Plan(&'a Sx),
}

const REAL_TIME_LIMIT: u32 = 240;

/// one run in a process of its own
fn isolated(check: &dyn Check, src: Source) -> Outcome {
    let s = shm();
    s.status.store(0, Relaxed);
    s.class_len.store(0, Relaxed);
    s.msg_len.store(0, Relaxed);
    s.plan_len.store(0, Relaxed);
    s.note_len.store(0, Relaxed);
    s.digest.store(0, Relaxed);
    unsafe {
        let pid = fork();
        if pid < 0 {
            harness_error("fork failed");
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            alarm(REAL_TIME_LIMIT);
            setrlimit(4, &[0, 0]);
            child(check, src);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let mut status = s.status.load(Relaxed);
        let mut class = get(&s.class_len, &s.class);
        let mut msg = get(&s.msg_len, &s.msg);
        if st & 0x7f != 0 {
            let sig = st & 0x7f;
            if sig == 14 {
                status = HARNESS;
                msg = format!(
                    "a run took more than {REAL_TIME_LIMIT} s of real time [{}]",
                    get(&s.note_len, &s.note)
                );
            } else if sig == 9 {
                status = HARNESS;
                msg = "a run was killed from outside".into();
            } else {
                status = VIOLATION;
                class = "crash".into();
                msg = format!(
                    "the process died with signal {sig} inside the run [{}]",
                    get(&s.note_len, &s.note)
                );
            }
        } else if status == 0 {
            status = HARNESS;
            msg = "a run ended without a verdict".into();
        }
        let refined = (s.plan_len.load(Relaxed) > 0)
            .then(|| Sx::parse(&get(&s.plan_len, &s.plan)))
            .flatten();
        Outcome {
            status,
            class,
            msg,
            refined,
            digest: s.digest.load(Relaxed),
        }
    }
}

fn child(check: &dyn Check, src: Source) -> ! {
    let body = move || {
        let own;
        let plan = match src {
            Source::Seed(seed, run, tier) => {
                let mut rng = Rng::for_run(seed, check.id(), run);
                own = check.gen(&mut rng, run, tier);
                &own
            }
            Source::Plan(p) => p,
        };
        event(plan.to_string().as_bytes());
        let r = check.run(plan);
        let s = shm();
        match r {
            Ok(()) => s.status.store(OK, Relaxed),
            Err(Fail::Invalid) => s.status.store(INVALID, Relaxed),
            Err(Fail::Violation {
                class,
                msg,
                refined,
            }) => {
                put(&s.class_len, &mut s.class, &class);
                put(&s.msg_len, &mut s.msg, &msg);
                if let Some(p) = refined {
                    candidate(&p);
                } else {
                    s.plan_len.store(0, Relaxed);
                }
                s.status.store(VIOLATION, Relaxed)
            }
        }
    };
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, body)
            .unwrap();
        if h.join().is_err() {
            panicked();
        }
    });
    unsafe { _exit(0) }
}

/// a thread of the simulator ended in a panic: the library's when that is
/// where it started, a defect of the simulator otherwise
pub fn panicked() -> ! {
    let m = seams::PANICKED.lock().unwrap_or_else(|e| e.into_inner()).clone();
    match m {
        Some(m) => violation("panic", &format!("a library call panicked: {m}")),
        None => harness_error("the simulator panicked (set SIM_DEBUG=1)"),
    }
}

/// `f` in a forked process of its own; its bytes come back through a pipe.
/// None when the process died.
pub fn in_fork(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            harness_error("pipe failed");
        }
        let pid = fork();
        if pid < 0 {
            harness_error("fork failed");
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            close(fds[0]);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let out = f();
            let _ = w.write_all(&out);
            let _ = w.write_all(b"\0done");
            drop(w);
            _exit(0)
        }
        close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut out = Vec::new();
        let _ = r.read_to_end(&mut out);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if out.ends_with(b"\0done") {
            out.truncate(out.len() - 5);
            Some(out)
        } else {
            let v = shm().status.load(Relaxed);
            if v == HARNESS {
                _exit(3)
            }
            if v == VIOLATION {
                // reported by the grandchild
                _exit(0)
            }
            None
        }
    }
}

// ------------------------------------------------------------------ workers

pub struct Totals {
    pub runs: u64,
    pub invalid: u64,
    pub digest: u64,
    pub ctr: BTreeMap<String, u64>,
    pub sigs: u64,
    pub states: u64,
    pub bad: Option<(u64, Outcome)>,
    pub wall: f64,
}

pub fn campaign(
    check: &dyn Check,
    seed: u64,
    tier: Tier,
    runs: u64,
    workers: u64,
    cap_s: f64,
) -> Totals {
    let t0 = Instant::now();
    let regions: Vec<*mut Shm> = (0..workers)
        .map(|_| unsafe { shared(std::mem::size_of::<Shm>()) as *mut Shm })
        .collect();
    let stop = unsafe { &*(shared(4096) as *const AtomicU64) };
    stop.store(u64::MAX, Relaxed);
    const SET: usize = 8 << 20;
    let sets: Vec<*mut u64> = (0..workers)
        .map(|_| unsafe { shared(SET * 8 * 2) as *mut u64 })
        .collect();
    let mut pids = Vec::new();
    for w in 0..workers {
        unsafe {
            let pid = fork();
            if pid < 0 {
                harness_error("fork failed");
            }
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                SHM = regions[w as usize];
                let mut sigs: HashSet<u64> = HashSet::new();
                let mut states: HashSet<u64> = HashSet::new();
                let mut i = w;
                while i < runs && i < stop.load(Relaxed) && t0.elapsed().as_secs_f64() < cap_s {
                    let o = isolated(check, Source::Seed(seed, i, tier));
                    let s = shm();
                    s.runs += 1;
                    s.total_digest = s.total_digest.wrapping_add(mix(o.digest ^ mix(i)));
                    for j in 0..(s.nsig.load(Relaxed) as usize).min(NSIG) {
                        sigs.insert(s.sig[j]);
                    }
                    for j in 0..(s.nstate.load(Relaxed) as usize).min(NSIG) {
                        states.insert(s.state[j]);
                    }
                    s.nsig.store(0, Relaxed);
                    s.nstate.store(0, Relaxed);
                    if o.status == INVALID {
                        s.invalid += 1;
                    } else if o.status != OK {
                        s.first_bad = i + 1;
                        s.bad_status = o.status;
                        put(&s.class_len, &mut s.class, &o.class);
                        put(&s.msg_len, &mut s.msg, &o.msg);
                        stop.fetch_min(i, Relaxed);
                        break;
                    }
                    i += workers;
                }
                let s = shm();
                for (k, set) in [&sigs, &states].iter().enumerate() {
                    for (j, h) in set.iter().take(SET).enumerate() {
                        *sets[w as usize].add(k * SET + j) = *h;
                    }
                }
                s.nsigs = sigs_len(&sigs);
                s.nstates = sigs_len(&states);
                s.done = 1;
                _exit(0)
            }
            pids.push(pid);
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { while waitpid(p, &mut st, 0) < 0 {} }
    }
    let mut t = Totals {
        runs: 0,
        invalid: 0,
        digest: 0,
        ctr: BTreeMap::new(),
        sigs: 0,
        states: 0,
        bad: None,
        wall: t0.elapsed().as_secs_f64(),
    };
    let (mut sigs, mut states) = (HashSet::new(), HashSet::new());
    for (w, r) in regions.iter().enumerate() {
        let s = unsafe { &**r };
        if s.done != 1 {
            harness_error("a worker died");
        }
        t.runs += s.runs;
        t.invalid += s.invalid;
        t.digest = t.digest.wrapping_add(s.total_digest);
        for i in 0..s.nctr.load(Relaxed) as usize {
            let n = String::from_utf8_lossy(&s.names[i])
                .trim_end_matches('\0')
                .to_string();
            let v = s.ctr[i].load(Relaxed);
            let e = t.ctr.entry(n.clone()).or_insert(0);
            if n.starts_with("max:") {
                *e = (*e).max(v)
            } else {
                *e += v
            }
        }
        for j in 0..s.nsigs as usize {
            sigs.insert(unsafe { *sets[w].add(j) });
        }
        for j in 0..s.nstates as usize {
            states.insert(unsafe { *sets[w].add(SET + j) });
        }
        if s.first_bad > 0 {
            let i = s.first_bad - 1;
            if t.bad.as_ref().is_none_or(|(b, _)| i < *b) {
                t.bad = Some((
                    i,
                    Outcome {
                        status: s.bad_status,
                        class: get(&s.class_len, &s.class),
                        msg: get(&s.msg_len, &s.msg),
                        refined: None,
                        digest: 0,
                    },
                ));
            }
        }
        unsafe {
            munmap(*r as *mut u8, std::mem::size_of::<Shm>());
            munmap(sets[w] as *mut u8, SET * 16);
        }
    }
    t.sigs = sigs.len() as u64;
    t.states = states.len() as u64;
    t
}

fn sigs_len(s: &HashSet<u64>) -> u64 {
    s.len().min(8 << 20) as u64
}

// ------------------------------------------------------------- minimisation

/// smallest plan found that still fails with the same class
fn minimise(check: &dyn Check, plan: Sx, class: &str, budget_s: f64) -> (Sx, String, u64) {
    let t0 = Instant::now();
    let mut best = plan;
    let mut tried = 0;
    let o = isolated(check, Source::Plan(&best));
    let mut msg = o.msg;
    if let Some(r) = o.refined {
        let o2 = isolated(check, Source::Plan(&r));
        if o2.status == VIOLATION && o2.class == class {
            best = r;
            msg = o2.msg;
        }
    }
    loop {
        let before = best.size();
        // paths of all nodes, big subtrees first
        let mut paths: Vec<(usize, Vec<usize>)> = Vec::new();
        walk(&best, &mut Vec::new(), &mut paths);
        paths.sort_by_key(|p| std::cmp::Reverse(p.0));
        'paths: for (_, path) in paths {
            loop {
                if t0.elapsed().as_secs_f64() > budget_s {
                    return (best, msg, tried);
                }
                let Some(node) = at_path(&best, &path) else {
                    continue 'paths;
                };
                let mut progress = false;
                for cand in smaller(node) {
                    let cand = cand();
                    if t0.elapsed().as_secs_f64() > budget_s {
                        return (best, msg, tried);
                    }
                    let next = with_path(&best, &path, cand);
                    if next.size() >= best.size() && !simpler(&next, &best) {
                        continue;
                    }
                    tried += 1;
                    let o = isolated(check, Source::Plan(&next));
                    if o.status == VIOLATION && o.class == class {
                        best = next;
                        msg = o.msg;
                        progress = true;
                        break;
                    }
                }
                if !progress {
                    break;
                }
            }
        }
        if best.size() >= before {
            return (best, msg, tried);
        }
    }
}

fn simpler(_a: &Sx, _b: &Sx) -> bool {
    false
}

fn walk(s: &Sx, path: &mut Vec<usize>, out: &mut Vec<(usize, Vec<usize>)>) {
    out.push((s.size(), path.clone()));
    if let Sx::L(v) = s {
        for (i, x) in v.iter().enumerate() {
            path.push(i);
            walk(x, path, out);
            path.pop();
        }
    }
}
fn at_path<'a>(s: &'a Sx, p: &[usize]) -> Option<&'a Sx> {
    match p {
        [] => Some(s),
        [h, t @ ..] => at_path(s.at(*h)?, t),
    }
}
fn with_path(s: &Sx, p: &[usize], new: Option<Vec<Sx>>) -> Sx {
    match (s, p) {
        (_, []) => match new {
            Some(mut v) if v.len() == 1 => v.pop().unwrap(),
            _ => s.clone(),
        },
        (Sx::L(v), [h]) => {
            let mut w = v.clone();
            w.splice(*h..*h + 1, new.unwrap_or_default());
            Sx::L(w)
        }
        (Sx::L(v), [h, t @ ..]) => {
            let mut w = v.clone();
            w[*h] = with_path(&v[*h], t, new);
            Sx::L(w)
        }
        _ => s.clone(),
    }
}

type Smaller<'a> = Box<dyn FnOnce() -> Option<Vec<Sx>> + 'a>;

/// replacements of a node: removed, a part of it, halved, simplified
/// (made one at a time: large nodes have many)
fn smaller(s: &Sx) -> Vec<Smaller<'static>> {
    let mut out: Vec<Smaller<'static>> = vec![Box::new(|| None)];
    match s {
        Sx::L(v) => {
            let n = v.len();
            let v = std::rc::Rc::new(v.clone());
            // drop ranges of elements, keeping the head
            let mut len = n.saturating_sub(1);
            while len >= 2 && len * 256 >= n {
                let mut i = 1;
                while i + len <= n {
                    let v = v.clone();
                    out.push(Box::new(move || {
                        let mut w = (*v).clone();
                        w.drain(i..i + len);
                        Some(vec![Sx::L(w)])
                    }));
                    i += len;
                }
                len /= 2;
            }
            for (i, x) in v.iter().enumerate() {
                if matches!(x, Sx::L(_)) {
                    let v = v.clone();
                    out.push(Box::new(move || Some(vec![v[i].clone()])));
                }
            }
            // a node by its children
            for (i, x) in v.iter().enumerate() {
                if let Sx::L(w) = x {
                    if w.iter().all(|y| matches!(y, Sx::L(_))) && !w.is_empty() {
                        let v = v.clone();
                        out.push(Box::new(move || match &v[i] {
                            Sx::L(w) => Some(w.clone()),
                            _ => None,
                        }));
                    }
                }
            }
        }
        Sx::A(t) => {
            if let Ok(n) = t.parse::<i64>() {
                for m in [0, 1, n / 2, n - 1] {
                    if m >= 0 && m < n {
                        out.push(Box::new(move || Some(vec![Sx::A(m.to_string())])));
                    }
                }
                return out;
            }
            let c: std::rc::Rc<Vec<char>> = std::rc::Rc::new(t.chars().collect());
            let mut len = c.len() / 2;
            while len >= 1 && len * 256 >= c.len() {
                let mut i = 0;
                while i + len <= c.len() {
                    let c = c.clone();
                    out.push(Box::new(move || {
                        let w: String = c[..i].iter().chain(c[i + len..].iter()).collect();
                        Some(vec![Sx::A(w)])
                    }));
                    i += len;
                }
                len /= 2;
            }
            if c.len() == 1 && c[0] != 'a' {
                out.push(Box::new(|| Some(vec![Sx::A("a".into())])));
            }
            if c.len() == 1 {
                out.push(Box::new(|| Some(vec![Sx::A(String::new())])));
            }
        }
    }
    out
}

// --------------------------------------------------------------------- main

pub fn replay(check: &dyn Check, file: &str) -> i32 {
    init();
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 3;
        }
    };
    let Some(plan) = Sx::parse(&text) else {
        eprintln!("{file}: not a replay file");
        return 3;
    };
    let Some(plan) = plan.field("plan").and_then(|p| p.at(1)).cloned() else {
        eprintln!("{file}: no plan");
        return 3;
    };
    let o = isolated(check, Source::Plan(&plan));
    match o.status {
        OK => {
            println!("held: no violation of {} in this plan", check.id());
            0
        }
        VIOLATION => {
            println!("class: {}", o.class);
            println!("{}", o.msg);
            println!("VIOLATION property={} replay={file}", check.id());
            1
        }
        INVALID => {
            println!("the plan is not valid");
            3
        }
        _ => {
            println!("simulator error: {}", o.msg);
            3
        }
    }
}

pub fn regenerate(check: &dyn Check, seed: u64, run: u64, tier: Tier) -> Sx {
    check.gen(&mut Rng::for_run(seed, check.id(), run), run, tier)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

pub fn run_check(check: &dyn Check, tier: Tier, seed: u64, root: &str) -> i32 {
    init();
    let t0 = Instant::now();
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let workers = env("SIM_WORKERS").unwrap_or(8).clamp(1, 64);
    let runs = env("SIM_RUNS").unwrap_or(check.runs(tier));
    let cap = env("SIM_CAP_S").map(|x| x as f64).unwrap_or(match tier {
        Tier::Quick => 180.0,
        Tier::Thorough => 780.0,
    });
    println!(
        "{}: seed={seed} tier={} runs={runs} workers={workers}",
        check.id(),
        tier_name(tier)
    );
    let t = campaign(check, seed, tier, runs, workers, cap);
    let mut violations = 0;
    let mut code = 0;
    if let Some((run, o)) = &t.bad {
        if o.status == HARNESS {
            println!("simulator error in run {run}: {}", o.msg);
            return 3;
        }
        violations = 1;
        code = 1;
        println!("run {run} violates {}: [{}] {}", check.id(), o.class, clip(&o.msg, 4000));
        let plan = regenerate(check, seed, *run, tier);
        let again = isolated(check, Source::Seed(seed, *run, tier));
        if again.status != VIOLATION {
            println!("note: the run did not fail again when repeated");
        }
        let class = if again.status == VIOLATION { again.class } else { o.class.clone() };
        let (min, msg, tried) = minimise(check, plan.clone(), &class, 45.0);
        println!(
            "minimised from {} to {} in {tried} steps: {}",
            plan.size(),
            min.size(),
            clip(&msg, 4000)
        );
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{dir}/{}-{seed}-{run}.sx", check.id());
        let whole = Sx::L(vec![
            Sx::A("replay".into()),
            Sx::L(vec![Sx::A("property".into()), Sx::A(check.id().into())]),
            Sx::L(vec![Sx::A("seed".into()), Sx::A(seed.to_string())]),
            Sx::L(vec![Sx::A("run".into()), Sx::A(run.to_string())]),
            Sx::L(vec![Sx::A("class".into()), Sx::A(class.clone())]),
            Sx::L(vec![Sx::A("message".into()), Sx::A(clip(&msg, 4000))]),
            Sx::L(vec![Sx::A("plan".into()), min]),
        ]);
        if std::fs::write(&file, whole.pretty()).is_err() {
            println!("cannot write {file}");
            return 3;
        }
        // the file must fail again in a fresh process
        let exe = std::env::current_exe().unwrap();
        match std::process::Command::new(exe)
            .args(["replay", check.id(), &file])
            .output()
        {
            Ok(out) if out.status.code() == Some(1) => {}
            _ => println!("note: the replay file does not fail in a fresh process"),
        }
        println!("VIOLATION property={} replay={file}", check.id());
    }
    let extra = if code == 0 { check.epilogue(seed, tier) } else { Vec::new() };
    let mut extra_json = String::new();
    for e in extra {
        if let Some(v) = e.strip_prefix("VIOLATION ") {
            println!("VIOLATION {v}");
            violations += 1;
            code = 1;
        } else if let Some(v) = e.strip_prefix("json:") {
            extra_json.push_str(&format!(",\n  {v}"));
        } else if let Some(v) = e.strip_prefix("error:") {
            println!("simulator error: {v}");
            return 3;
        } else {
            println!("{e}");
        }
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let evals = t.ctr.get("evaluations").copied().unwrap_or(0);
    let mut samples = String::new();
    for (i, r) in [0, runs / 3, runs * 2 / 3].iter().enumerate() {
        if i > 0 {
            samples.push_str(", ");
        }
        samples.push_str(&json_str(&clip(
            &format!("seed {seed} run {r}: {}", regenerate(check, seed, *r, tier)),
            1500,
        )));
    }
    let mut faults = String::new();
    let mut probes = String::new();
    for (k, v) in &t.ctr {
        let (dst, name) = if let Some(n) = k.strip_prefix("fault:") {
            (&mut faults, n)
        } else if k == "evaluations" {
            continue;
        } else {
            (&mut probes, k.as_str())
        };
        if !dst.is_empty() {
            dst.push_str(", ");
        }
        dst.push_str(&format!("{}: {v}", json_str(name)));
    }
    let steps = t.ctr.get("simulated steps").copied().unwrap_or(0);
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{samples}],\n  \"simulated_runs\": {},\n  \"runs_per_hour_each_of_its_own_seed\": {},\n  \"simulated_time\": {{\"unit\": \"library steps (basic blocks and static accesses)\", \"covered\": {steps}}},\n  \"faults_fired\": {{{faults}}},\n  \"probes\": {{{probes}}},\n  \"distinct_states_or_interleavings\": {},\n  \"library_edges_total\": {},\n  \"library_edges_reached\": {},\n  \"invalid_plans\": {},\n  \"run_log_digest\": {},\n  \"workers\": {workers},\n  \"components\": {}{extra_json}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        json_str(check.id()),
        json_str(tier_name(tier)),
        json_str(check.level()),
        t.sigs,
        json_str(check.rule()),
        t.runs,
        (t.runs as f64 / t.wall.max(0.001) * 3600.0) as u64,
        t.states,
        seams::EDGES.load(Relaxed),
        edges_reached(),
        t.invalid,
        json_str(&format!("{:016x}", t.digest)),
        json_str(check.components()),
        check
            .assumptions()
            .iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(", "),
    );
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{}.json", check.id()), json).is_err() {
        println!("cannot write evidence");
        return 3;
    }
    println!(
        "{}: {} runs, {evals} evaluations, {} distinct, {} of {} edges, digest {:016x}, {wall:.1} s{}",
        check.id(),
        t.runs,
        t.sigs,
        edges_reached(),
        seams::EDGES.load(Relaxed),
        t.digest,
        if code == 0 { ", held" } else { "" }
    );
    if t.runs == 0 || t.invalid * 2 > t.runs {
        println!("simulator error: too few valid runs");
        return 3;
    }
    code
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}
