//! C09: results depend on the arguments alone.
//!
//! A probe is a small program of calls.  Its results in a fresh process are
//! compared with its results in another environment (hash seed, clock,
//! environment variables, memory addresses, previous contents of memory) on
//! other threads, before, between and after histories of other calls:
//! thousands of small loads, look-alikes of the probe's own texts, refused
//! and interrupted calls.  A sample also runs in a newly executed process.

use crate::c06;
use crate::c07;
use crate::engine::{self, viol, Check, Fail, Run, Tier};
use crate::gen::{self, Cfg};
use crate::ops::{self, Op, World};
use crate::prog::{self, Opts};
use crate::rng::{hash, mix, Rng};
use crate::seams::{self, Env};
use crate::sx::{a, Sx};
use crate::sxl;

pub struct C09;

/// `f` with about `kib` KiB less room on the stack
#[inline(never)]
fn lower<R>(kib: usize, f: impl FnOnce() -> R) -> R {
    if kib == 0 {
        return f();
    }
    let mut room = [0u8; 1024];
    std::hint::black_box(&mut room);
    let r = lower(kib - 1, f);
    std::hint::black_box(&mut room);
    r
}

/// all results of the probe; `deep`: how far down the stack the calls are made
fn probe(v: &[Op], deep: Option<u64>) -> Vec<String> {
    let mut r = Rng::new(deep.unwrap_or(0));
    let mut w: World = World::default();
    let mut out = Vec::new();
    for op in v {
        let kib = if deep.is_some() { *r.pick(&[0, 0, 1, 4, 20, 100, 700]) } else { 0 };
        engine::note(&format!("probe: {}", engine::clip(&op.to_sx().to_string(), 300)));
        seams::set_limit(1_000_000_000);
        seams::arm_alloc(0);
        let op: &dyn Fn(&mut World) -> Option<ops::Res> = &|w| ops::exec(w, op);
        let done: &mut dyn FnMut() -> Option<ops::Res> = &mut || op(&mut w);
        out.push(lower(kib, done).map(|r| r.text()).unwrap_or_else(|| "-".into()));
    }
    out.extend(w.dump());
    out.extend(w.slots.iter().flatten().map(|d| format!("{:?} {} {:?}", d.render(), d.lines(), d.validate())));
    out
}

fn join(v: &[String]) -> Vec<u8> {
    v.join("\u{1f}").into_bytes()
}
fn split(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).split('\u{1f}').map(|s| s.to_string()).collect()
}

fn env_of(seed: u64) -> Env {
    let mut r = Rng::new(seed);
    Env {
        poison: *r.pick(&[0, 1, 0x55, 0x7b, 0x5c, 0xff]),
        pad: if r.pct(70) { r.next() | 1 } else { 0 },
        hash: r.next(),
        clock: *r.pick(&[0, 1, -1, 1 << 31, (1 << 32) - 5, 4_000_000_000_000, 1_700_000_000_123]),
        clock_step: *r.pick(&[0, 1, 999, 86_400_000, -1000]),
        getenv: r.below(4) as u32,
    }
}
const PLAIN: Env = Env { poison: 0, pad: 0, hash: 7, clock: 1_700_000_000, clock_step: 1000, getenv: 0 };

/// a piece of history between two probes
fn before(s: &Sx, probe_texts: &[String]) -> Option<()> {
    let n = |i: usize| s.at(i).and_then(|x| x.us());
    match s.head()? {
        "program" => {
            let v = ops::ops_from(&s.list()?[1..])?;
            let mut w: World = World::default();
            for op in &v {
                seams::set_limit(1_000_000_000);
                ops::exec(&mut w, op);
            }
        }
        // many calls on always new texts
        "many" => {
            for i in 0..n(2)?.min(200_000) {
                let _ = c07::one_of_many(n(1)?, i, n(3)? as u64);
            }
            engine::count("other calls between probes", n(2)? as u64);
        }
        // one text again and again
        "again" => {
            let t = s.at(2)?.atom()?;
            for i in 0..n(1)?.min(200_000) {
                seams::set_limit(1_000_000_000);
                let _ = seams::lib(|| crate::doc::Doc::load(1 + (i % 3) as u8, t).map(drop));
            }
            engine::count("other calls between probes", n(1)? as u64);
        }
        // texts like those of the probe
        "alike" => {
            let mut r = Rng::new(n(1)? as u64);
            if probe_texts.is_empty() {
                return Some(());
            }
            for _ in 0..n(2)?.min(2000) {
                let t = r.pick(probe_texts).clone();
                let t = alike(&mut r, t);
                let stage = r.range(1, 3) as u8;
                if r.one_in(6) {
                    seams::arm_alloc(r.range(1, 40) as u64);
                }
                engine::note(&format!("between probes: loading {:?} at stage {stage}", engine::clip(&t, 300)));
                seams::set_limit(1_000_000_000);
                let _ = seams::lib(|| {
                    if let Ok(d) = crate::doc::Doc::load(stage, &t) {
                        let _ = d.validate();
                        let _ = d.render();
                        let _ = d.raise();
                    }
                });
                if seams::disarm_alloc() {
                    engine::count("fault:allocation fails, call unwound", 1);
                }
                seams::arm_alloc(0);
            }
            engine::count("look-alikes between probes", n(2)? as u64);
        }
        _ => return None,
    }
    Some(())
}

/// a text of the same length, the same beginning or the same end
fn alike(r: &mut Rng, t: String) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return "x".into();
    }
    match r.below(6) {
        0 => {}
        1 => {
            let i = r.below(c.len());
            c[i] = *r.pick(&['a', 'x', ' ', '\n', '{', '}', '\\', '$', '%']);
        }
        2 => {
            let i = r.below(c.len() + 1);
            c.truncate(i);
        }
        3 => {
            let (i, j) = (r.below(c.len()), r.below(c.len()));
            c.swap(i, j);
        }
        4 => {
            let n = *r.pick(&["\n", "x", "\\a{b}", "}"]);
            c.extend(n.chars());
        }
        _ => {
            let i = r.below(c.len());
            c.drain(..i);
        }
    }
    c.into_iter().collect()
}

fn texts(v: &[Op]) -> Vec<String> {
    v.iter()
        .filter_map(|o| match o {
            Op::Load(_, _, t) | Op::ShowErr(_, t) => Some(t.clone()),
            Op::Open(_, _, d) => Some(d.text()),
            _ => None,
        })
        .collect()
}

fn on_thread<R: Send>(how: u64, f: impl FnOnce() -> R + Send) -> R {
    const NAMES: &[&str] = &["", "main", "worker-1", "tests::a", "tokio-runtime-worker", "a"];
    std::thread::scope(|sc| {
        let mut b = std::thread::Builder::new();
        match NAMES[how as usize % NAMES.len()] {
            "" => {}
            n => b = b.name(n.into()),
        }
        b.stack_size(if how % 5 == 0 { 17 << 20 } else { 64 << 20 })
            .spawn_scoped(sc, f)
            .unwrap_or_else(|_| engine::harness_error("cannot start a thread"))
            .join()
            .unwrap_or_else(|_| engine::panicked())
    })
}

/// `f` called by a destructor while a panic of the caller unwinds
fn unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Late<'a, F: FnOnce() -> R, R>(Option<F>, &'a mut Option<R>);
    impl<F: FnOnce() -> R, R> Drop for Late<'_, F, R> {
        fn drop(&mut self) {
            *self.1 = self.0.take().map(|f| f());
        }
    }
    let mut out = None;
    let late = Late(Some(f), &mut out);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _late = late;
        std::panic::resume_unwind(Box::new(seams::Injected("caller")));
    }));
    out.unwrap_or_else(|| engine::harness_error("the destructor did not run"))
}

/// the probe of a plan in this very process (sim probe: plan on stdin)
pub fn main_probe() -> i32 {
    use std::io::{Read, Write};
    let mut s = String::new();
    if std::io::stdin().read_to_string(&mut s).is_err() {
        return 3;
    }
    let Some(v) = Sx::parse(&s).and_then(|p| p.rest("probe").and_then(ops::ops_from)) else { return 3 };
    let out = on_thread(0, || probe(&v, None));
    if std::io::stdout().write_all(&join(&out)).is_err() {
        return 3;
    }
    0
}

fn executed(plan: &Sx, k: usize) -> Result<Vec<String>, Fail> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let fail = |e: &str| -> Fail { engine::harness_error(&format!("cannot run a fresh process: {e}")) };
    let exe = std::env::current_exe().map_err(|e| fail(&e.to_string()))?;
    let mut c = Command::new(exe);
    c.arg("probe").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if k % 2 == 1 {
        c.current_dir("/").env_clear().env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Pacific/Apia").env("PADDING", "x".repeat(k % 4096));
    }
    let mut p = c.spawn().map_err(|e| fail(&e.to_string()))?;
    p.stdin.take().unwrap().write_all(plan.to_string().as_bytes()).map_err(|e| fail(&e.to_string()))?;
    let o = p.wait_with_output().map_err(|e| fail(&e.to_string()))?;
    if o.status.code() != Some(0) {
        return Err(viol("crash", "the probe killed a fresh process"));
    }
    Ok(split(&o.stdout))
}

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, run: u64, _t: Tier) -> Sx {
        let mut c = if r.pct(50) { Cfg::draw(r) } else { Cfg::small(r) };
        if r.one_in(60) {
            c.big = *r.pick(&[200, 3000]);
            c.width = c.width.min(3);
            c.depth = c.depth.min(2);
        }
        let o = Opts { len: r.range(2, 9), docs: r.range(1, 2), shared: 0, sinks: true, sources: true, texts: true };
        let v = prog::program(r, &c, &o);
        let mut p = vec![a("plan"), ops::ops_sx("probe", &v), sxl![a("env"), a(r.next() >> 1)]];
        let mut between = vec![a("between")];
        for _ in 0..r.range(1, 3) {
            between.push(match r.below(24) {
                0..=6 => {
                    let o = Opts { len: r.range(2, 20), docs: r.range(1, 3), shared: 0, sinks: true, sources: true, texts: true };
                    let v = prog::program(r, &c, &o);
                    ops::ops_sx("program", &v)
                }
                7..=10 => sxl![a("many"), a(r.below(c07::STYLES)), a(*r.pick(&[20, 70, 130, 300, 1100])), a(*r.pick(&[0, 0, 3]))],
                11 => sxl![a("again"), a(*r.pick(&[130, 260, 1030, 4100])), a(gen::soup(r, 4))],
                12 if r.one_in(12) => sxl![a("again"), a(66_000), a(r.pick(&["x", "\\a", "{", "$x$", "\\a{b}"]))],
                12 => sxl![a("again"), a(10), a(c06::damaged(r))],
                _ => sxl![a("alike"), a(r.next() >> 1), a(r.range(1, 40))],
            });
        }
        p.push(Sx::L(between));
        if run % 40 == 7 {
            p.push(sxl![a("exec"), a(r.below(5000))]);
        }
        Sx::L(p)
    }

    fn run(&self, plan: &Sx) -> Run {
        let v = plan.rest("probe").and_then(ops::ops_from).ok_or(Fail::Invalid)?;
        let between = plan.rest("between").ok_or(Fail::Invalid)?;
        let env = plan.field("env").and_then(|s| s.at(1)).and_then(|s| s.us()).unwrap_or(1) as u64;
        let differs = |place: &str, want: &[String], got: &[String]| -> Fail {
            let k = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)).unwrap_or(0);
            let what = v.get(k).map(|o| o.to_sx().to_string()).unwrap_or_else(|| "the documents at the end".into());
            viol(
                "differs",
                format!(
                    "call {k} {}: in a fresh process {:?}, {place} {:?}",
                    engine::clip(&what, 300),
                    engine::clip(want.get(k).map(String::as_str).unwrap_or("nothing"), 500),
                    engine::clip(got.get(k).map(String::as_str).unwrap_or("nothing"), 500)
                ),
            )
        };
        // a fresh process, on the thread it starts with
        let fresh = engine::in_fork(|| {
            seams::set_env(PLAIN);
            let s0 = seams::STEPS.get();
            let r = probe(&v, None);
            engine::count("simulated steps", seams::STEPS.get() - s0);
            join(&r)
        })
        .map(|b| split(&b))
        .ok_or_else(|| viol("crash", "the probe killed a fresh process"))?;
        let mut h = hash(ops::ops_sx("probe", &v).to_string().as_bytes());
        for s in &fresh {
            engine::event(s.as_bytes());
        }
        let texts = texts(&v);
        // this process: other seeds, other memory, a past
        seams::set_env(env_of(env));
        let own = env % 2 == 0;
        let deep = if env % 3 == 0 { Some(env) } else { None };
        let late = env % 7 == 0;
        let here = || {
            if late {
                engine::count("probes while a panic unwinds", 1);
                unwinding(|| probe(&v, deep))
            } else {
                probe(&v, deep)
            }
        };
        let once = || if own { on_thread(env >> 8, here) } else { here() };
        let got = once();
        engine::case(mix(h ^ env));
        if got != fresh {
            return Err(differs("in another environment", &fresh, &got));
        }
        for (k, b) in between.iter().enumerate() {
            before(b, &texts).ok_or(Fail::Invalid)?;
            seams::set_env(env_of(env + k as u64 + 1));
            let got = once();
            h = mix(h ^ hash(b.to_string().as_bytes()));
            engine::case(h);
            if got != fresh {
                return Err(differs("after other calls", &fresh, &got));
            }
            engine::count("environments changed", 1);
        }
        if let Some(k) = plan.field("exec").and_then(|s| s.at(1)).and_then(|s| s.us()) {
            let got = executed(plan, k)?;
            engine::count("newly executed processes", 1);
            engine::case(mix(h ^ 0xe8ec));
            if got != fresh {
                return Err(differs("in a newly executed process", &fresh, &got));
            }
        }
        engine::count("environment seams used by the library", seams::SEAM_HITS.load(std::sync::atomic::Ordering::Relaxed));
        engine::count("accesses to writable statics", seams::STATIC_HITS.load(std::sync::atomic::Ordering::Relaxed));
        Ok(())
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one probe program run in a changed environment or after one more piece of history, all its results compared with those of a fresh process; distinct by (probe, environment, history)"
    }
    fn components(&self) -> &'static str {
        "real: all of latex_ast built from /repo; simulated: hash seeds, clock, environment variables, memory contents and placement, which thread, what was called before; a sample in newly executed processes"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the library reaches clocks, randomness and the environment only through libc (it has no dependencies)"]
    }
}
