//! C03: concurrent callers get the results they would get alone.
//!
//! A run has 2-4 client threads with programs of their own and shared
//! read-only documents.  Every client first runs alone in a forked process
//! (a fresh library), then all run together: real threads of which the
//! scheduler lets exactly one run between two basic blocks of the library.
//! Clients may stall for ever at a block or be unwound by a failing
//! allocation or a panicking output.

use crate::doc::{self, Doc};
use crate::engine::{self, Check, Fail, Run, Tier};
use crate::gen::Cfg;
use crate::node::Doc3;
use crate::ops::{self, Op, World};
use crate::prog::{self, Opts};
use crate::rng::{hash, mix, Rng};
use crate::seams;
use crate::sx::{a, Sx};
use crate::sxl;

pub struct C03;

struct Plan {
    shared: Vec<(u8, Doc3)>,
    clients: Vec<Vec<Op>>,
    /// (client, op, k): the k-th allocation of that call fails
    fails: Vec<(usize, usize, u64)>,
    /// (client, part of its steps in 1/10000)
    stalls: Vec<(usize, u64)>,
    first: usize,
    switches: Option<Vec<(u64, usize)>>,
    style: usize,
    seed: u64,
}

fn parse(p: &Sx) -> Option<Plan> {
    let clients = p
        .list()?
        .iter()
        .filter(|x| x.head() == Some("client"))
        .map(|x| ops::ops_from(&x.list()?[1..]))
        .collect::<Option<Vec<_>>>()?;
    if clients.is_empty() || clients.len() > 4 {
        return None;
    }
    let nums = |s: &Sx| s.list()?[1..].iter().map(|x| x.int()).collect::<Option<Vec<_>>>();
    let all = |name: &str, n: usize| -> Option<Vec<Vec<i64>>> {
        let mut v = Vec::new();
        for x in p.list()?.iter().filter(|x| x.head() == Some(name)) {
            let y = nums(x)?;
            if y.len() != n {
                return None;
            }
            v.push(y);
        }
        Some(v)
    };
    Some(Plan {
        shared: p
            .rest("shared")
            .unwrap_or(&[])
            .iter()
            .map(|x| Some((x.at(0)?.us()?.clamp(1, 3) as u8, Doc3::from_sx(x.at(1)?)?)))
            .collect::<Option<Vec<_>>>()?,
        fails: all("fail", 3)?.iter().map(|v| (v[0] as usize, v[1] as usize, v[2] as u64)).collect(),
        stalls: all("stall", 2)?.iter().map(|v| (v[0] as usize, v[1] as u64)).collect(),
        first: p.field("first").and_then(|f| f.at(1)).and_then(|f| f.us()).unwrap_or(0),
        switches: match p.rest("switches") {
            None => None,
            Some(v) => Some(
                v.iter()
                    .map(|x| Some((x.at(0)?.us()? as u64, x.at(1)?.us()?)))
                    .collect::<Option<Vec<_>>>()?,
            ),
        },
        style: p.field("sched").and_then(|s| s.at(1)).and_then(|s| s.us()).unwrap_or(0),
        seed: p.field("sched").and_then(|s| s.at(2)).and_then(|s| s.us()).unwrap_or(0) as u64,
        clients,
    })
}

/// the whole observable history of one client
fn client(ops: &[Op], shared: &[Doc], fails: &[(usize, u64)], me: usize) -> Vec<String> {
    let mut w = World { slots: Default::default(), shared };
    let mut out = Vec::new();
    for (k, op) in ops.iter().enumerate() {
        engine::note(&format!("client {me}, call {k}: {}", engine::clip(&op.to_sx().to_string(), 300)));
        if let Some((_, n)) = fails.iter().find(|f| f.0 == k) {
            seams::arm_alloc(*n);
        }
        let r = ops::exec(&mut w, op);
        if seams::disarm_alloc() {
            engine::count("fault:allocation fails, caller unwound", 1);
        }
        seams::arm_alloc(0);
        out.push(r.map(|r| r.text()).unwrap_or_else(|| "-".into()));
    }
    out.extend(w.dump());
    out
}

fn alone(p: &Plan, i: usize) -> Option<(u64, Vec<u64>, Vec<String>)> {
    let fails: Vec<(usize, u64)> = p.fails.iter().filter(|f| f.0 == i).map(|f| (f.1, f.2)).collect();
    let bytes = engine::in_fork(|| {
        let shared: Vec<Doc> = p.shared.iter().map(|(s, d)| doc::build(*s, d)).collect();
        seams::set_limit(1_000_000_000);
        seams::record_static_positions(true);
        let s0 = seams::STEPS.get();
        seams::STATIC_POS.with(|v| v.borrow_mut().clear());
        let r = client(&p.clients[i], &shared, &fails, i);
        let n = seams::STEPS.get() - s0;
        let pos = seams::STATIC_POS.with(|v| v.borrow().iter().map(|x| (x - s0).to_string()).collect::<Vec<_>>());
        format!("{n}\u{1e}{}\u{1e}{}", pos.join(" "), r.join("\u{1f}")).into_bytes()
    })?;
    let s = String::from_utf8(bytes).ok()?;
    let mut it = s.splitn(3, '\u{1e}');
    let n = it.next()?.parse().ok()?;
    let pos = it.next()?.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let r = it.next()?.split('\u{1f}').map(|x| x.to_string()).collect();
    Some((n, pos, r))
}

/// turns the style and seed of a plan into switch points
fn expand(style: usize, seed: u64, steps: &[u64], pos: &[Vec<u64>]) -> Vec<(u64, usize)> {
    let mut r = Rng::new(seed);
    let n = steps.len();
    let total: u64 = steps.iter().sum::<u64>().max(2);
    let mut v = Vec::new();
    let at = |r: &mut Rng, mut points: Vec<u64>| {
        points.sort_unstable();
        let mut last = 0;
        points
            .into_iter()
            .map(|p| {
                let d = p - last;
                last = p;
                (d.max(1), r.below(n))
            })
            .collect::<Vec<_>>()
    };
    if pos.iter().any(|p| !p.is_empty()) && style % 2 == 1 {
        // stop the clients right around their accesses to writable statics
        let mut done = vec![0u64; n];
        let mut cur = r.below(n);
        for _ in 0..r.range(4, 60) {
            let next = pos[cur].iter().copied().filter(|p| *p >= done[cur]).nth(r.below(3));
            let to = match next {
                Some(p) => p + r.below(4) as u64,
                None => done[cur] + 1 + r.below(200) as u64,
            };
            let d = to.saturating_sub(done[cur]).max(1);
            done[cur] += d;
            cur = r.below(n);
            v.push((d, cur));
        }
        return v;
    }
    match style % 5 {
        0 => {
            let k = r.range(1, 12);
            let pts = (0..k).map(|_| r.next() % total).collect();
            v = at(&mut r, pts);
        }
        1 => {
            let k = r.range(10, 80);
            let pts = (0..k).map(|_| r.next() % total).collect();
            v = at(&mut r, pts);
        }
        2 => {
            // a burst in a small window
            let c = r.next() % total;
            let w = 1 + r.next() % (total / 4 + 1).min(2000);
            let k = r.range(4, 40);
            let pts = (0..k).map(|_| c + r.next() % w).collect();
            v = at(&mut r, pts);
        }
        3 => {
            // fine grained
            let m = *r.pick(&[1, 2, 3, 7, 30, 200]);
            let k = r.range(50, 600);
            for i in 0..k {
                v.push((1 + r.below(m) as u64, i % n));
            }
        }
        _ => {
            // one client runs up to a point, the others to their ends
            let t = r.next() % steps[0].max(1) + 1;
            v.push((t, r.range(0, n - 1)));
            for _ in 0..r.range(0, 3) {
                v.push((1 + r.next() % total, r.below(n)));
            }
        }
    }
    v
}

/// asked at compile time, answered at run time
struct Can<T>(std::marker::PhantomData<T>);
impl<T: Send + Sync> Can<T> {
    fn be_shared(&self) -> bool {
        true
    }
}
trait Otherwise {
    fn be_shared(&self) -> bool;
}
impl<T> Otherwise for &Can<T> {
    fn be_shared(&self) -> bool {
        false
    }
}

fn shareable() -> Vec<(&'static str, bool)> {
    macro_rules! of {
        ($($t:ty),* $(,)?) => { vec![$((stringify!($t), (&Can(std::marker::PhantomData::<$t>)).be_shared())),*] };
    }
    use latex_ast::{ast1, ast2, ast3};
    of![
        ast1::Document,
        ast1::Chunk,
        ast1::ChunkVariant,
        ast1::Command,
        ast1::Scope,
        ast2::Document,
        ast2::Chunk,
        ast2::ChunkVariant,
        ast2::Command,
        ast2::Scope,
        ast2::Environment,
        ast3::Document,
        ast3::Chunk,
        ast3::ChunkVariant,
        ast3::Command,
        ast3::Scope,
        ast3::Environment,
        ast3::MathsBlock,
        latex_ast::Error,
        latex_ast::InternalError,
    ]
}

impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 16_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, _t: Tier) -> Sx {
        let mut c = Cfg::small(r);
        if r.one_in(80) {
            c.big = *r.pick(&[300, 3000]);
        }
        // all clients work on deeply nested documents at the same time
        c.deep = if r.one_in(30) { *r.pick(&[20, 40, 70, 100]) } else { 0 };
        let n = r.range(2, 4);
        let mut p = vec![a("plan")];
        let shared = if r.pct(55) { r.range(1, 2) } else { 0 };
        let mut sh = vec![a("shared")];
        for _ in 0..shared {
            sh.push(sxl![a(r.range(1, 3)), crate::gen::doc3(r, &c).to_sx()]);
        }
        p.push(Sx::L(sh));
        // often all clients run the same program
        let same = r.pct(35);
        let mut first: Option<Vec<Op>> = None;
        let mut progs = Vec::new();
        for _ in 0..n {
            let o = Opts {
                len: r.range(1, 9),
                docs: if shared > 0 && r.pct(30) { 0 } else { r.range(1, 2) },
                shared,
                sinks: true,
                sources: true,
                texts: false,
            };
            let v = match (&first, same) {
                (Some(f), true) => f.clone(),
                _ => prog::program(r, &c, &o),
            };
            first.get_or_insert_with(|| v.clone());
            progs.push(v);
        }
        for v in &progs {
            p.push(ops::ops_sx("client", v));
        }
        if r.pct(40) {
            for _ in 0..r.range(1, 3) {
                let i = r.below(n);
                p.push(sxl![a("fail"), a(i), a(r.below(progs[i].len())), a(r.range(1, 40))]);
            }
        }
        if r.pct(40) {
            p.push(sxl![a("stall"), a(r.below(n)), a(r.below(10_000))]);
            if n > 2 && r.pct(30) {
                p.push(sxl![a("stall"), a(r.below(n)), a(r.below(10_000))]);
            }
        }
        p.push(sxl![a("first"), a(r.below(n))]);
        p.push(sxl![a("sched"), a(r.below(10)), a(r.next() >> 1)]);
        Sx::L(p)
    }

    fn run(&self, plan: &Sx) -> Run {
        let p = parse(plan).ok_or(Fail::Invalid)?;
        let n = p.clients.len();
        for (name, can) in shareable() {
            crate::ensure!(can, "not-shareable", "values of {name} can not be used by several threads: it is not Send and Sync");
        }
        let mut solo = Vec::new();
        for i in 0..n {
            match alone(&p, i) {
                Some(x) => solo.push(x),
                None => return Err(engine::viol("crash", format!("client {i} running alone killed its process"))),
            }
        }
        let steps: Vec<u64> = solo.iter().map(|s| s.0).collect();
        let pos: Vec<Vec<u64>> = solo.iter().map(|s| s.1.clone()).collect();
        engine::count("static accesses alone", pos.iter().map(|p| p.len() as u64).sum());
        let explicit = p.switches.is_some();
        let switches = p.switches.clone().unwrap_or_else(|| expand(p.style, p.seed, &steps, &pos));
        let mut stalls = vec![None; n];
        for (i, at) in &p.stalls {
            if *i < n {
                stalls[*i] = Some(steps[*i] * at / 10_000 + 1);
            }
        }
        let shared: Vec<Doc> = p.shared.iter().map(|(s, d)| doc::build(*s, d)).collect();
        let limits: Vec<u64> = steps.iter().map(|s| s * 4 + 200_000).collect();
        // what to report should the run end inside the library
        let full = |sw: &[(u64, usize)]| {
            let mut v: Vec<Sx> = plan.list().unwrap().iter().filter(|x| !matches!(x.head(), Some("sched" | "switches"))).cloned().collect();
            v.push(Sx::L(
                std::iter::once(a("switches")).chain(sw.iter().map(|(d, t)| sxl![a(d), a(t)])).collect(),
            ));
            Sx::L(v)
        };
        if !explicit {
            engine::candidate(&full(&switches));
        }
        let results: Vec<std::sync::Mutex<Vec<String>>> = (0..n).map(|_| Default::default()).collect();
        let mut fs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for i in 0..n {
            let fails: Vec<(usize, u64)> = p.fails.iter().filter(|f| f.0 == i).map(|f| (f.1, f.2)).collect();
            let (ops, shared, out) = (&p.clients[i], &shared, &results[i]);
            let shared = seams::Anywhere::new(shared);
            fs.push(Box::new(move || {
                let r = client(ops, shared.get(), &fails, i);
                *out.lock().unwrap() = r;
            }));
        }
        let rep = seams::run_threads(fs, p.first % n, &switches, &stalls, &limits);
        let mut sig = Vec::new();
        for (f, t, g) in &rep.log {
            sig.extend_from_slice(&[*f, *t]);
            sig.extend_from_slice(&g.to_le_bytes());
        }
        engine::event(&sig);
        engine::count("simulated steps", rep.gstep + steps.iter().sum::<u64>());
        engine::count("context switches", rep.log.len() as u64);
        engine::count("fault:caller stalled inside a call", rep.stalls);
        for i in 0..n {
            let got = results[i].lock().unwrap();
            for s in got.iter() {
                engine::event(s.as_bytes());
            }
            if *got != solo[i].2 {
                let k = (0..got.len()).find(|k| Some(&got[*k]) != solo[i].2.get(*k)).unwrap_or(0);
                let what = p.clients[i].get(k).map(|o| o.to_sx().to_string()).unwrap_or_else(|| "final documents".into());
                return Err(Fail::Violation {
                    class: "differs".into(),
                    msg: format!(
                        "client {i}, call {k} {}: alone {:?}, concurrently {:?}; switches performed (from,to,at): {:?}",
                        engine::clip(&what, 300),
                        engine::clip(solo[i].2.get(k).map(String::as_str).unwrap_or(""), 500),
                        engine::clip(&got[k], 500),
                        &rep.log[..rep.log.len().min(20)]
                    ),
                    refined: Some(full(&switches)),
                });
            }
        }
        let h = mix(hash(plan.to_string().as_bytes()) ^ hash(&sig));
        let inside = rep.log.iter().filter(|l| l.2 > 0).count();
        engine::state(h);
        if inside >= 1 && rep.log.len() >= n {
            engine::case(h);
        } else {
            engine::trivial_case();
        }
        Ok(())
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one set of client programs under one schedule; it counts as non-trivial when at least as many switches as clients were performed; distinct by (programs, performed switches)"
    }
    fn components(&self) -> &'static str {
        "real: all of latex_ast built from /repo on real threads; simulated: which thread runs between two basic blocks, stalls, failing allocations, outputs, chunk sources, futex waits, sleeps"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "one thread runs at a time (sequential consistency; the library is free of unsafe code and atomics)",
            "switch points are the basic blocks of the library and its accesses to writable statics",
        ]
    }
}
