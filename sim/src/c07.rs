//! C07: work and memory per call stay within the documented quadratic bound.
//!
//! Cost is counted inside the simulator, not timed: basic blocks executed in
//! the library, bytes it asked the allocator for, and the most it held at
//! once.  Four kinds of runs: histories with faults (every call has a
//! budget), concurrent histories with stalled callers, growing texts (the
//! cost of doubling the text), and long histories of always new texts (the
//! cost of the same call after 1x, 2x, 4x as many of them).

use crate::c06;
use crate::doc::Doc;
use crate::engine::{self, viol, Check, Fail, Run, Tier};
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::node;
use crate::ops::{self, Op, World};
use crate::prog::{self, Opts};
use crate::rng::{hash, mix, Rng};
use crate::seams::{self, lib, Caught};
use crate::sx::{a, Sx};
use crate::sxl;
use std::sync::atomic::Ordering::Relaxed;

pub struct C07;

#[derive(Clone, Copy, Default, Debug)]
pub struct Cost {
    pub steps: u64,
    /// bytes allocated in all, each costs the time to fill it
    pub alloc: u64,
    pub peak: u64,
}

/// what a call costs
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Cost) {
    let (s, b, live) = (seams::STEPS.get(), seams::ALLOC_BYTES.get(), seams::LIVE_BYTES.load(Relaxed));
    seams::PEAK_BYTES.store(live, Relaxed);
    let r = f();
    let c = Cost {
        steps: seams::STEPS.get() - s,
        alloc: seams::ALLOC_BYTES.get() - b,
        peak: (seams::PEAK_BYTES.load(Relaxed) - live).max(0) as u64,
    };
    (r, c)
}

/// the fixed multiples; the most seen is in the evidence
const STEPS: u64 = 80;
const ALLOC: u64 = 200;
const PEAK: u64 = 120;
/// part of every size: a call on nothing costs something too
const BASE: u64 = 40;

fn square(n: usize) -> u64 {
    let m = n as u64 + BASE;
    m * m
}

fn within(what: &str, n: usize, c: Cost) -> Run {
    let q = square(n);
    for (name, v, k) in [("execution steps", c.steps, STEPS), ("bytes allocated", c.alloc, ALLOC), ("bytes held", c.peak, PEAK)] {
        engine::maximum(&format!("% of the budget of {name}"), v * 100 / (q * k));
        ensure!(v <= q * k, "bound", "{what}: {v} {name} for {n} bytes of text, more than {k} times the square");
    }
    Ok(())
}

fn docs_len(w: &World) -> Vec<usize> {
    w.slots.iter().map(|d| d.as_ref().map(|d| d.render().len()).unwrap_or(0)).collect()
}

/// an upper bound of the text an operation works on
fn size(op: &Op, w: &World) -> usize {
    let text = |ns: &[node::Node]| node::render(ns).len();
    let len = |i: &usize| w.get(*i).map(|d| d.render().len()).unwrap_or(0);
    match op {
        Op::Load(_, _, t) | Op::ShowErr(_, t) => t.len(),
        Op::Open(_, _, d) | Op::Make(_, _, _, d) => d.text().len(),
        Op::Push(i, _, _, n, _) => len(i) + text(std::slice::from_ref(n)),
        Op::Into(i, v, _) => len(i) + v.iter().map(|x| text(std::slice::from_ref(&x.1))).sum::<usize>(),
        Op::IntoLib(i, n) => len(i) + text(std::slice::from_ref(n)),
        Op::Clone(d, i) | Op::Eq(d, i) => len(d) + len(i),
        Op::Ctor(_, n) => text(std::slice::from_ref(n)),
        Op::Drop(i) | Op::Raise(i) | Op::Lower(i) | Op::Render(i, _) | Op::Lines(i) | Op::Validate(i) | Op::Debug(i)
        | Op::Parts(i) | Op::Rebuild(i) | Op::Class(i) => len(i),
    }
}

/// one caller's history; every call has its budget
fn history(v: &[Op], fails: &[(usize, u64)], me: usize, alone: bool) -> Run {
    let mut w: World = World::default();
    for (k, op) in v.iter().enumerate() {
        let text = op.to_sx().to_string();
        let what = format!("caller {me}, call {k} {}", engine::clip(&text, 300));
        engine::note(&what);
        let n = size(op, &w);
        if let Some((_, k)) = fails.iter().find(|f| f.0 == k) {
            seams::arm_alloc(*k);
        }
        seams::set_limit(square(n) * STEPS + 1);
        let (r, c) = measure(|| ops::exec(&mut w, op));
        seams::set_limit(u64::MAX / 2);
        if seams::disarm_alloc() {
            engine::count("fault:allocation fails, call unwound", 1);
        }
        seams::arm_alloc(0);
        let Some(_) = r else { continue };
        let c = if alone { c } else { Cost { peak: 0, ..c } };
        within(&what, n, c)?;
        engine::case(mix(hash(text.as_bytes()) ^ n as u64));
        // nothing grows without bound either
        let total: usize = docs_len(&w).iter().sum();
        if total > 400_000 {
            break;
        }
    }
    Ok(())
}

// --------------------------------------------------------------- doubling

const PAIRS: &[(&str, &str)] = &[
    ("{", "}"),
    ("[", "]"),
    ("(", ")"),
    ("\\a{", "}"),
    ("\\b[", "]"),
    ("\\c(", ")"),
    ("\\a{x}[", "]"),
    ("\\begin{a}", "\\end{a}"),
    ("\\begin{bb}{y}", "\\end{bb}"),
    ("\\begin{c}[", "]\\end{c}"),
    ("\\begin\n{d}\n{", "}\\end {d}"),
    ("\\(", "\\)"),
    ("\\[", "\\]"),
    ("$", "$"),
    ("$$", "$$"),
    ("\\begin{document}", "\\end{document}"),
    ("{", ""),
    ("", "}"),
    ("\\begin{a}", ""),
    ("\\a{", ""),
    ("", "\\end{a}"),
];

struct Grow {
    head: String,
    open: String,
    mid: String,
    close: String,
    tail: String,
}

impl Grow {
    fn text(&self, n: usize) -> String {
        format!("{}{}{}{}{}", self.head, self.open.repeat(n), self.mid, self.close.repeat(n), self.tail)
    }
}

fn grow(r: &mut Rng) -> Grow {
    let tok = |r: &mut Rng, p: usize| {
        if r.pct(p) {
            r.pick(gen::TOKENS).to_string()
        } else {
            String::new()
        }
    };
    let mut g = Grow {
        head: tok(r, 25),
        open: String::new(),
        mid: tok(r, 60),
        close: String::new(),
        tail: tok(r, 25),
    };
    for _ in 0..r.range(0, 3) {
        let (o, c) = r.pick(PAIRS);
        g.open.push_str(o);
        let t = tok(r, 25);
        g.open.push_str(&t);
        g.close = format!("{}{c}{}", tok(r, 15), g.close);
    }
    if g.open.is_empty() && g.close.is_empty() || r.pct(25) {
        // flat
        g.mid = tok(r, 40);
        for _ in 0..r.range(1, 4) {
            let t = tok(r, 100);
            g.open.push_str(&t);
        }
        if r.pct(60) {
            g.close = String::new();
        }
    }
    if r.pct(15) {
        g.head.insert_str(0, "\\documentclass{a}\\begin{document}");
        g.tail.push_str("\\end{document}");
    }
    g
}

const MEASURED: &[&str] = &["load", "validate", "lines", "render", "clone", "eq", "push", "raise", "lower"];

/// the cost of every call on one text at one stage
fn costs(stage: u8, text: &str) -> Result<Vec<Option<Cost>>, Fail> {
    fn go<R>(what: &str, n: usize, out: &mut Vec<Option<Cost>>, f: impl FnOnce() -> R) -> Result<Option<R>, Fail> {
        engine::note(&format!("{what} of a text of {n} bytes"));
        seams::set_limit(square(n) * STEPS + 1);
        let (r, c) = measure(|| lib(f));
        seams::set_limit(u64::MAX / 2);
        match r {
            Ok(r) => {
                within(what, n, c)?;
                out.push(Some(c));
                Ok(Some(r))
            }
            Err(Caught::Panic(m)) => Err(viol("panic", format!("{what} panicked: {m}"))),
            Err(Caught::Injected(_)) => {
                out.push(None);
                Ok(None)
            }
        }
    }
    let n = text.len();
    let mut v = Vec::new();
    let d = go("load", n, &mut v, || Doc::load(stage, text))?;
    if let Some(Ok(d)) = d {
        go("validate", n, &mut v, || d.validate())?;
        go("lines", n, &mut v, || d.lines())?;
        go("render", n, &mut v, || d.render())?;
        let mut b = go("clone", n, &mut v, || d.clone())?.unwrap();
        go("eq", n, &mut v, || d.same(&b))?;
        go("push", n, &mut v, || ops::push(&mut b, 0, ops::How::Variant, &node::Node::Text("x".into()), 1))?;
        drop(b);
        let b = d.clone();
        go("raise", n, &mut v, || b.raise())?;
        go("lower", n, &mut v, || d.lower())?;
    }
    Ok(v)
}

fn doubling(g: &Grow, n: usize, stage: u8) -> Run {
    let mut rows = Vec::new();
    let mut lens = Vec::new();
    for m in [n, 2 * n, 4 * n, 8 * n] {
        let t = g.text(m);
        lens.push(t.len());
        let c = costs(stage, &t)?;
        engine::case(mix(hash(t.as_bytes()) ^ stage as u64));
        rows.push(c);
    }
    // the text must really double for the ratios to mean anything
    if lens[3] * 10 > lens[2] * 21 || lens[2] * 10 > lens[1] * 21 {
        return Ok(());
    }
    for (k, what) in MEASURED.iter().enumerate() {
        let Some(v) = rows.iter().map(|r| r.get(k).copied().flatten()).collect::<Option<Vec<_>>>() else { continue };
    for (name, f) in [("execution steps", (|c: &Cost| c.steps) as fn(&Cost) -> u64), ("bytes allocated", |c: &Cost| c.alloc)] {
            let x: Vec<u64> = v.iter().map(f).collect();
            let (a, b) = (x[2] as f64 / x[1].max(1) as f64, x[3] as f64 / x[2].max(1) as f64);
            engine::maximum(&format!("last doubling x100, {name}"), (b * 100.0) as u64);
            ensure!(
                !(b > 5.2 && a > 4.6 && x[3] > 100_000),
                "growth",
                "stage {stage} {what}: {name} {x:?} for texts of {lens:?} bytes, more than the square"
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------- long histories

pub const STYLES: usize = 20;

/// a text of its own for each number; the last style mixes all others
pub fn fresh(style: usize, i: usize) -> String {
    match style % STYLES {
        0 => format!("\\cmd{i}{{a{i}}} text {i}\n"),
        1 => format!("\\begin{{env{i}}}x{i}\\end{{env{i}}}"),
        2 => format!("$m{i}$ \\(n{i}\\)\n\n"),
        3 => format!("{{unclosed{i}"),
        4 => format!("\\documentclass[k{i}=v{i}]{{c{i}}}\\begin{{document}}b{i}\\end{{document}}"),
        5 => format!("\\begin{{wrong{i}}}\\end{{other{i}}}{}", "\n".repeat(i % 7)),
        6 => format!("a{i}\n\\begin{{open{i}}} b"),
        7 => format!("\\open{i}[b{i}"),
        8 => format!("\\early{i}}} b{i}"),
        9 => format!("c{i} \\begin [l{i}]"),
        10 => format!("\\begin{{e{i}}}\\end{{e{i}}}{{more{i}}}"),
        11 => format!("\\documentclass{{a{i}}}{{b{i}}}"),
        12 => format!("\\documentclass{{a{i}}}\\documentclass{{b{i}}}"),
        13 => format!("m{i} \\) n{i}"),
        14 => format!("m{i} $$ n{i}"),
        15 => format!("m{i} \\[ n{i} {{}}"),
        16 => format!("p{i}{}q{i}", "\n".repeat(2 + i % 300)),
        17 => format!("\\begin{{document}}x{i}\\begin{{t{i}}}[o{i}]$y{i}$\\end{{t{i}}}\\end{{document}}z{i}"),
        18 => format!("{}d{i}{}", "{[(".repeat(i % 9), ")]}".repeat(i % 9)),
        _ => fresh(i * 7 % (STYLES - 1), i),
    }
}

/// a load, an edit and a conversion of a text never seen before
pub fn one_of_many(style: usize, done: usize, fails: u64) -> Run {
    let t = fresh(style, done);
    let stage = 1 + (done % 3) as u8;
    if fails > 0 && done as u64 % fails == 0 {
        seams::arm_alloc(1 + done as u64 % 17);
    }
    engine::note(&format!("call {done} of a long history: {t:?}"));
    seams::set_limit(square(t.len()) * STEPS * 3 + 1);
    let r = lib(|| {
        if let Ok(mut d) = Doc::load(stage, &t) {
            let _ = ops_push(&mut d, done);
            let _ = d.validate();
            let _ = d.render();
            let d = d.raise();
            drop(d)
        }
    });
    if seams::disarm_alloc() {
        engine::count("fault:allocation fails, call unwound", 1);
    }
    seams::arm_alloc(0);
    if let Err(Caught::Panic(m)) = r {
        return Err(viol("panic", format!("{t:?}: {m}")));
    }
    Ok(())
}

/// `probe` is loaded after each part of the history, or, without one, a text
/// never seen before
fn aging(style: usize, unit: usize, probe: &str, fails: u64) -> Run {
    let mut at = Vec::new();
    let mut done = 0;
    for (j, target) in [0, unit, 2 * unit, 4 * unit, 8 * unit].into_iter().enumerate() {
        while done < target {
            one_of_many(style, done, fails)?;
            done += 1;
        }
        let new;
        let probe = if probe.is_empty() {
            // of the same shape each time
            new = fresh(style, 7_000_001 + j * 119_700);
            &new
        } else {
            probe
        };
        let mut all = Cost::default();
        for stage in 1..=3 {
            for c in costs(stage, probe)?.into_iter().flatten() {
                all.steps += c.steps;
                all.alloc += c.alloc;
            }
        }
        at.push(all);
        engine::case(mix(hash(probe.as_bytes()) ^ mix(style as u64 ^ (done as u64) << 8)));
    }
    for (name, f) in [("execution steps", (|c: &Cost| c.steps) as fn(&Cost) -> u64), ("bytes allocated", |c: &Cost| c.alloc)] {
        let x: Vec<u64> = at.iter().map(f).collect();
        let d = |i: usize| x[i + 1].saturating_sub(x[i]);
        ensure!(
            !(d(3) * 10 > d(2) * 15 && d(2) * 10 > d(1) * 15 && d(1) > 0 && x[4] > x[0] + x[0] / 4 + 500),
            "aging",
            "{name} of the same calls after 0, {unit}, {}, {} and {} other calls: {x:?}; they grow with the history",
            2 * unit,
            4 * unit,
            8 * unit
        );
    }
    Ok(())
}

fn ops_push(d: &mut Doc, i: usize) -> Result<(), latex_ast::InternalError> {
    match d {
        Doc::D1(d) => d.push(latex_ast::ast1::ChunkVariant::Text(format!("t{i}"))),
        Doc::D2(d) => d.push(latex_ast::ast2::ChunkVariant::Text(format!("t{i}"))),
        Doc::D3(d) => d.push_trailing(latex_ast::ast3::ChunkVariant::Text(format!("t{i}"))),
    }
}

impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 5_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, t: Tier) -> Sx {
        match r.below(20) {
            0..=7 => {
                let g = grow(r);
                let per = g.text(2).len() - g.text(1).len();
                let want = match (t, r.below(40)) {
                    (_, 0) => 5000,
                    (Tier::Thorough, 1..=4) => 6000,
                    _ => 1600,
                };
                let n = (want / 8 / per.max(1)).clamp(2, 100);
                sxl![
                    a("plan"),
                    sxl![a("grow"), a(r.range(1, 3)), a(n), a(&g.head), a(&g.open), a(&g.mid), a(&g.close), a(&g.tail)]
                ]
            }
            8 => {
                let style = r.below(STYLES);
                let probe = match r.below(3) {
                    0 => gen::soup(r, 12),
                    1 => gen::source_text(r),
                    _ => String::new(),
                };
                sxl![
                    a("plan"),
                    sxl![a("aging"), a(style), a(*r.pick(&[40, 100, 250])), a(probe), a(*r.pick(&[0, 0, 3, 11]))]
                ]
            }
            9..=11 => {
                let mut p = vec![a("plan")];
                let n = r.range(2, 4);
                let c = Cfg::small(r);
                let mut len = Vec::new();
                for _ in 0..n {
                    let o = Opts { len: r.range(2, 8), docs: r.range(1, 2), shared: 0, sinks: true, sources: true, texts: true };
                    let v = prog::program(r, &c, &o);
                    len.push(v.len());
                    p.push(ops::ops_sx("client", &v));
                }
                for i in 0..n {
                    if r.pct(40) {
                        p.push(sxl![a("fail"), a(i), a(r.below(len[i])), a(r.range(1, 40))]);
                    }
                }
                p.push(sxl![a("stall"), a(r.below(n)), a(r.below(*r.clone().pick(&[300, 3000, 60_000])))]);
                p.push(sxl![a("sched"), a(r.next() >> 1), a(*r.pick(&[3, 40, 1000, 20_000]))]);
                Sx::L(p)
            }
            _ => {
                let mut c = if r.pct(60) { Cfg::draw(r) } else { Cfg::small(r) };
                if r.one_in(25) {
                    c.big = *r.pick(&[200, 1500, 6000]);
                    c.width = c.width.min(3);
                    c.depth = c.depth.min(2);
                }
                let o = Opts { len: r.range(3, 14), docs: r.range(1, 3), shared: 0, sinks: true, sources: true, texts: true };
                let mut v = prog::program(r, &c, &o);
                for op in v.iter_mut() {
                    if let Op::Load(_, _, t) = op {
                        if r.pct(50) {
                            *t = c06::damaged(r);
                        }
                    }
                }
                let mut p = vec![a("plan"), ops::ops_sx("client", &v)];
                for _ in 0..r.range(0, 3) {
                    p.push(sxl![a("fail"), a(0), a(r.below(v.len())), a(r.range(1, 60))]);
                }
                Sx::L(p)
            }
        }
    }

    fn run(&self, plan: &Sx) -> Run {
        let s0 = seams::STEPS.get();
        if let Some(g) = plan.rest("grow") {
            let t = |i: usize| g.get(i).and_then(|s| s.atom()).map(|s| s.to_string()).ok_or(Fail::Invalid);
            let n = |i: usize| g.get(i).and_then(|s| s.us()).ok_or(Fail::Invalid);
            let (stage, m) = (n(0)?.clamp(1, 3) as u8, n(1)?.clamp(1, 120));
            let g = Grow { head: t(2)?, open: t(3)?, mid: t(4)?, close: t(5)?, tail: t(6)? };
            engine::count("texts doubled three times", 1);
            doubling(&g, m, stage)?;
            engine::event(&seams::STEPS.get().to_le_bytes());
            engine::count("simulated steps", seams::STEPS.get() - s0);
            return Ok(());
        }
        if let Some(g) = plan.rest("aging") {
            let n = |i: usize| g.get(i).and_then(|s| s.us()).ok_or(Fail::Invalid);
            let probe = g.get(2).and_then(|s| s.atom()).ok_or(Fail::Invalid)?;
            engine::count("long histories", 1);
            aging(n(0)?, n(1)?.clamp(1, 2000), probe, n(3)? as u64)?;
            engine::event(&seams::STEPS.get().to_le_bytes());
            engine::count("simulated steps", seams::STEPS.get() - s0);
            return Ok(());
        }
        let clients = plan
            .list()
            .ok_or(Fail::Invalid)?
            .iter()
            .filter(|x| x.head() == Some("client"))
            .map(|x| ops::ops_from(&x.list()?[1..]))
            .collect::<Option<Vec<_>>>()
            .ok_or(Fail::Invalid)?;
        let fails = |i: usize| -> Vec<(usize, u64)> {
            plan.list()
                .unwrap()
                .iter()
                .filter(|x| x.head() == Some("fail") && x.at(1).and_then(|s| s.us()) == Some(i))
                .filter_map(|x| Some((x.at(2)?.us()?, x.at(3)?.us()? as u64)))
                .collect()
        };
        // calls from inside a call would count as work of the outer one
        let clients: Vec<Vec<Op>> = clients
            .into_iter()
            .map(|v| {
                v.into_iter()
                    .map(|op| match op {
                        Op::Render(i, crate::sink::Spec::Nested(_)) => Op::Render(i, crate::sink::Spec::Good),
                        Op::Into(i, v, ops::Src::Nested(_)) => Op::Into(i, v, ops::Src::Calm),
                        op => op,
                    })
                    .collect()
            })
            .collect();
        match clients.len() {
            1 => {
                history(&clients[0], &fails(0), 0, true)?;
                engine::event(&seams::STEPS.get().to_le_bytes());
                engine::count("simulated steps", seams::STEPS.get() - s0);
            }
            n @ 2..=4 => {
                let results: Vec<std::sync::Mutex<Run>> = (0..n).map(|_| std::sync::Mutex::new(Ok(()))).collect();
                let mut fs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
                for i in 0..n {
                    let (ops, f, out) = (&clients[i], fails(i), &results[i]);
                    fs.push(Box::new(move || {
                        let r = history(ops, &f, i, false);
                        *out.lock().unwrap() = r;
                    }));
                }
                let num = |k: &str, i: usize| plan.field(k).and_then(|s| s.at(i)).and_then(|s| s.us());
                let mut stalls = vec![None; n];
                if let (Some(i), Some(at)) = (num("stall", 1), num("stall", 2)) {
                    if i < n {
                        stalls[i] = Some(at as u64 + 1);
                    }
                }
                let mut r = Rng::new(num("sched", 1).unwrap_or(0) as u64);
                let m = num("sched", 2).unwrap_or(40).max(1);
                let sw: Vec<(u64, usize)> = (0..60).map(|_| (1 + r.below(m) as u64, r.below(n))).collect();
                let rep = seams::run_threads(fs, 0, &sw, &stalls, &vec![u64::MAX / 4; n]);
                engine::count("fault:caller stalled inside a call", rep.stalls);
                engine::count("context switches", rep.log.len() as u64);
                engine::count("simulated steps", rep.gstep);
                engine::event(&rep.gstep.to_le_bytes());
                for r in results {
                    r.into_inner().unwrap()?;
                }
            }
            _ => return Err(Fail::Invalid),
        }
        Ok(())
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one call of a history (or all calls on one text of a doubling series, or one round of probes in a long history) whose steps, allocated bytes and peak memory were compared with the budget; distinct by (call, text size) or text"
    }
    fn components(&self) -> &'static str {
        "real: all of latex_ast built from /repo, counted in basic blocks; simulated: allocation failures, outputs, chunk sources, scheduling and stalls of callers, storage damage of the loaded texts"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "work is basic blocks of the library (with the generic code of std it uses), 32 bytes moved, compared or filled by memcpy and its kin, and bytes allocated; loops inside precompiled std functions that use neither are not seen",
            "the fixed multiples are 80 steps, 200 bytes allocated and 120 bytes held per squared (byte + 40)",
        ]
    }
}
