//! C08: repeating a history never makes the process grow.
//!
//! All memory the library takes is counted by the simulator's allocator.  A
//! history (with refused texts, rejected edits, interrupted calls and failing
//! outputs) is run once, everything the caller got is dropped, the live bytes
//! and blocks are noted; then it is run again, on the same or on other
//! threads.  Long histories of always new texts must not grow in step with
//! their length either.

use crate::c06;
use crate::c07;
use crate::engine::{self, Check, Fail, Run, Tier};
use crate::ensure;
use crate::gen::Cfg;
use crate::ops::{self, Op, Res, World};
use crate::prog::{self, Opts};
use crate::rng::{hash, mix, Rng};
use crate::seams;
use crate::sx::{a, Sx};
use crate::sxl;
use std::sync::atomic::Ordering::Relaxed;

pub struct C08;

fn live() -> (i64, i64) {
    (seams::LIVE_BYTES.load(Relaxed), seams::LIVE_BLOCKS.load(Relaxed))
}

/// the history once; everything is dropped at the end.  The number of
/// allocations of each call.
fn once(v: &[Op], fails: &[(usize, u64)]) -> Vec<u64> {
    let mut w: World = World::default();
    let mut allocs = Vec::new();
    for (k, op) in v.iter().enumerate() {
        seams::arm_alloc(0);
        if let Some((_, n)) = fails.iter().find(|f| f.0 == k) {
            seams::arm_alloc(*n);
        }
        seams::set_limit(1_000_000_000);
        let r = ops::exec(&mut w, op);
        if seams::disarm_alloc() {
            engine::count("fault:allocation fails, call unwound", 1);
        }
        allocs.push(seams::ALLOCS.get());
        seams::arm_alloc(0);
        if let Some(Res::Panic(_)) = r {
            engine::count("calls that panicked by themselves", 1);
        }
    }
    seams::tracked(|| drop(w));
    allocs
}

fn on_thread(own: bool, f: impl FnOnce() -> Vec<u64> + Send) -> Vec<u64> {
    if !own {
        return f();
    }
    engine::count("histories on a thread of their own", 1);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, f)
            .unwrap_or_else(|_| engine::harness_error("cannot start a thread"))
            .join()
            .unwrap_or_else(|_| engine::panicked())
    })
}

fn repeated(v: &[Op], fails: &[(usize, u64)], reps: usize, own: bool) -> Run {
    engine::note(&format!("history with failing allocations (call, allocation) {fails:?}"));
    on_thread(own, || once(v, fails));
    let one = live();
    let mut at = vec![one];
    // a reserve that is filled once is no growth: where more is left than
    // before, twelve repetitions have to go on growing
    while at.len() < if at.iter().any(|x| x.0 > one.0 || x.1 > one.1) { 12 } else { reps } {
        on_thread(own, || once(v, fails));
        at.push(live());
    }
    if let (Some(x), Some(y)) = (at.get(5), at.get(11)) {
        ensure!(
            !(one.0 < x.0 && x.0 < y.0) && !(one.1 < x.1 && x.1 < y.1),
            "grows",
            "bytes and blocks left after running the history 1, 2, 3... times: {at:?}; failing allocations {fails:?}"
        );
        engine::count("histories that filled a reserve", 1);
    }
    engine::maximum("bytes left after everything was dropped", one.0.max(0) as u64);
    Ok(())
}

impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, _t: Tier) -> Sx {
        if r.one_in(12) {
            return sxl![
                a("plan"),
                sxl![a("aging"), a(r.below(c07::STYLES)), a(*r.pick(&[30, 100, 300])), a(*r.pick(&[0, 0, 2, 7]))]
            ];
        }
        let mut c = if r.pct(50) { Cfg::draw(r) } else { Cfg::small(r) };
        if r.one_in(50) {
            c.big = *r.pick(&[200, 3000]);
            c.width = c.width.min(3);
            c.depth = c.depth.min(2);
        }
        let every = r.pct(30);
        let o = Opts {
            len: if every { r.range(1, 4) } else { r.range(2, 14) },
            docs: r.range(1, 3),
            shared: 0,
            sinks: true,
            sources: true,
            texts: true,
        };
        let mut v = prog::program(r, &c, &o);
        for op in v.iter_mut() {
            if let Op::Load(_, _, t) = op {
                if r.pct(40) {
                    *t = c06::damaged(r);
                }
            }
        }
        let mut p = vec![a("plan"), ops::ops_sx("ops", &v), sxl![a("reps"), a(r.range(2, 5))]];
        if r.pct(25) {
            p.push(sxl![a("threads")]);
        }
        if every {
            p.push(sxl![a("everyfail"), a(r.next() >> 1)]);
        } else {
            for _ in 0..r.below(4) {
                p.push(sxl![a("fail"), a(r.below(v.len())), a(r.range(1, 60))]);
            }
        }
        Sx::L(p)
    }

    fn run(&self, plan: &Sx) -> Run {
        let s0 = seams::STEPS.get();
        if let Some(g) = plan.rest("aging") {
            let n = |i: usize| g.get(i).and_then(|s| s.us()).ok_or(Fail::Invalid);
            let (style, unit, fails) = (n(0)?, n(1)?.clamp(1, 3000), n(2)? as u64);
            let mut at = vec![];
            let mut done = 0;
            for target in [unit, 2 * unit, 4 * unit, 8 * unit] {
                while done < target {
                    c07::one_of_many(style, done, fails)?;
                    done += 1;
                }
                at.push(live());
            }
            for (name, x) in [
                ("bytes", at.iter().map(|l| l.0).collect::<Vec<_>>()),
                ("blocks", at.iter().map(|l| l.1).collect::<Vec<_>>()),
            ] {
                let d = |i: usize| x[i + 1] - x[i];
                ensure!(
                    !(d(0) > 0 && d(1) > 0 && d(2) * 10 > d(1) * 14),
                    "grows",
                    "{name} left after {unit}, {}, {} and {} calls on new texts, everything dropped: {x:?}",
                    2 * unit,
                    4 * unit,
                    8 * unit
                );
            }
            engine::count("long histories of new texts", 1);
            engine::case(mix(style as u64 ^ (unit as u64) << 8 ^ fails << 32));
            engine::event(&seams::STEPS.get().to_le_bytes());
            engine::count("simulated steps", seams::STEPS.get() - s0);
            return Ok(());
        }
        let v = plan.rest("ops").and_then(ops::ops_from).ok_or(Fail::Invalid)?;
        let fails: Vec<(usize, u64)> = plan
            .list()
            .ok_or(Fail::Invalid)?
            .iter()
            .filter(|x| x.head() == Some("fail"))
            .map(|x| Some((x.at(1)?.us()?, x.at(2)?.us()? as u64)))
            .collect::<Option<Vec<_>>>()
            .ok_or(Fail::Invalid)?;
        let reps = plan.field("reps").and_then(|s| s.at(1)).and_then(|s| s.us()).unwrap_or(2).clamp(2, 8);
        let own = plan.field("threads").is_some();
        let h = hash(ops::ops_sx("ops", &v).to_string().as_bytes());
        repeated(&v, &fails, reps, own)?;
        engine::case(mix(h ^ hash(format!("{fails:?} {own}").as_bytes())));
        if let Some(e) = plan.rest("everyfail") {
            let mut r = Rng::new(e.first().and_then(|s| s.us()).unwrap_or(1) as u64);
            let allocs = once(&v, &[]);
            for (k, n) in allocs.iter().enumerate() {
                let points: Vec<u64> = if *n <= 60 { (1..=*n).collect() } else { (0..60).map(|_| 1 + r.next() % n).collect() };
                for p in points {
                    let f = vec![(k, p)];
                    repeated(&v, &f, 2, false).map_err(|f| match f {
                        Fail::Violation { class, msg, .. } => Fail::Violation {
                            class,
                            msg,
                            refined: Some(sxl![a("plan"), ops::ops_sx("ops", &v), sxl![a("fail"), a(k), a(p)]]),
                        },
                        f => f,
                    })?;
                    engine::case(mix(h ^ hash(format!("{k} {p}").as_bytes())));
                }
            }
        }
        engine::event(&seams::STEPS.get().to_le_bytes());
        let (b, n) = live();
        engine::event(&b.to_le_bytes());
        engine::event(&n.to_le_bytes());
        engine::count("simulated steps", seams::STEPS.get() - s0);
        Ok(())
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one history with one set of faults, run at least twice with all values dropped and the live bytes and blocks compared; distinct by (history, faults, threads)"
    }
    fn components(&self) -> &'static str {
        "real: all of latex_ast built from /repo, its drops and unwinding; simulated: the allocator that counts, failing allocations, panicking and refusing outputs, panicking chunk sources"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["memory is what goes through the global allocator; memory a caller keeps by forgetting a value is the caller's"]
    }
}
