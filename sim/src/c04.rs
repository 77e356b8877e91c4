//! C04: interrupted calls leave every surviving document whole.
//!
//! A run is a history of calls.  Before every call the world is copied once
//! for each allocation the call makes, and the call repeated on the copy with
//! that allocation failing (the program turns it into a panic); likewise for
//! every write to a panicking output and for panicking chunk sources.  After
//! the unwinding all documents are compared with what they were, and the call
//! is repeated.

use crate::doc::{s1, s2, s3, Doc};
use crate::engine::{self, Check, Fail, Run, Tier};
use crate::gen::Cfg;
use crate::node::{self, Node};
use crate::ops::{self, How, Op, Res, World, SLOTS};
use crate::prog::{self, Opts};
use crate::rng::{hash, mix, Rng};
use crate::seams;
use crate::sink::{self, Spec};
use crate::sx::{a, Sx};
use crate::sxl;
use latex_ast::{ast1, ast2, ast3};

pub struct C04;

/// how one call is cut short
#[derive(Clone, Copy, PartialEq)]
enum Cut {
    Alloc(u64),
    Output(usize),
    Source,
}

impl Cut {
    fn sx(self) -> Sx {
        match self {
            Cut::Alloc(k) => sxl![a("alloc"), a(k)],
            Cut::Output(k) => sxl![a("output"), a(k)],
            Cut::Source => sxl![a("source")],
        }
    }
    fn from(s: &Sx) -> Option<Cut> {
        Some(match s.head()? {
            "alloc" => Cut::Alloc(s.at(1)?.us()? as u64),
            "output" => Cut::Output(s.at(1)?.us()?),
            "source" => Cut::Source,
            _ => return None,
        })
    }
    /// the call as it is made when it is cut short
    fn apply(self, op: &Op) -> Op {
        match (self, op) {
            (Cut::Output(n), Op::Render(i, _)) => Op::Render(*i, Spec::Call(n, sink::How::Panic)),
            (Cut::Source, Op::Into(i, v, _)) => Op::Into(*i, v.clone(), crate::ops::Src::Panics),
            _ => op.clone(),
        }
    }
}

/// everything one can see of the documents
fn whole(w: &World) -> Vec<String> {
    w.slots
        .iter()
        .map(|s| match s {
            None => "-".into(),
            Some(d) => format!(
                "stage {} {} class {} text {:?} lines {} bodyless {}",
                d.stage(),
                d.dump(),
                d.class(),
                d.render(),
                d.lines(),
                matches!(d, Doc::D3(d) if d.is_bodyless())
            ),
        })
        .collect()
}

/// the pieces an edit consists of, as (line, part)
fn pieces(w: &World, op: &Op) -> (usize, usize, Vec<(u32, Node)>) {
    match op {
        Op::Push(i, sec, how, n, dl) => {
            let line = w.slots[*i].as_ref().map(|d| ops::next_line(d, *sec)).unwrap_or(1);
            let l = match how {
                How::Chunk | How::ChunkUnchecked => (line as i64 + dl).clamp(1, 1 << 30) as u32,
                _ => line,
            };
            (*i, *sec, vec![(l, n.clone())])
        }
        Op::Into(i, v, _) => {
            let mut line = w.slots[*i].as_ref().map(|d| ops::next_line(d, 0)).unwrap_or(1);
            let v = v
                .iter()
                .map(|(dl, n)| {
                    let l = (line as i64 + dl).clamp(1, 1 << 30) as u32;
                    line = l + node::breaks(n);
                    (l, n.clone())
                })
                .collect();
            (*i, 0, v)
        }
        Op::IntoLib(i, n) => {
            let first = w.slots[*i].as_ref().map(|d| ops::next_line(d, 0)).unwrap_or(1) - 1;
            let low = node::lower21(std::slice::from_ref(n));
            let v = node::number(&low).into_iter().map(|(l, n)| (first + l, n.clone())).collect();
            (*i, 0, v)
        }
        _ => (usize::MAX, 0, Vec::new()),
    }
}

/// the edited document with the first `m` pieces of the edit
fn extend(d: &mut Doc, sec: usize, ps: &[(u32, Node)]) {
    for (l, n) in ps {
        match d {
            Doc::D1(d) => d.push_chunk_unchecked(ast1::Chunk::new_unchecked(*l, s1::variant(n))),
            Doc::D2(d) => d.push_chunk_unchecked(ast2::Chunk::new_unchecked(*l, s2::variant(n))),
            Doc::D3(d) => {
                let c = ast3::Chunk::new_unchecked(*l, s3::variant(n));
                match sec {
                    0 => d.push_preamable_chunk_unchecked(c),
                    1 => d.push_body_chunk_unchecked(c),
                    _ => d.push_trailing_chunk_unchecked(c),
                }
            }
        }
    }
}

fn answer(r: &Res) -> String {
    r.text()
}

/// one interrupted call on a copy of the world; None when the fault did not
/// come about
fn attempt(
    w: &World<'static>,
    op: &Op,
    cut: Cut,
    before: &[String],
    normal: &(String, Vec<String>),
) -> Result<bool, Fail> {
    let mut c = w.copy();
    let bad = |class: &str, m: String| engine::viol(class, m);
    let cut_op = cut.apply(op);
    if let Cut::Alloc(k) = cut {
        seams::arm_alloc(k);
    }
    seams::set_limit(1_000_000_000);
    let r = ops::exec(&mut c, &cut_op);
    let fired = seams::disarm_alloc();
    seams::arm_alloc(0);
    let Some(r) = r else { return Ok(false) };
    match (&r, cut) {
        (_, Cut::Alloc(_)) if !fired => return Ok(false),
        (Res::Panic(m), _) => return Err(bad("panic", format!("the call panicked by itself: {m}"))),
        (Res::Done(s), Cut::Alloc(_)) => {
            // the library coped with the failure: then it must be the normal outcome
            if *s != normal.0 || whole(&c) != normal.1 {
                return Err(bad("half-done", format!("the call swallowed the failure and answered {s:?}")));
            }
            return Ok(true);
        }
        (Res::Done(_), _) => return Ok(false),
        (Res::Cut(_), _) => {}
    }
    match cut {
        Cut::Alloc(_) => engine::count("fault:allocation fails, call unwound", 1),
        Cut::Output(_) | Cut::Source => {}
    }
    let after = whole(&c);
    let (target, sec, mut ps) = pieces(w, op);
    if target < SLOTS && normal.1[target] == before[target] {
        // an edit that is refused may not leave anything behind
        ps.clear();
    }
    let mut done = 0;
    for i in 0..SLOTS {
        if after[i] == before[i] {
            continue;
        }
        if i != target {
            return Err(bad(
                "torn",
                format!("document {i} changed although the call was interrupted: was {}, is {}", before[i], after[i]),
            ));
        }
        let mut ok = false;
        for m in 1..=ps.len() {
            let mut x = w.slots[i].clone().unwrap();
            extend(&mut x, sec, &ps[..m]);
            let mut y = World { slots: Default::default(), shared: &[] };
            y.slots[i] = Some(x);
            if whole(&y)[i] == after[i] {
                ok = true;
                done = m;
                break;
            }
        }
        if !ok {
            return Err(bad(
                "torn",
                format!("document {i} is neither untouched nor extended by whole pieces: was {}, is {}", before[i], after[i]),
            ));
        }
    }
    // the library stays usable: the same call again
    let again = ops::exec(&mut c, op).map(|r| answer(&r)).unwrap_or_default();
    let (want, docs);
    let want: (&String, &Vec<String>) = if done == 0 {
        (&normal.0, &normal.1)
    } else {
        engine::count("interrupted after whole pieces", 1);
        let mut x = w.copy();
        extend(x.slots[target].as_mut().unwrap(), sec, &ps[..done]);
        want = ops::exec(&mut x, op).map(|r| answer(&r)).unwrap_or_default();
        docs = whole(&x);
        (&want, &docs)
    };
    if again != *want.0 {
        return Err(bad("retry", format!("repeated, the call answers {again:?} instead of {:?}", want.0)));
    }
    let now = whole(&c);
    if now != *want.1 {
        let i = (0..SLOTS).find(|i| now[*i] != want.1[*i]).unwrap();
        return Err(bad("retry", format!("after the repeated call document {i} is {} instead of {}", now[i], want.1[i])));
    }
    Ok(true)
}

impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_400,
            Tier::Thorough => 800_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, _t: Tier) -> Sx {
        let mut c = Cfg::small(r);
        if r.one_in(60) {
            c.big = *r.pick(&[100, 1000]);
        }
        let o = Opts {
            len: r.range(2, 14),
            docs: r.range(1, 3),
            shared: 0,
            sinks: false,
            sources: false,
            texts: false,
        };
        let v = prog::program(r, &c, &o);
        sxl![a("plan"), sxl![a("sample"), a(r.next() >> 1)], ops::ops_sx("ops", &v)]
    }

    fn run(&self, plan: &Sx) -> Run {
        let v = plan.rest("ops").and_then(ops::ops_from).ok_or(Fail::Invalid)?;
        let only = match plan.field("cut") {
            None => None,
            Some(s) => Some((
                s.at(1).and_then(|x| x.us()).ok_or(Fail::Invalid)?,
                s.at(2).and_then(Cut::from).ok_or(Fail::Invalid)?,
            )),
        };
        let mut r = Rng::new(plan.field("sample").and_then(|s| s.at(1)).and_then(|s| s.us()).unwrap_or(1) as u64);
        let mut w: World<'static> = World::default();
        let s0 = seams::STEPS.get();
        let mut prefix = 0u64;
        let mut budget = 900usize;
        for (k, op) in v.iter().enumerate() {
            if let Op::IntoLib(_, n) = op {
                if node::split_text(std::slice::from_ref(n)) || node::odd_label(std::slice::from_ref(n)) {
                    continue;
                }
            }
            let text = op.to_sx().to_string();
            engine::note(&format!("call {k} {}", engine::clip(&text, 300)));
            let before = whole(&w);
            let base = w.copy();
            seams::arm_alloc(0);
            seams::set_limit(1_000_000_000);
            let res = ops::exec(&mut w, op);
            let allocs = seams::ALLOCS.get();
            let Some(res) = res else { continue };
            if let Res::Panic(_) = res {
                // not this check's business; the history ends here
                break;
            }
            let normal = (answer(&res), whole(&w));
            engine::event(normal.0.as_bytes());
            prefix = mix(prefix ^ hash(text.as_bytes()));
            let mut cuts: Vec<Cut> = Vec::new();
            match only {
                Some((j, c)) => {
                    if j == k {
                        cuts.push(c)
                    }
                }
                None => {
                    let all: Vec<u64> = (1..=allocs).collect();
                    if all.len() <= 80 && all.len() <= budget {
                        cuts.extend(all.iter().map(|k| Cut::Alloc(*k)));
                    } else {
                        let n = 60.min(budget.max(6));
                        cuts.extend([1, 2, 3, allocs, allocs - 1].map(Cut::Alloc));
                        cuts.extend((0..n).map(|_| Cut::Alloc(1 + r.next() % allocs.max(1))));
                    }
                    if let Op::Render(..) = op {
                        cuts.extend((0..12).map(Cut::Output));
                    }
                    if let Op::Into(..) = op {
                        cuts.push(Cut::Source);
                    }
                    budget = budget.saturating_sub(cuts.len());
                }
            }
            for cut in cuts {
                engine::note(&format!("call {k} {} cut by {}", engine::clip(&text, 300), cut.sx()));
                match attempt(&base, op, cut, &before, &normal) {
                    Ok(true) => engine::case(mix(prefix ^ hash(cut.sx().to_string().as_bytes()))),
                    Ok(false) => {}
                    Err(Fail::Violation { class, msg, .. }) => {
                        return Err(Fail::Violation {
                            class,
                            msg: engine::clip(
                                &format!("call {k} {} cut short by {}: {msg}", engine::clip(&text, 300), cut.sx()),
                                3000,
                            ),
                            refined: Some(sxl![
                                a("plan"),
                                sxl![a("cut"), a(k), cut.sx()],
                                ops::ops_sx("ops", &v[..=k])
                            ]),
                        })
                    }
                    Err(f) => return Err(f),
                }
            }
        }
        engine::count("simulated steps", seams::STEPS.get() - s0);
        Ok(())
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one call of one history cut short at one point (k-th allocation, k-th write to the output, chunk source), after which all documents were compared and the call repeated; distinct by (history prefix, cut)"
    }
    fn components(&self) -> &'static str {
        "real: all of latex_ast and the standard library's containers built from /repo; simulated: allocation failure (unwinding from the allocation error hook), panicking outputs and chunk sources"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the program turns a failed allocation into a panic (set_alloc_error_hook); by default Rust aborts",
            "documents are copied with the library's own Clone, which C02 judges",
        ]
    }
}
