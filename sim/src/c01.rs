//! C01: rendering into a failing output never reports a false success.
//!
//! One run draws one value (a document, a part of one, or an error value),
//! writes it once to a working output to count the write calls, then writes
//! it again once for every write call and a sample of byte positions, with
//! the output refusing (once, for good, after half a piece), panicking,
//! running full, or accepting short and interrupted writes there.

use crate::doc::{self, s1, s2, s3, Doc};
use crate::engine::{self, Check, Fail, Run, Tier};
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::node::{self, Doc3, Node};
use crate::rng::{hash, mix, Rng};
use crate::seams::{self, lib, Caught};
use crate::sink::{write_to, How, Sink, Spec};
use crate::sx::{a, Sx};
use crate::sxl;
use latex_ast::{ast1, ast2, ast3, Error, ErrorType, InternalError};

pub struct C01;

pub trait Val: std::fmt::Display + std::fmt::Debug {}
impl<T: std::fmt::Display + std::fmt::Debug> Val for T {}

macro_rules! collect {
    ($name:ident, $ast:ident, $out:ident, $($extra:tt)*) => {
        fn $name(cs: &[$ast::Chunk], $out: &mut Vec<Box<dyn Val>>) {
            for c in cs {
                $out.push(Box::new(c.clone()));
                match c.variant() {
                    $ast::ChunkVariant::Command(x) => {
                        $out.push(Box::new(x.clone()));
                        for (_, s) in x.arguments() {
                            $out.push(Box::new(s.clone()));
                            $name(s.chunks(), $out);
                        }
                    }
                    $ast::ChunkVariant::Scope(x) => {
                        $out.push(Box::new(x.clone()));
                        $name(x.chunks(), $out);
                    }
                    $($extra)*
                    v => $out.push(Box::new(v.clone())),
                }
            }
        }
    };
}
collect!(parts1, ast1, out,);
collect!(parts2, ast2, out,
    ast2::ChunkVariant::Environment(e) => {
        out.push(Box::new(e.clone()));
        let (_, args, content, ..) = e.clone().decompose();
        for (_, s) in &args {
            out.push(Box::new(s.clone()));
        }
        parts2(&content, out);
    }
);
collect!(parts3, ast3, out,
    ast3::ChunkVariant::Environment(e) => {
        out.push(Box::new(e.clone()));
        let (_, args, content, ..) = e.clone().decompose();
        for (_, s) in &args {
            out.push(Box::new(s.clone()));
        }
        parts3(&content, out);
    }
    ast3::ChunkVariant::MathsBlock(e) => out.push(Box::new(e.clone())),
);

fn parts(d: &Doc) -> Vec<Box<dyn Val>> {
    let mut v: Vec<Box<dyn Val>> = Vec::new();
    match d {
        Doc::D1(d) => parts1(d.chunks(), &mut v),
        Doc::D2(d) => parts2(d.chunks(), &mut v),
        Doc::D3(d) => {
            parts3(d.chunks_preamable(), &mut v);
            parts3(d.chunks_body(), &mut v);
            parts3(d.chunks_trailing(), &mut v);
            let (_, _, _, _, args, ..) = d.clone().decompose();
            for (_, s) in &args {
                v.push(Box::new(s.clone()));
            }
        }
    }
    v
}

fn error(kind: usize, line: u32, t: &str) -> Box<dyn Val> {
    use ErrorType::*;
    let sv = || match t.len() % 3 {
        0 => ast1::ScopeVariant::Curly,
        1 => ast1::ScopeVariant::Round,
        _ => ast1::ScopeVariant::Square,
    };
    let ch = t.chars().next().unwrap_or('%');
    let internal = |k: usize| match k {
        0 => InternalError::UnsanitisedCharInString(ch),
        1 => InternalError::IncorrectChunkLineNumber { expected: line, got: line / 2 },
        2 => InternalError::ParagraphBreakTooShort,
        3 => InternalError::ParagraghBreakNonwhitespace,
        4 => InternalError::BeginCommand,
        5 => InternalError::EndCommand,
        _ => InternalError::UnbrokenParagraph,
    };
    if kind < 7 {
        return Box::new(internal(kind));
    }
    let ty = match kind - 7 {
        0 => UnexpectedClosing(sv()),
        1 => UnclosedArgument(sv()),
        2 => UnclosedScope(sv()),
        3 => NoEnvironmentLabel,
        4 => UnexpectedEnd(t.into()),
        5 => UnclosedEnvironment(t.into()),
        6 => TooManyArgsEnd,
        7 => TooManyArgsDocumentClass,
        8 => DoubleDocumentClass,
        9 => UnexpectedMathsEnd,
        10 => UnclosedMaths,
        k => Internal(internal((k - 11) % 7)),
    };
    Box::new(Error::new(line, ty))
}
const ERRORS: usize = 25;

/// the values of a plan, each with its full text when the plan alone
/// determines it
fn values(plan: &Sx) -> Option<Vec<(Box<dyn Val>, Option<String>)>> {
    let v = plan.field("value")?;
    let stage = |s: &Sx| s.us().map(|n| n.clamp(1, 3) as u8);
    let part = plan.field("part").and_then(|p| p.at(1)).and_then(|p| p.us());
    let d = match v.at(1)?.atom()? {
        "load" => {
            let text = v.at(3)?.atom()?;
            let st = stage(v.at(2)?)?;
            match lib(|| Doc::load(st, text)).ok()? {
                Ok(d) => (d, None),
                Err(e) => return Some(vec![(Box::new(e), None)]),
            }
        }
        "doc" => {
            let d = Doc3::from_sx(v.at(3)?)?;
            let st = stage(v.at(2)?)?;
            let text = match (st, &d.body) {
                (3, None) => format!("{}\\begin{{document}}\\end{{document}}{}", node::render(&d.pre), node::render(&d.trail)),
                _ => d.text(),
            };
            (doc::build(st, &d), Some(text))
        }
        "parts" => {
            let ns = node::nodes_from(v.at(3)?)?;
            let st = stage(v.at(2)?)?;
            let d = match st {
                1 => Doc::D1(ast1::Document::new_unchecked(s1::chunks(&ns))),
                2 => Doc::D2(ast2::Document::new_unchecked(s2::chunks(&ns))),
                _ => {
                    let mut d = ast3::Document::default();
                    for c in s3::chunks(&ns) {
                        d.push_body_chunk_unchecked(c)
                    }
                    Doc::D3(d)
                }
            };
            (d, None)
        }
        "error" => {
            let (k, l, t) = (v.at(2)?.us()?, v.at(3)?.us()?, v.at(4)?.atom()?);
            return Some(vec![(error(k % ERRORS, l as u32, t), None)]);
        }
        _ => return None,
    };
    let (d, text) = d;
    let mut out: Vec<(Box<dyn Val>, Option<String>)> = Vec::new();
    let mut ps = parts(&d);
    if let Some(n) = part {
        if n == 0 {
            out.push((whole(d), text));
        } else if n <= ps.len() {
            out.push((ps.swap_remove(n - 1), None));
        }
        return Some(out);
    }
    out.push((whole(d), text));
    out.extend(ps.into_iter().map(|p| (p, None)));
    Some(out)
}

fn whole(d: Doc) -> Box<dyn Val> {
    match d {
        Doc::D1(d) => Box::new(d),
        Doc::D2(d) => Box::new(d),
        Doc::D3(d) => Box::new(d),
    }
}

fn clean(v: &dyn Val) -> Result<Sink, Fail> {
    let mut s = Sink::new(Spec::Good);
    match lib(|| write_to(&mut s, v)) {
        Ok(Ok(())) => Ok(s),
        Ok(Err(())) => Err(engine::viol("false-failure", "writing to a working output reports a failure")),
        Err(Caught::Panic(m)) => Err(engine::viol("panic", format!("rendering panicked: {m}"))),
        Err(Caught::Injected(_)) => Err(Fail::Invalid),
    }
}

/// one write with one faulty output, and the retry
fn attempt(v: &dyn Val, spec: Spec, full: &[u8], before: &str) -> Run {
    let shown = |b: &[u8]| engine::clip(&String::from_utf8_lossy(b), 300);
    let mut sink = Sink::new(spec);
    if let Spec::Nested(n) = spec {
        sink.nested = crate::ops::nested_alone(n);
    }
    let fail = |class: &str, m: String| {
        engine::viol(
            class,
            format!("{m} [full text {:?}, output {}]", shown(full), spec.to_sx()),
        )
    };
    let r = lib(|| write_to(&mut sink, v));
    let got = &sink.got;
    match r {
        Err(Caught::Panic(m)) => return Err(fail("panic", format!("rendering panicked: {m}"))),
        Err(Caught::Injected(_)) => {
            ensure!(sink.panicked, "harness", "unwound without a fault");
        }
        Ok(Ok(())) => {
            if sink.refused > 0 || sink.panicked {
                return Err(fail(
                    "false-success",
                    format!("the output refused a piece but the write reported success; it took {:?}", shown(got)),
                ));
            }
            if got != full {
                return Err(fail("wrong-text", format!("a successful write delivered {:?}", shown(got))));
            }
        }
        Ok(Err(())) => {
            if sink.refused == 0 {
                return Err(fail(
                    "false-failure",
                    "the output refused nothing but the write reported a failure".into(),
                ));
            }
        }
    }
    if !full.starts_with(got) {
        return Err(fail(
            "not-prefix",
            format!("the output took {:?}, which is not a leading part", shown(got)),
        ));
    }
    let mut again = clean(v)?;
    if again.got != full {
        return Err(fail("retry", format!("writing again delivered {:?}", shown(&again.got))));
    }
    again.got.clear();
    let after = format!("{v:?}");
    if after != before {
        return Err(fail("changed", "the value changed by being written".into()));
    }
    Ok(())
}

impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 10_000,
            Tier::Thorough => 400_000,
        }
    }
    fn gen(&self, r: &mut Rng, run: u64, _t: Tier) -> Sx {
        let mut c = Cfg::draw(r);
        if r.one_in(60) {
            c.big = *r.pick(&[300, 2_000, 9_000, 40_000, 70_000]);
            c.depth = c.depth.min(1);
            c.width = c.width.min(3);
        } else if r.one_in(400) {
            c = Cfg::tall(r);
        }
        let stage = r.range(1, 3);
        let value = if run < ERRORS as u64 * 2 {
            let t = ["", "a", "ab\"\n\u{e9}", "document"][r.below(4)];
            sxl![a("value"), a("error"), a(run as usize % ERRORS), a(*r.pick(&[0, 1, 7, 70_000])), a(t)]
        } else {
            match r.below(20) {
                0..=8 => sxl![a("value"), a("doc"), a(stage), gen::doc3(r, &c).to_sx()],
                9..=12 => sxl![a("value"), a("load"), a(stage), Sx::A(gen::source_text(r))],
                13 => sxl![a("value"), a("load"), a(stage), Sx::A(gen::soup(r, 25))],
                14 => {
                    let n = r.range(1, 60);
                    sxl![a("value"), a("load"), a(stage), Sx::A(gen::shape(r.below(gen::SHAPES), n))]
                }
                15..=18 => {
                    let n = r.range(1, 4);
                    let ns: Vec<Node> = (0..n).map(|_| gen::wild(r, &c, stage as u8, c.depth)).collect();
                    sxl![a("value"), a("parts"), a(stage), node::nodes_sx("nodes", &ns)]
                }
                _ => {
                    // half of them carry a label, some of them a long one
                    let kind = if r.pct(50) { 7 + r.range(4, 5) } else { r.below(ERRORS) };
                    let n = *r.pick(&[2, 6, 6, 40, 300]);
                    sxl![a("value"), a("error"), a(kind), a(r.below(100_000)), Sx::A(gen::soup(r, n))]
                }
            }
        };
        sxl![a("plan"), value, sxl![a("samples"), a(r.next() >> 1)]]
    }

    fn run(&self, plan: &Sx) -> Run {
        let Some(vals) = values(plan) else { return Err(Fail::Invalid) };
        if vals.is_empty() {
            return Err(Fail::Invalid);
        }
        let single = plan.field("part").is_some();
        let fault = match plan.field("sink") {
            Some(s) => Some(Spec::from_sx(s).ok_or(Fail::Invalid)?),
            None => None,
        };
        let mut r = Rng::new(plan.field("samples").and_then(|s| s.at(1)).and_then(|s| s.us()).unwrap_or(1) as u64);
        let value_hash = hash(plan.field("value").unwrap().to_string().as_bytes());
        // the whole document and a sample of its parts
        let mut budget = 4000usize;
        for (i, (v, text)) in vals.iter().enumerate() {
            if i > 0 && !single && vals.len() > 12 && !r.one_in(vals.len() / 10) {
                continue;
            }
            let v: &dyn Val = &**v;
            let before = format!("{v:?}");
            let steps0 = seams::STEPS.get();
            seams::set_limit(1_000_000_000);
            let refine = |f: Fail, spec: Option<Spec>| match f {
                Fail::Violation { class, msg, .. } => {
                    let mut p = vec![a("plan"), plan.field("value").unwrap().clone()];
                    if vals.len() > 1 {
                        p.push(sxl![a("part"), a(i)]);
                    } else if let Some(x) = plan.field("part") {
                        p.push(x.clone());
                    }
                    if let Some(s) = spec {
                        p.push(s.to_sx());
                    }
                    Fail::Violation { class, msg, refined: Some(Sx::L(p)) }
                }
                f => f,
            };
            let sink = clean(v).map_err(|f| refine(f, None))?;
            let full = sink.got.clone();
            if let Some(t) = text {
                if t.as_bytes() != full {
                    return Err(refine(
                        engine::viol(
                            "wrong-text",
                            format!(
                                "a working output got {:?}, the value's text is {:?}",
                                engine::clip(&String::from_utf8_lossy(&full), 400),
                                engine::clip(t, 400)
                            ),
                        ),
                        None,
                    ));
                }
            }
            let calls = sink.calls;
            engine::maximum("write calls of one value", calls as u64);
            engine::maximum("bytes of one value", full.len() as u64);
            engine::event(&full);
            let mut plan_specs: Vec<Spec> = Vec::new();
            if let Some(s) = fault {
                plan_specs.push(s);
            } else {
                let hows = [How::Once, How::Forever, How::Half, How::HalfOnce, How::Panic];
                // every write call, in all ways while the value is small
                let per = if calls <= 120 { 5 } else { 1 };
                let every = if calls <= 1000 { 1 } else { calls / 500 };
                let mut n = 0;
                while n < calls {
                    for k in 0..per {
                        let how = if per == 5 { hows[k] } else { *r.pick(&hows) };
                        plan_specs.push(Spec::Call(n, how));
                    }
                    n += if every == 1 { 1 } else { r.range(1, every * 2) };
                }
                if calls > 1 {
                    plan_specs.push(Spec::Call(calls - 1, How::Once));
                }
                for _ in 0..6.min(full.len()) {
                    plan_specs.push(Spec::Byte(r.below(full.len()), *r.pick(&hows)));
                }
                plan_specs.push(Spec::Short(r.next() >> 1));
                plan_specs.push(Spec::Nested(r.next() >> 1));
                for _ in 0..3.min(full.len()) {
                    plan_specs.push(Spec::Full(r.below(full.len())));
                    plan_specs.push(Spec::Zero(r.below(full.len())));
                }
                if !full.is_empty() {
                    plan_specs.push(Spec::Full(full.len() - 1));
                    plan_specs.push(Spec::Full(0));
                }
                plan_specs.push(Spec::Full(full.len()));
                let cost = 1 + full.len() / 2000 + calls / 500;
                while plan_specs.len() > 40 && plan_specs.len() * cost > budget {
                    let k = r.below(plan_specs.len());
                    plan_specs.swap_remove(k);
                }
                budget = budget.saturating_sub(plan_specs.len() * cost).max(40);
            }
            for spec in plan_specs {
                engine::note(&format!("value {i}, output {}", spec.to_sx()));
                attempt(v, spec, &full, &before).map_err(|f| refine(f, Some(spec)))?;
                engine::case(mix(value_hash ^ mix(i as u64) ^ hash(spec.to_sx().to_string().as_bytes())));
            }
            engine::count("values", 1);
            engine::count("simulated steps", seams::STEPS.get() - steps0);
        }
        Ok(())
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one value written to one output with one planned refusal, panic, short write or full disk, plus the retry; distinct by (value, part, fault)"
    }
    fn components(&self) -> &'static str {
        "real: all of latex_ast (loading, constructors, Display of every part and error) built from /repo, and core::fmt / std::io::Write::write_fmt; simulated: the outputs"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "values are printed with the plain {} format",
            "the full text of a document built from a model tree is the model's rendering; of other values what a working output receives",
        ]
    }
}
