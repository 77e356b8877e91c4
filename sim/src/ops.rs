//! Client programs: sequences of calls into the library over numbered slots.

use crate::doc::{s1, s2, s3, Doc};
use crate::engine::count;
use crate::gen;
use crate::node::{self, Doc3, Node};
use crate::rng::Rng;
use crate::seams::{self, lib, outside, tracked, Caught};
use crate::sink::{write_to, Sink, Spec};
use crate::sx::{a, Sx};
use crate::sxl;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3};

pub const SLOTS: usize = 6;
/// slots from here on are the shared documents
pub const SHARED: usize = 50;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Variant,
    VariantUnchecked,
    Chunk,
    ChunkUnchecked,
}

/// what a chunk source of the caller does when it is asked
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Src {
    Calm,
    Panics,
    /// calls the library itself
    Nested(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Load(usize, u8, String),
    /// load the rendering of a model document
    Open(usize, u8, Doc3),
    /// default / new / new_unchecked; stages 1 and 2 use `pre` only
    Make(usize, u8, u8, Doc3),
    Push(usize, usize, How, Node, i64),
    /// stage 1: a chunk source of the caller
    Into(usize, Vec<(i64, Node)>, Src),
    /// stage 1: a stage-2 chunk as source
    IntoLib(usize, Node),
    Clone(usize, usize),
    Drop(usize),
    Raise(usize),
    Lower(usize),
    Render(usize, Spec),
    Lines(usize),
    Validate(usize),
    Eq(usize, usize),
    Debug(usize),
    Parts(usize),
    Rebuild(usize),
    Class(usize),
    /// checked constructors of a part and everything in it
    Ctor(u8, Node),
    /// render an error value
    ShowErr(u8, String),
}

fn ds(d: &Doc3) -> Sx {
    d.to_sx()
}

impl Op {
    pub fn to_sx(&self) -> Sx {
        let t = |s: &String| Sx::A(s.clone());
        match self {
            Op::Load(d, s, x) => sxl![a("load"), a(d), a(s), t(x)],
            Op::Open(d, s, x) => sxl![a("open"), a(d), a(s), ds(x)],
            Op::Make(d, s, h, x) => sxl![
                a("make"),
                a(d),
                a(s),
                a(["default", "new", "unchecked"][*h as usize % 3]),
                ds(x)
            ],
            Op::Push(d, sec, h, n, l) => sxl![
                a("push"),
                a(d),
                a(["pre", "body", "trail"][sec % 3]),
                a(match h {
                    How::Variant => "variant",
                    How::VariantUnchecked => "variant-unchecked",
                    How::Chunk => "chunk",
                    How::ChunkUnchecked => "chunk-unchecked",
                }),
                n.to_sx(),
                a(l)
            ],
            Op::Into(d, v, p) => Sx::L(
                [
                    a("into"),
                    a(d),
                    match p {
                        Src::Calm => a("calm"),
                        Src::Panics => a("panics"),
                        Src::Nested(n) => a(n),
                    },
                ]
                    .into_iter()
                    .chain(v.iter().map(|(l, n)| sxl![a(l), n.to_sx()]))
                    .collect(),
            ),
            Op::IntoLib(d, n) => sxl![a("intolib"), a(d), n.to_sx()],
            Op::Clone(d, s) => sxl![a("clone"), a(d), a(s)],
            Op::Drop(d) => sxl![a("drop"), a(d)],
            Op::Raise(d) => sxl![a("raise"), a(d)],
            Op::Lower(d) => sxl![a("lower"), a(d)],
            Op::Render(d, s) => sxl![a("render"), a(d), s.to_sx()],
            Op::Lines(d) => sxl![a("lines"), a(d)],
            Op::Validate(d) => sxl![a("validate"), a(d)],
            Op::Eq(x, y) => sxl![a("eq"), a(x), a(y)],
            Op::Debug(d) => sxl![a("debug"), a(d)],
            Op::Parts(d) => sxl![a("parts"), a(d)],
            Op::Rebuild(d) => sxl![a("rebuild"), a(d)],
            Op::Class(d) => sxl![a("class"), a(d)],
            Op::Ctor(s, n) => sxl![a("ctor"), a(s), n.to_sx()],
            Op::ShowErr(s, x) => sxl![a("showerr"), a(s), t(x)],
        }
    }

    pub fn from_sx(s: &Sx) -> Option<Op> {
        let slot = |i: usize| {
            let n = s.at(i)?.us()?;
            (n < SLOTS || (SHARED..SHARED + 8).contains(&n)).then_some(n)
        };
        let own = |i: usize| slot(i).filter(|n| *n < SLOTS);
        let stage = |i: usize| {
            let n = s.at(i)?.us()?;
            (1..=3).contains(&n).then_some(n as u8)
        };
        let text = |i: usize| Some(s.at(i)?.atom()?.to_string());
        Some(match s.head()? {
            "load" => Op::Load(own(1)?, stage(2)?, text(3)?),
            "open" => Op::Open(own(1)?, stage(2)?, Doc3::from_sx(s.at(3)?)?),
            "make" => Op::Make(
                own(1)?,
                stage(2)?,
                match s.at(3)?.atom()? {
                    "default" => 0,
                    "new" => 1,
                    "unchecked" => 2,
                    _ => return None,
                },
                Doc3::from_sx(s.at(4)?)?,
            ),
            "push" => Op::Push(
                own(1)?,
                match s.at(2)?.atom()? {
                    "pre" => 0,
                    "body" => 1,
                    "trail" => 2,
                    _ => return None,
                },
                match s.at(3)?.atom()? {
                    "variant" => How::Variant,
                    "variant-unchecked" => How::VariantUnchecked,
                    "chunk" => How::Chunk,
                    "chunk-unchecked" => How::ChunkUnchecked,
                    _ => return None,
                },
                Node::from_sx(s.at(4)?)?,
                s.at(5)?.int()?,
            ),
            "into" => Op::Into(
                own(1)?,
                s.list()?[3.min(s.list()?.len())..]
                    .iter()
                    .map(|x| Some((x.at(0)?.int()?, Node::from_sx(x.at(1)?)?)))
                    .collect::<Option<_>>()?,
                match s.at(2)?.atom()? {
                    "panics" => Src::Panics,
                    "calm" => Src::Calm,
                    n => Src::Nested(n.parse().ok()?),
                },
            ),
            "intolib" => Op::IntoLib(own(1)?, Node::from_sx(s.at(2)?)?),
            "clone" => Op::Clone(own(1)?, slot(2)?),
            "drop" => Op::Drop(own(1)?),
            "raise" => Op::Raise(own(1)?),
            "lower" => Op::Lower(own(1)?),
            "render" => Op::Render(slot(1)?, Spec::from_sx(s.at(2)?)?),
            "lines" => Op::Lines(slot(1)?),
            "validate" => Op::Validate(slot(1)?),
            "eq" => Op::Eq(slot(1)?, slot(2)?),
            "debug" => Op::Debug(slot(1)?),
            "parts" => Op::Parts(slot(1)?),
            "rebuild" => Op::Rebuild(own(1)?),
            "class" => Op::Class(slot(1)?),
            "ctor" => Op::Ctor(stage(1)?, Node::from_sx(s.at(2)?)?),
            "showerr" => Op::ShowErr(stage(1)?, text(2)?),
            _ => return None,
        })
    }
}

pub fn ops_sx(head: &str, ops: &[Op]) -> Sx {
    Sx::L(std::iter::once(a(head)).chain(ops.iter().map(Op::to_sx)).collect())
}
pub fn ops_from(v: &[Sx]) -> Option<Vec<Op>> {
    v.iter().map(Op::from_sx).collect()
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    Done(String),
    /// an injected fault unwound out of the call
    Cut(&'static str),
    /// the library itself panicked
    Panic(String),
}

impl Res {
    pub fn text(&self) -> String {
        match self {
            Res::Done(s) => s.clone(),
            Res::Cut(k) => format!("<interrupted by {k}>"),
            Res::Panic(m) => format!("<panic {m}>"),
        }
    }
}

#[derive(Default)]
pub struct World<'s> {
    pub slots: [Option<Doc>; SLOTS],
    pub shared: &'s [Doc],
}

impl World<'_> {
    pub fn get(&self, i: usize) -> Option<&Doc> {
        if i >= SHARED {
            self.shared.get(i - SHARED)
        } else {
            self.slots[i].as_ref()
        }
    }
    /// canonical form of every document of the world
    pub fn dump(&self) -> Vec<String> {
        self.slots
            .iter()
            .map(|s| match s {
                Some(d) => format!("{}:{} {}", d.stage(), d.dump(), d.class()),
                None => "-".into(),
            })
            .collect()
    }
    /// an independent world with the same documents
    pub fn copy(&self) -> Self {
        World {
            slots: self.slots.clone(),
            shared: self.shared,
        }
    }
}

/// a few calls on a document of its own
fn nested(seed: u64) -> Result<(String, bool), Caught> {
    let mut r = Rng::new(seed);
    let stage = r.range(1, 3) as u8;
    let t = if r.pct(50) {
        gen::soup(&mut r, 8)
    } else {
        let c = gen::Cfg { depth: 1, width: 2, deep: 0, ..gen::Cfg::draw(&mut r) };
        gen::doc3(&mut r, &c).text()
    };
    let (s, cut) = lib(|| match Doc::load(stage, &t) {
        Err(e) => (format!("{e:?}"), false),
        Ok(mut d) => {
            let a = d.render();
            let p = push(&mut d, 0, How::Variant, &Node::Text("more".into()), 1);
            let b = d.clone();
            let same = d.same(&b);
            let (l, v) = (b.lines(), b.validate());
            let c = if stage > 1 { b.lower().render() } else { b.render() };
            let cut = matches!(p, Res::Cut(_));
            (format!("{a:?} {p:?} {same} {l} {v:?} {c:?} {}", d.render()), cut)
        }
    })?;
    Ok(outside(|| {
        let t = s.clone();
        tracked(|| drop(s));
        (t, cut)
    }))
}

/// the calls of `nested` with nothing around them
pub fn nested_alone(seed: u64) -> String {
    outside(|| match seams::unarmed(|| nested(seed)) {
        Ok((s, _)) => s,
        Err(_) => "<panic>".to_string(),
    })
}

/// the caller's code, running inside a library call, calls the library
pub fn within(seed: u64, alone: &str, who: &str) {
    outside(|| {
        count("calls made from inside another call", 1);
        let got = match nested(seed) {
            // a fault of the plan fell inside
            Ok((_, true)) | Err(Caught::Injected(_)) => return,
            Ok((s, false)) => s,
            Err(Caught::Panic(m)) => format!("<panic {m}>"),
        };
        if got != alone {
            crate::engine::violation(
                "nested",
                &format!("calls made by the caller's {who} from inside a call give {got:?}, made on their own {alone:?}"),
            );
        }
    })
}

struct Source {
    chunks: Vec<(u32, ast1::ChunkVariant)>,
    how: Src,
    nested: Option<String>,
}
impl ast1::IntoChunks for Source {
    fn into_chunks(self) -> Vec<ast1::Chunk> {
        if let Src::Nested(n) = self.how {
            within(n, self.nested.as_deref().unwrap_or(""), "chunk source");
        }
        if self.how == Src::Panics {
            outside(|| count("fault:chunk source panics", 1));
            let r = outside(|| drop(self.chunks));
            let _ = r;
            std::panic::resume_unwind(Box::new(seams::Injected("source")));
        }
        let fire = seams::INLIB.replace(false);
        let v = self
            .chunks
            .into_iter()
            .map(|(l, v)| ast1::Chunk::new_unchecked(l, v))
            .collect();
        seams::INLIB.set(fire);
        v
    }
}

/// line number the next part of a section gets
pub fn expected_line<T: Lines>(last: Option<(u32, &T)>) -> u32 {
    last.map(|(l, x)| l + x.lines() - 1).unwrap_or(1)
}

pub fn next_line(d: &Doc, sec: usize) -> u32 {
    match d {
        Doc::D1(d) => expected_line(d.chunks().last().map(|c| (c.line_no(), c))),
        Doc::D2(d) => expected_line(d.chunks().last().map(|c| (c.line_no(), c))),
        Doc::D3(d) => {
            let v = match sec {
                0 => d.chunks_preamable(),
                1 => d.chunks_body(),
                _ => d.chunks_trailing(),
            };
            expected_line(v.last().map(|c| (c.line_no(), c)))
        }
    }
}

fn show<T>(r: Result<T, latex_ast::InternalError>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("refused: {e:?} / {e}"),
    }
}

macro_rules! call {
    ($e:expr) => {
        match lib(|| $e) {
            Ok(v) => v,
            Err(Caught::Injected(k)) => return Res::Cut(k),
            Err(Caught::Panic(m)) => return Res::Panic(m),
        }
    };
}

fn loaded(w: &mut World, dst: usize, r: Result<Doc, latex_ast::Error>) -> Res {
    match r {
        Ok(d) => {
            let t = call!(d.render());
            tracked(|| w.slots[dst] = Some(d));
            Res::Done(format!("loaded {t:?}"))
        }
        Err(e) => {
            let shown = call!(e.to_string());
            let r = Res::Done(format!("refused: {e:?} / {shown}"));
            tracked(|| drop(e));
            r
        }
    }
}

/// every checked constructor that can make the part, and the checks of the
/// part itself; one line for each answer
fn ctor(stage: u8, n: &Node) -> String {
    let mut out = String::new();
    fn say(out: &mut String, name: &str, r: Result<String, latex_ast::InternalError>) {
        match r {
            Ok(s) => out.push_str(&format!("{name}\tok\t{s:?}\n")),
            Err(e) => out.push_str(&format!("{name}\trefused\t{e:?}\n")),
        }
    }
    macro_rules! go {
        ($ast:ident, $m:ident, $($more:tt)*) => {{
            let v = $m::variant(n);
            say(&mut out, "variant", v.validate().map(|_| format!("{v}{}", v.lines())));
            match v.clone() {
                $ast::ChunkVariant::Command(c) => {
                    say(&mut out, "part", c.validate().map(|_| c.to_string()));
                    let (l, args) = c.decompose();
                    say(&mut out, "new", $ast::Command::new(l, args).map(|c| format!("{c}{}", c.lines())));
                }
                $ast::ChunkVariant::Scope(sc) => {
                    say(&mut out, "part", sc.validate().map(|_| sc.to_string()));
                    let (c, b) = sc.decompose();
                    say(&mut out, "new", $ast::Scope::new(c, b).map(|c| format!("{c}{}", c.lines())));
                }
                $($more)*
                _ => {}
            }
            let c = $ast::Chunk::new_unchecked(7, v.clone());
            say(&mut out, "numbered", c.validate().map(|_| format!("{c}{}", c.line_no())));
            say(&mut out, "chunk", $ast::Chunk::new(7, v).map(|c| format!("{c}{} {}", c.lines(), c.line_no())));
        }};
    }
    macro_rules! env {
        ($ast:ident, $e:ident) => {{
            say(&mut out, "part", $e.validate().map(|_| $e.to_string()));
            let (l, args, c, pb, pe) = $e.decompose();
            say(&mut out, "new", $ast::Environment::new(l, args, c, pb, pe).map(|c| format!("{c}{}", c.lines())));
        }};
    }
    match stage {
        1 => go!(ast1, s1,),
        2 => go!(ast2, s2, ast2::ChunkVariant::Environment(e) => env!(ast2, e),),
        _ => go!(ast3, s3,
            ast3::ChunkVariant::Environment(e) => env!(ast3, e),
            ast3::ChunkVariant::MathsBlock(m) => {
                say(&mut out, "part", m.validate().map(|_| m.to_string()));
                if let Node::Math { dollar, outline, body } = n {
                    let v = if *dollar { ast3::MathsVariant::Dollars } else { ast3::MathsVariant::Brackets };
                    let t = if *outline { ast3::MathsType::Outline } else { ast3::MathsType::Inline };
                    let r = ast3::MathsBlock::new(v, t, s3::chunks(body));
                    say(&mut out, "new", r.map(|c| format!("{c}{}", c.lines())));
                }
            }
        ),
    }
    out
}

/// one client call; None when it does not apply to the world as it is
pub fn exec(w: &mut World, op: &Op) -> Option<Res> {
    Some(match op {
        Op::Load(dst, stage, text) => {
            let r = match lib(|| Doc::load(*stage, text)) {
                Ok(r) => r,
                Err(Caught::Injected(k)) => return Some(Res::Cut(k)),
                Err(Caught::Panic(m)) => return Some(Res::Panic(m)),
            };
            loaded(w, *dst, r)
        }
        Op::Open(dst, stage, d) => {
            let text = d.text();
            return exec(w, &Op::Load(*dst, *stage, text));
        }
        Op::Make(dst, stage, how, d) => {
            let (dst, stage) = (*dst, *stage);
            if stage < 3 && !node::fits(stage, &d.pre) {
                return None;
            }
            (|| match (stage, how) {
                (s, 0) => {
                    let d = call!(Doc::empty(s));
                    w.slots[dst] = Some(d);
                    Res::Done("ok".into())
                }
                (1, h) => {
                    let c = tracked(|| s1::chunks(&d.pre));
                    if *h == 1 {
                        match call!(ast1::Document::new(c)) {
                            Ok(d) => w.slots[dst] = Some(Doc::D1(d)),
                            Err(e) => return Res::Done(show::<()>(Err(e))),
                        }
                    } else {
                        w.slots[dst] = Some(Doc::D1(call!(ast1::Document::new_unchecked(c))));
                    }
                    Res::Done("ok".into())
                }
                (2, h) => {
                    let c = tracked(|| s2::chunks(&d.pre));
                    if *h == 1 {
                        match call!(ast2::Document::new(c)) {
                            Ok(d) => w.slots[dst] = Some(Doc::D2(d)),
                            Err(e) => return Res::Done(show::<()>(Err(e))),
                        }
                    } else {
                        w.slots[dst] = Some(Doc::D2(call!(ast2::Document::new_unchecked(c))));
                    }
                    Res::Done("ok".into())
                }
                (_, h) => {
                    let none = node::Body {
                        pb: String::new(),
                        args: vec![],
                        body: vec![],
                        pe: String::new(),
                    };
                    let b = d.body.as_ref().unwrap_or(&none);
                    let (p, bb, ba, t) = tracked(|| {
                        (
                            s3::chunks(&d.pre),
                            s3::chunks(&b.body),
                            s3::args(&b.args),
                            s3::chunks(&d.trail),
                        )
                    });
                    let (pb, pe) = tracked(|| (b.pb.clone(), b.pe.clone()));
                    if *h == 1 {
                        match call!(ast3::Document::new(p, None, Vec::new(), bb, ba, pb, pe, t)) {
                            Ok(d) => w.slots[dst] = Some(Doc::D3(d)),
                            Err(e) => return Res::Done(show::<()>(Err(e))),
                        }
                    } else {
                        w.slots[dst] = Some(Doc::D3(call!(ast3::Document::new_unchecked(
                            p,
                            None,
                            Vec::new(),
                            bb,
                            ba,
                            pb,
                            pe,
                            t
                        ))));
                    }
                    Res::Done("ok".into())
                }
            })()
        }
        Op::Push(slot, sec, how, n, dl) => {
            let d = w.slots[*slot].as_mut()?;
            if (d.stage() < 3 && *sec != 0) || !node::fits(d.stage(), std::slice::from_ref(n)) {
                return None;
            }
            let line = (next_line(d, *sec) as i64 + dl).clamp(1, 1 << 30) as u32;
            push(d, *sec, *how, n, line)
        }
        Op::Into(slot, v, panics) => {
            let Doc::D1(d) = w.slots[*slot].as_mut()? else { return None };
            if !v.iter().all(|(_, n)| node::fits(1, std::slice::from_ref(n))) {
                return None;
            }
            let mut line = expected_line(d.chunks().last().map(|c| (c.line_no(), c)));
            let src = tracked(|| Source {
                chunks: v
                    .iter()
                    .map(|(dl, n)| {
                        let l = (line as i64 + dl).clamp(1, 1 << 30) as u32;
                        line = l + node::breaks(n);
                        (l, s1::variant(n))
                    })
                    .collect(),
                how: *panics,
                nested: None,
            });
            let mut src = src;
            if let Src::Nested(n) = panics {
                src.nested = Some(nested_alone(*n));
            }
            (|| {
                call!(d.push_into_unchecked(src));
                Res::Done("ok".into())
            })()
        }
        Op::IntoLib(slot, n) => {
            let Doc::D1(d) = w.slots[*slot].as_mut()? else { return None };
            if !node::fits(2, std::slice::from_ref(n)) {
                return None;
            }
            let line = expected_line(d.chunks().last().map(|c| (c.line_no(), c)));
            let c = tracked(|| ast2::Chunk::new_unchecked(line, s2::variant(n)));
            (|| {
                call!(d.push_into_unchecked(c));
                Res::Done("ok".into())
            })()
        }
        Op::Clone(dst, src) => {
            let c = {
                let d = w.get(*src)?;
                match lib(|| d.clone()) {
                    Ok(c) => c,
                    Err(Caught::Injected(k)) => return Some(Res::Cut(k)),
                    Err(Caught::Panic(m)) => return Some(Res::Panic(m)),
                }
            };
            w.slots[*dst] = Some(c);
            Res::Done("ok".into())
        }
        Op::Drop(slot) => {
            let d = w.slots[*slot].take()?;
            (|| {
                call!(drop(d));
                Res::Done("ok".into())
            })()
        }
        Op::Raise(slot) => {
            let d = w.slots[*slot].as_ref()?;
            if d.stage() == 3 {
                return None;
            }
            let c = tracked(|| d.clone());
            let r = match lib(|| c.raise()) {
                Ok(r) => r,
                Err(Caught::Injected(k)) => return Some(Res::Cut(k)),
                Err(Caught::Panic(m)) => return Some(Res::Panic(m)),
            };
            loaded(w, *slot, r)
        }
        Op::Lower(slot) => {
            let d = w.slots[*slot].as_ref()?;
            if d.stage() == 1 {
                return None;
            }
            let c = tracked(|| d.clone());
            (|| {
                let d = call!(c.lower());
                let t = call!(d.render());
                w.slots[*slot] = Some(d);
                Res::Done(format!("lowered {t:?}"))
            })()
        }
        Op::Render(slot, spec) => {
            let d = w.get(*slot)?;
            let mut sink = Sink::new(*spec);
            if let Spec::Nested(n) = spec {
                sink.nested = nested_alone(*n);
            }
            let v = d.display();
            match lib(|| write_to(&mut sink, v)) {
                Ok(r) => Res::Done(format!("{r:?} {:?}", String::from_utf8_lossy(&sink.got))),
                Err(Caught::Injected(k)) => Res::Cut(k),
                Err(Caught::Panic(m)) => Res::Panic(m),
            }
        }
        Op::Lines(slot) => {
            let d = w.get(*slot)?;
            (|| Res::Done(call!(d.lines()).to_string()))()
        }
        Op::Validate(slot) => {
            let d = w.get(*slot)?;
            (|| Res::Done(show(call!(d.validate()))))()
        }
        Op::Eq(x, y) => {
            let (x, y) = (w.get(*x)?, w.get(*y)?);
            (|| Res::Done(call!(x.same(y)).to_string()))()
        }
        Op::Debug(slot) => {
            let d = w.get(*slot)?;
            (|| {
                let s = call!(d.debug());
                let r = Res::Done(s.clone());
                tracked(|| drop(s));
                r
            })()
        }
        Op::Class(slot) => {
            let d = w.get(*slot)?;
            (|| {
                let s = call!(d.class());
                Res::Done(s)
            })()
        }
        Op::Parts(slot) => {
            let d = w.get(*slot)?;
            let mut out = String::new();
            macro_rules! parts {
                ($v:expr) => {
                    for c in $v {
                        let s = match lib(|| (c.to_string(), c.lines(), c.validate())) {
                            Ok(s) => s,
                            Err(Caught::Injected(k)) => return Some(Res::Cut(k)),
                            Err(Caught::Panic(m)) => return Some(Res::Panic(m)),
                        };
                        out.push_str(&format!("{}@{}+{}={};", s.0, c.line_no(), s.1, show(s.2)));
                    }
                };
            }
            match d {
                Doc::D1(d) => parts!(d.chunks()),
                Doc::D2(d) => parts!(d.chunks()),
                Doc::D3(d) => {
                    parts!(d.chunks_preamable());
                    parts!(d.chunks_body());
                    parts!(d.chunks_trailing())
                }
            }
            Res::Done(out)
        }
        Op::Rebuild(slot) => {
            let d = w.slots[*slot].as_ref()?;
            let c = tracked(|| d.clone());
            let r = match c {
                Doc::D1(d) => lib(|| ast1::Document::new(d.chunks_owned()).map(Doc::D1)),
                Doc::D2(d) => lib(|| ast2::Document::new(d.chunks_owned()).map(Doc::D2)),
                Doc::D3(d) => lib(|| {
                    if d.is_bodyless() {
                        // has no constructor
                        return Ok(Doc::D3(d));
                    }
                    let (c, o, p, b, ba, pb, pe, t) = d.decompose();
                    ast3::Document::new(p, c, o, b, ba, pb, pe, t).map(Doc::D3)
                }),
            };
            match r {
                Ok(Ok(d)) => {
                    tracked(|| w.slots[*slot] = Some(d));
                    Res::Done("ok".into())
                }
                Ok(Err(e)) => Res::Done(show::<()>(Err(e))),
                Err(Caught::Injected(k)) => Res::Cut(k),
                Err(Caught::Panic(m)) => Res::Panic(m),
            }
        }
        Op::Ctor(stage, n) if !node::fits(*stage, std::slice::from_ref(n)) => return None,
        Op::Ctor(stage, n) => (|| {
            let r = call!(ctor(*stage, n));
            Res::Done(r)
        })(),
        Op::ShowErr(stage, text) => {
            let r = match lib(|| Doc::load(*stage, text).map(|_| ()).map_err(|e| e.to_string())) {
                Ok(r) => r,
                Err(Caught::Injected(k)) => return Some(Res::Cut(k)),
                Err(Caught::Panic(m)) => return Some(Res::Panic(m)),
            };
            Res::Done(format!("{r:?}"))
        }
    })
}

pub fn push(d: &mut Doc, sec: usize, how: How, n: &Node, line: u32) -> Res {
    macro_rules! plain {
        ($d:expr, $m:ident, $ast:ident) => {{
            let v = tracked(|| $m::variant(n));
            match how {
                How::Variant => Res::Done(show(call!($d.push(v)))),
                How::VariantUnchecked => {
                    call!($d.push_unchecked(v));
                    Res::Done("ok".into())
                }
                How::Chunk => {
                    let c = tracked(|| $ast::Chunk::new_unchecked(line, v));
                    Res::Done(show(call!($d.push_chunk(c))))
                }
                How::ChunkUnchecked => {
                    let c = tracked(|| $ast::Chunk::new_unchecked(line, v));
                    call!($d.push_chunk_unchecked(c));
                    Res::Done("ok".into())
                }
            }
        }};
    }
    match d {
        Doc::D1(d) => plain!(d, s1, ast1),
        Doc::D2(d) => plain!(d, s2, ast2),
        Doc::D3(d) => {
            let v = tracked(|| s3::variant(n));
            let chunk = |v| tracked(|| ast3::Chunk::new_unchecked(line, v));
            match (sec, how) {
                (0, How::Variant) => Res::Done(show(call!(d.push_preamable(v)))),
                (1, How::Variant) => Res::Done(show(call!(d.push_body(v)))),
                (_, How::Variant) => Res::Done(show(call!(d.push_trailing(v)))),
                (0, How::Chunk) => {
                    let c = chunk(v);
                    Res::Done(show(call!(d.push_preamable_chunk(c))))
                }
                (1, How::Chunk) => {
                    let c = chunk(v);
                    Res::Done(show(call!(d.push_body_chunk(c))))
                }
                (_, How::Chunk) => {
                    let c = chunk(v);
                    Res::Done(show(call!(d.push_trailing_chunk(c))))
                }
                (s, How::VariantUnchecked) => {
                    match s {
                        0 => call!(d.push_preamable_unchecked(v)),
                        1 => call!(d.push_body_unchecked(v)),
                        _ => call!(d.push_trailing_unchecked(v)),
                    }
                    Res::Done("ok".into())
                }
                (s, How::ChunkUnchecked) => {
                    let c = chunk(v);
                    match s {
                        0 => call!(d.push_preamable_chunk_unchecked(c)),
                        1 => call!(d.push_body_chunk_unchecked(c)),
                        _ => call!(d.push_trailing_chunk_unchecked(c)),
                    }
                    Res::Done("ok".into())
                }
            }
        }
    }
}

