//! C12: a part taken out of a document is and becomes alone what it is and
//! becomes within it.
//!
//! A run loads the texts a damaged storage gives back, takes the documents
//! apart through owning and borrowing accessors, drops them, and moves the
//! parts alone through the stages, some of the attempts being cut short by a
//! failing allocation first.  The oracle is the reference reader, applied to
//! the text of the part.

use crate::c06::{call, storage_plan, storage_run, without_comments};
use crate::doc::{s1, s2, s3, Doc};
use crate::engine::{self, Check, Fail, Run, Tier};
use crate::ensure;
use crate::node::nl;
use crate::reader;
use crate::rng::{hash, mix, Rng};
use crate::seams::{self, Caught};
use crate::sx::Sx;
use latex_ast::ast1::IntoChunks as _;
use latex_ast::ast2::IntoChunks as _;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3};

pub struct C12;

/// a part that stands alone
#[derive(Clone)]
enum Part {
    C1(ast1::Command),
    S1(ast1::Scope),
    C2(ast2::Command),
    S2(ast2::Scope),
    E2(ast2::Environment),
    C3(ast3::Command),
    S3(ast3::Scope),
    E3(ast3::Environment),
    M3(ast3::MathsBlock),
    /// the parts of a list from one of them on, as they are numbered there
    L1(Vec<ast1::Chunk>),
    L2(Vec<ast2::Chunk>),
    L3(Vec<ast3::Chunk>),
}
use Part::*;

macro_rules! each {
    ($p:expr, $c:ident => $e:expr) => {
        match $p {
            C1($c) => $e,
            S1($c) => $e,
            C2($c) => $e,
            S2($c) => $e,
            E2($c) => $e,
            C3($c) => $e,
            S3($c) => $e,
            E3($c) => $e,
            M3($c) => $e,
            L1(_) | L2(_) | L3(_) => unreachable!(),
        }
    };
}

/// picks some of the parts, evenly
struct Pick {
    n: usize,
    step: usize,
    out: Vec<Part>,
}

impl Pick {
    fn part(&mut self, p: impl FnOnce() -> Part) {
        if self.n % self.step == 0 {
            self.out.push(p());
        }
        self.n += 1;
    }
}

macro_rules! list {
    ($p:expr, $cs:expr, $l:ident) => {
        if !$cs.is_empty() {
            // from one of its parts on, another one each time
            let i = ($p.n / $p.step) % $cs.len();
            $p.part(|| $l($cs[i..].to_vec()));
        }
    };
}

fn in1(cs: &[ast1::Chunk], p: &mut Pick) {
    list!(p, cs, L1);
    for c in cs {
        match c.variant() {
            ast1::ChunkVariant::Command(c) => {
                p.part(|| C1(c.clone()));
                for (_, s) in c.arguments() {
                    p.part(|| S1(s.clone()));
                    in1(s.chunks(), p);
                }
            }
            ast1::ChunkVariant::Scope(s) => {
                p.part(|| S1(s.clone()));
                in1(s.chunks(), p);
            }
            _ => {}
        }
    }
}

fn in2(cs: &[ast2::Chunk], p: &mut Pick) {
    list!(p, cs, L2);
    for c in cs {
        match c.variant() {
            ast2::ChunkVariant::Command(c) => {
                p.part(|| C2(c.clone()));
                for (_, s) in c.arguments() {
                    p.part(|| S2(s.clone()));
                    in2(s.chunks(), p);
                }
            }
            ast2::ChunkVariant::Scope(s) => {
                p.part(|| S2(s.clone()));
                in2(s.chunks(), p);
            }
            ast2::ChunkVariant::Environment(e) => {
                p.part(|| E2(e.clone()));
                let (_, args, content, ..) = e.clone().decompose();
                for (_, s) in &args {
                    p.part(|| S2(s.clone()));
                    in2(s.chunks(), p);
                }
                in2(&content, p);
            }
            _ => {}
        }
    }
}

fn in3(cs: &[ast3::Chunk], p: &mut Pick) {
    list!(p, cs, L3);
    for c in cs {
        match c.variant() {
            ast3::ChunkVariant::Command(c) => {
                p.part(|| C3(c.clone()));
                for (_, s) in c.arguments() {
                    p.part(|| S3(s.clone()));
                    in3(s.chunks(), p);
                }
            }
            ast3::ChunkVariant::Scope(s) => {
                p.part(|| S3(s.clone()));
                in3(s.chunks(), p);
            }
            ast3::ChunkVariant::Environment(e) => {
                p.part(|| E3(e.clone()));
                let (_, args, content, ..) = e.clone().decompose();
                for (_, s) in &args {
                    p.part(|| S3(s.clone()));
                    in3(s.chunks(), p);
                }
                in3(&content, p);
            }
            ast3::ChunkVariant::MathsBlock(m) => p.part(|| M3(m.clone())),
            _ => {}
        }
    }
}

fn all(d: &Doc, p: &mut Pick) {
    match d {
        Doc::D1(d) => in1(d.chunks(), p),
        Doc::D2(d) => in2(d.chunks(), p),
        Doc::D3(d) => {
            for cs in [d.chunks_preamable(), d.chunks_body(), d.chunks_trailing()] {
                in3(cs, p);
            }
        }
    }
}

fn parts(d: &Doc, some: usize) -> Vec<Part> {
    let mut p = Pick { n: 1, step: usize::MAX, out: vec![] };
    all(d, &mut p);
    let mut p = Pick { n: some % 1009, step: (p.n / 24).max(1), out: vec![] };
    all(d, &mut p);
    p.out
}

impl Part {
    fn stage(&self) -> u8 {
        match self {
            C1(_) | S1(_) | L1(_) => 1,
            C2(_) | S2(_) | E2(_) | L2(_) => 2,
            _ => 3,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            C1(_) | C2(_) | C3(_) => "command",
            S1(_) | S2(_) | S3(_) => "scope",
            E2(_) | E3(_) => "environment",
            M3(_) => "maths block",
            _ => "list of parts",
        }
    }
    fn text(&self) -> String {
        match self {
            L1(v) => v.iter().map(|c| c.to_string()).collect(),
            L2(v) => v.iter().map(|c| c.to_string()).collect(),
            L3(v) => v.iter().map(|c| c.to_string()).collect(),
            p => each!(p, x => x.to_string()),
        }
    }
    fn lines(&self) -> Option<u32> {
        Some(match self {
            L1(_) | L2(_) | L3(_) => return None,
            p => each!(p, x => x.lines()),
        })
    }
    /// the line it says it starts on
    fn first(&self) -> u32 {
        match self {
            L1(v) => v.first().map_or(1, |c| c.line_no()),
            L2(v) => v.first().map_or(1, |c| c.line_no()),
            L3(v) => v.first().map_or(1, |c| c.line_no()),
            _ => 1,
        }
    }
    /// its dump, when its list starts on the line
    fn dump(&self, line: u32) -> String {
        let mut out = String::new();
        macro_rules! one {
            ($s:ident, $ast:ident, $k:ident, $x:expr) => {
                $s::dump_chunks(&[$ast::Chunk::new_unchecked(1, $ast::ChunkVariant::$k($x.clone()))], &mut out)
            };
        }
        macro_rules! many {
            ($s:ident, $ast:ident, $v:expr) => {{
                let v: Vec<_> = $v
                    .iter()
                    .map(|c| $ast::Chunk::new_unchecked((c.line_no() + 1).wrapping_sub(line), c.variant().clone()))
                    .collect();
                $s::dump_chunks(&v, &mut out)
            }};
        }
        match self {
            C1(x) => one!(s1, ast1, Command, x),
            S1(x) => one!(s1, ast1, Scope, x),
            C2(x) => one!(s2, ast2, Command, x),
            S2(x) => one!(s2, ast2, Scope, x),
            E2(x) => one!(s2, ast2, Environment, x),
            C3(x) => one!(s3, ast3, Command, x),
            S3(x) => one!(s3, ast3, Scope, x),
            E3(x) => one!(s3, ast3, Environment, x),
            M3(x) => one!(s3, ast3, MathsBlock, x),
            L1(v) => many!(s1, ast1, v),
            L2(v) => many!(s2, ast2, v),
            L3(v) => many!(s3, ast3, v),
        }
        out
    }
    fn same(&self, o: &Part) -> bool {
        match (self, o) {
            (C1(x), C1(y)) => x == y,
            (S1(x), S1(y)) => x == y,
            (C2(x), C2(y)) => x == y,
            (S2(x), S2(y)) => x == y,
            (E2(x), E2(y)) => x == y,
            (C3(x), C3(y)) => x == y,
            (S3(x), S3(y)) => x == y,
            (E3(x), E3(y)) => x == y,
            (M3(x), M3(y)) => x == y,
            (L1(x), L1(y)) => x == y,
            (L2(x), L2(y)) => x == y,
            (L3(x), L3(y)) => x == y,
            _ => false,
        }
    }
    /// half of something that only the list it stands in can move up
    fn half(&self) -> bool {
        match self {
            C1(c) => c.label() == "begin" || c.label() == "end",
            C2(c) => matches!(c.label().as_str(), "(" | ")" | "[" | "]"),
            _ => false,
        }
    }
    fn up(self) -> Option<Result<Part, latex_ast::Error>> {
        Some(match self {
            p if p.half() => return None,
            C1(c) => ast2::Command::try_from(c).map(C2),
            S1(s) => ast2::Scope::try_from(s).map(S2),
            C2(c) => ast3::Command::try_from(c).map(C3),
            S2(s) => ast3::Scope::try_from(s).map(S3),
            E2(e) => ast3::Environment::try_from(e).map(E3),
            L1(v) => ast2::Document::try_from(ast1::Document::new_unchecked(v)).map(|d| L2(d.chunks_owned())),
            L2(v) => ast3::MathsBlock::from_chunks(v).map(|v| L3(ast3::Paragraph::from_chunks(v))),
            _ => return None,
        })
    }
    /// one stage down, through each of the doors there are
    fn down(self) -> Vec<Part> {
        fn list1(v: Vec<ast2::Chunk>) -> Part {
            let mut d = ast1::Document::new_unchecked(vec![]);
            for c in v {
                d.push_into_unchecked(c);
            }
            L1(d.chunks_owned())
        }
        fn list2(v: Vec<ast3::Chunk>) -> Part {
            let mut d = ast2::Document::new_unchecked(vec![]);
            for c in v {
                for c in c.into_chunks() {
                    d.push_chunk_unchecked(c);
                }
            }
            L2(d.chunks_owned())
        }
        fn at2(v: ast2::ChunkVariant) -> Vec<ast2::Chunk> {
            vec![ast2::Chunk::new_unchecked(1, v)]
        }
        fn at3(v: ast3::ChunkVariant) -> Vec<ast3::Chunk> {
            vec![ast3::Chunk::new_unchecked(1, v)]
        }
        match self {
            C2(c) => vec![C1(c.clone().into()), list1(at2(ast2::ChunkVariant::Command(c)))],
            S2(s) => vec![S1(s.clone().into()), S1(s.clone().to_ast1_scope()), list1(at2(ast2::ChunkVariant::Scope(s)))],
            E2(e) => vec![list1(at2(ast2::ChunkVariant::Environment(e)))],
            C3(c) => vec![C2(c.clone().into()), list2(at3(ast3::ChunkVariant::Command(c)))],
            S3(s) => vec![S2(s.clone().into()), list2(at3(ast3::ChunkVariant::Scope(s)))],
            E3(e) => vec![E2(e.clone().into()), list2(at3(ast3::ChunkVariant::Environment(e)))],
            M3(m) => {
                let mut d = ast2::Document::new_unchecked(vec![]);
                for c in m.clone().into_chunks() {
                    d.push_chunk_unchecked(c);
                }
                vec![L2(d.chunks_owned()), list2(at3(ast3::ChunkVariant::MathsBlock(m)))]
            }
            L2(v) => vec![list1(v)],
            L3(v) => vec![list2(v)],
            _ => vec![],
        }
    }
    /// taken to pieces and put together again
    fn rebuilt(self) -> Part {
        macro_rules! args {
            ($ast:ident, $v:expr) => {
                $v.into_iter()
                    .map(|(p, s)| {
                        let b = s.variant();
                        (p, $ast::Scope::new_unchecked(s.chunks_owned(), b))
                    })
                    .collect()
            };
        }
        macro_rules! command {
            ($ast:ident, $c:expr) => {{
                let label = $c.clone().label_owned();
                let args: Vec<(String, $ast::Scope)> = $c.arguments_owned();
                $ast::Command::new_unchecked(label, args!($ast, args))
            }};
        }
        macro_rules! scope {
            ($ast:ident, $s:expr) => {{
                let (v, b) = $s.decompose();
                $ast::Scope::new_unchecked(list!($ast, v), b)
            }};
        }
        macro_rules! list {
            ($ast:ident, $v:expr) => {
                $v.into_iter()
                    .map(|c| {
                        let l = c.line_no();
                        let v = c.clone().variant_owned();
                        if l % 2 == 0 {
                            let (l, v) = c.decompose();
                            return $ast::Chunk::new_unchecked(l, v);
                        }
                        $ast::Chunk::new_unchecked(l, v)
                    })
                    .collect::<Vec<_>>()
            };
        }
        macro_rules! env {
            ($ast:ident, $e:expr) => {{
                let (l, a, c, pb, pe) = $e.decompose();
                $ast::Environment::new_unchecked(l, args!($ast, a), list!($ast, c), pb, pe)
            }};
        }
        match self {
            C1(c) => C1(command!(ast1, c)),
            C2(c) => C2(command!(ast2, c)),
            C3(c) => C3(command!(ast3, c)),
            S1(s) => S1(scope!(ast1, s)),
            S2(s) => S2(scope!(ast2, s)),
            S3(s) => S3(scope!(ast3, s)),
            E2(e) => E2(env!(ast2, e)),
            E3(e) => E3(env!(ast3, e)),
            L1(v) => L1(list!(ast1, v)),
            L2(v) => L2(list!(ast2, v)),
            L3(v) => L3(list!(ast3, v)),
            M3(m) => M3(m),
        }
    }
}

/// a call that a failing allocation cuts short first
fn cut<R>(k: u64, f: impl FnOnce() -> R) -> Run {
    seams::set_limit(1_000_000_000);
    seams::arm_alloc(k);
    let r = seams::lib(f);
    let fired = seams::disarm_alloc();
    seams::arm_alloc(0);
    match r {
        Err(Caught::Panic(m)) => Err(engine::viol("panic", format!("a call panicked by itself: {m}"))),
        r => {
            if fired {
                engine::count("fault:failed allocation", 1);
            }
            crate::seams::tracked(|| drop(r));
            Ok(())
        }
    }
}

/// where a part came from and what it has to be
fn stands(p: &Part, line: u32, text: &str, what: &str) -> Run {
    let (s, n) = (p.stage(), p.name());
    let got = call("rendering", || p.text())?;
    ensure!(got == text, "text", "stage {s}, {what}: the {n} renders as {got:?} instead of {text:?}");
    if let Some(l) = call("line counting", || p.lines())? {
        ensure!(l == nl(text) + 1, "lines", "stage {s}, {what}: the {n} {text:?} counts {l} lines");
    }
    match reader::part(s, text) {
        Ok(want) => {
            let got = p.dump(line);
            ensure!(got == want, "parts", "stage {s}, {what}: the {n} {text:?} is {got} instead of {want}");
            Ok(())
        }
        Err(e) => Err(engine::viol("accepted", format!("stage {s}, {what}: the {n} {text:?} stands in spite of {e:?}"))),
    }
}

fn moves(p: &Part, r: &mut Rng) -> Run {
    let (s, n, line) = (p.stage(), p.name(), p.first());
    let text = call("rendering", || p.text())?;
    stands(p, line, &text, "taken out")?;
    engine::count(&format!("{n} at stage {s}"), 1);
    engine::case(mix(hash(text.as_bytes()) ^ hash(n.as_bytes()) ^ s as u64));
    let again = call("taking apart", || p.clone().rebuilt())?;
    ensure!(again.same(p), "pieces", "stage {s}: the {n} {text:?}, put together from its pieces, is {}", again.dump(line));
    if r.one_in(3) {
        let k = 1 + r.below(12) as u64;
        let was = p.dump(line);
        let (x, y) = (p.clone(), p.clone());
        cut(k, move || x.up())?;
        cut(k, move || y.down())?;
        ensure!(p.dump(line) == was, "changed", "stage {s}: the {n} {text:?} changed while a copy was moved: {}", p.dump(line));
    }
    if let Some(up) = call("conversion", || p.clone().up())? {
        match (reader::part(s + 1, &text), up) {
            (Ok(_), Ok(up)) => {
                stands(&up, line, &text, "moved up alone")?;
                engine::count("parts moved up", 1);
                for down in call("conversion", || up.down())? {
                    if matches!((&down, p), (L1(_) | L2(_), C1(_) | S1(_) | C2(_) | S2(_) | E2(_))) {
                        stands(&down, line, &text, "moved up and back as a list")?;
                    } else {
                        ensure!(down.same(p), "back", "stage {s}: the {n} {text:?} moved up and back is {}", down.dump(line));
                    }
                }
            }
            (Err(w), Err(e)) => {
                engine::count("parts refused", 1);
                let kind = format!("{:?}", e.r#type);
                ensure!(
                    kind == w.kind && e.line == w.line + line - 1,
                    "refusal",
                    "stage {s}: the {n} {text:?}, starting on line {line}, is refused with {e:?}, its offence is {w:?}"
                );
            }
            (Ok(w), Err(e)) => return Err(engine::viol("refused", format!("stage {s}: the {n} {text:?} is refused with {e:?} instead of {w}"))),
            (Err(w), Ok(x)) => return Err(engine::viol("accepted", format!("stage {s}: the {n} {text:?} moves up to {} in spite of {w:?}", x.dump(line)))),
        }
    }
    for down in call("conversion", || p.clone().down())? {
        stands(&down, line, &text, "moved down alone")?;
        engine::count("parts moved down", 1);
    }
    if let L3(v) = p {
        let again = call("paragraphs", || L3(ast3::Paragraph::from_chunks(v.clone())))?;
        ensure!(again.same(p), "paragraphs", "the breaks of {text:?}, cut out again, give {}", again.dump(line));
    }
    Ok(())
}

fn judge(text: &str) -> Run {
    let bare = without_comments(text);
    let mut r = Rng::new(hash(text.as_bytes()));
    for stage in 1..=3u8 {
        engine::note(&format!("parts at stage {stage}: {:?}", engine::clip(text, 600)));
        let Ok(d) = call("loading", || Doc::load(stage, text))? else { break };
        // put together again from all its parts
        let again = call("putting together", || match d.clone() {
            Doc::D1(d) => {
                let mut e = ast1::Document::new_unchecked(vec![]);
                for c in d.chunks_owned() {
                    e.push_unchecked(c.variant_owned());
                }
                Doc::D1(e)
            }
            Doc::D2(d) => {
                let mut e = ast2::Document::new_unchecked(vec![]);
                for c in d.chunks_owned() {
                    e.push_unchecked(c.variant_owned());
                }
                Doc::D2(e)
            }
            d => d,
        })?;
        ensure!(again.same(&d), "pieces", "stage {stage}: the document put together from its parts is {}", again.dump());
        let some = call("taking out", || parts(&d, r.next() as usize))?;
        seams::tracked(|| drop(d));
        for p in &some {
            moves(p, &mut r)?;
        }
        seams::tracked(|| drop(some));
    }
    engine::event(bare.as_bytes());
    Ok(())
}

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 3_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, _t: Tier) -> Sx {
        storage_plan(r, 40)
    }
    fn run(&self, plan: &Sx) -> Run {
        storage_run(plan, &judge)
    }
    fn rule(&self) -> &'static str {
        "one evaluation = one damaged text, or one part taken out of the document it loads as, checked alone, taken to pieces and moved alone to the stages above and below; distinct by kind, stage and text of the part"
    }
    fn components(&self) -> &'static str {
        "real: loading, accessors, constructors and conversions of the parts of all stages of latex_ast built from /repo; simulated: storage faults before loading, failing allocations; stub: reading the file (lossy UTF-8 decoding)"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "texts are nested at most 600 levels deep, on a large stack",
            "the halves of environments and of maths blocks (\\begin, \\end, \\(, \\), \\[, \\]) are moved with the list they stand in only",
        ]
    }
}
