//! C06: damaged stored text is refused or loaded faithfully, never mangled.
//!
//! A run stores two versions of a text on the simulated disk, lets crashes
//! and storage faults damage what is on the platter, and loads the result at
//! every stage, on a thread with a small stack.

use crate::doc::Doc;
use crate::engine::{self, Check, Fail, Run, Tier};
use crate::gen::{self, Cfg};
use crate::node::nl;
use crate::rng::{hash, mix, Rng};
use crate::seams::{self, lib, Caught};
use crate::sx::{a, Sx};
use crate::{ensure, sxl};

pub struct C06;

/// a fault of the storage; positions are bytes
#[derive(Clone, PartialEq)]
enum Dmg {
    /// cut at a byte
    Trunc(usize),
    /// only the first of the bytes from here to there arrived
    Zero(usize, usize),
    Lose(usize, usize),
    /// a range was written twice
    Twice(usize, usize),
    /// in-place overwrite with the other version, cut at a byte
    Over(usize, usize),
    /// of each sector of this size one version is on the platter
    Sectors(usize, u64),
    /// bits of one byte
    Flip(usize, u8),
    /// a range went to another place
    Misplace(usize, usize, usize),
    /// two sectors changed places
    Swap(usize, usize, usize),
}

impl Dmg {
    fn sx(&self) -> Sx {
        match self {
            Dmg::Trunc(i) => sxl![a("truncate"), a(i)],
            Dmg::Zero(i, j) => sxl![a("zero"), a(i), a(j)],
            Dmg::Lose(i, j) => sxl![a("lose"), a(i), a(j)],
            Dmg::Twice(i, j) => sxl![a("twice"), a(i), a(j)],
            Dmg::Over(i, j) => sxl![a("overwrite"), a(i), a(j)],
            Dmg::Sectors(n, m) => sxl![a("sectors"), a(n), a(m)],
            Dmg::Flip(i, b) => sxl![a("flip"), a(i), a(b)],
            Dmg::Misplace(i, j, k) => sxl![a("misplace"), a(i), a(j), a(k)],
            Dmg::Swap(i, j, n) => sxl![a("swap"), a(i), a(j), a(n)],
        }
    }
    fn from(s: &Sx) -> Option<Dmg> {
        let n = |i: usize| s.at(i).and_then(|x| x.us());
        Some(match s.head()? {
            "truncate" => Dmg::Trunc(n(1)?),
            "zero" => Dmg::Zero(n(1)?, n(2)?),
            "lose" => Dmg::Lose(n(1)?, n(2)?),
            "twice" => Dmg::Twice(n(1)?, n(2)?),
            "overwrite" => Dmg::Over(n(1)?, n(2)?),
            "sectors" => Dmg::Sectors(n(1)?, n(2)? as u64),
            "flip" => Dmg::Flip(n(1)?, n(2)? as u8),
            "misplace" => Dmg::Misplace(n(1)?, n(2)?, n(3)?),
            "swap" => Dmg::Swap(n(1)?, n(2)?, n(3)?),
            _ => return None,
        })
    }
    fn name(&self) -> &'static str {
        match self {
            Dmg::Trunc(_) => "fault:truncated",
            Dmg::Zero(..) => "fault:range zeroed",
            Dmg::Lose(..) => "fault:range lost",
            Dmg::Twice(..) => "fault:range written twice",
            Dmg::Over(..) => "fault:overwrite torn",
            Dmg::Sectors(..) => "fault:sectors of two versions mixed",
            Dmg::Flip(..) => "fault:bits flipped",
            Dmg::Misplace(..) => "fault:misdirected write",
            Dmg::Swap(..) => "fault:sectors swapped",
        }
    }
    fn apply(&self, t: &mut Vec<u8>, other: &[u8]) {
        let n = t.len();
        let c = |i: usize| i.min(n);
        match self {
            Dmg::Trunc(i) => t.truncate(*i),
            Dmg::Zero(i, j) => {
                if c(*i) < c(*j) {
                    t[c(*i)..c(*j)].fill(0)
                }
            }
            Dmg::Lose(i, j) => {
                if c(*i) < c(*j) {
                    t.drain(c(*i)..c(*j));
                }
            }
            Dmg::Twice(i, j) => {
                if c(*i) < c(*j) {
                    let v = t[c(*i)..c(*j)].to_vec();
                    t.splice(c(*j)..c(*j), v);
                }
            }
            Dmg::Over(i, j) => {
                t.truncate(c(*i));
                t.extend_from_slice(&other[(*j).min(other.len())..]);
            }
            Dmg::Sectors(size, m) => {
                let size = (*size).max(1);
                let len = n.max(other.len());
                let mut out = Vec::new();
                for (k, from) in (0..len).step_by(size).enumerate() {
                    let v: &[u8] = if mix(m ^ k as u64) & 1 == 0 { t } else { other };
                    out.extend_from_slice(&v[from.min(v.len())..(from + size).min(v.len())]);
                }
                *t = out;
            }
            Dmg::Flip(i, b) => {
                if *i < n {
                    t[*i] ^= b
                }
            }
            Dmg::Misplace(i, j, k) => {
                if c(*i) < c(*j) {
                    let v = t[c(*i)..c(*j)].to_vec();
                    for (x, y) in v.iter().enumerate() {
                        if k + x < n {
                            t[k + x] = *y
                        }
                    }
                }
            }
            Dmg::Swap(i, j, len) => {
                for x in 0..*len {
                    if i + x < n && j + x < n {
                        t.swap(i + x, j + x)
                    }
                }
            }
        }
    }
}

/// the text without its comments: from an unescaped % up to the line break
pub fn without_comments(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                out.push(c);
                if let Some(n) = it.next() {
                    out.push(n);
                }
            }
            '%' => {
                while it.peek().is_some_and(|c| *c != '\n') {
                    it.next();
                }
            }
            c => out.push(c),
        }
    }
    out
}

pub fn call<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    seams::set_limit(1_000_000_000);
    match lib(f) {
        Ok(r) => Ok(r),
        Err(Caught::Panic(m)) => Err(engine::viol("panic", format!("{what} panicked: {m}"))),
        Err(Caught::Injected(_)) => Err(engine::viol("harness", "stray fault")),
    }
}

/// everything the property says about one text
pub fn judge(text: &str) -> Run {
    let bare = without_comments(text);
    let mut before: Option<Result<Doc, latex_ast::Error>> = None;
    for stage in 1..=3u8 {
        engine::note(&format!("loading at stage {stage}: {:?}", engine::clip(text, 600)));
        let r = call(&format!("loading at stage {stage}"), || Doc::load(stage, text))?;
        // stage by stage gives the same as at once
        if let Some(b) = before.take() {
            if let (Ok(Doc::D2(low)), Ok(d @ Doc::D3(_))) = (&b, &r) {
                let (got, want) = (d.class(), crate::doc::declared(low));
                ensure!(
                    want.as_deref() == Some(got.as_str()),
                    "class",
                    "stage {stage}: reports class and options {got}, the text declares {want:?} (None: two classes)"
                );
            }
            let up = call("conversion", || b.and_then(Doc::raise))?;
            match (&r, &up) {
                (Ok(x), Ok(y)) => ensure!(
                    x.same(y) && x.dump() == y.dump(),
                    "stages",
                    "stage {stage}: loading gives {:?}, stage {} converted gives {:?}",
                    x.dump(),
                    stage - 1,
                    y.dump()
                ),
                (Err(x), Err(y)) => ensure!(
                    x == y,
                    "stages",
                    "stage {stage}: loading is refused with {x:?}, stage {} and conversion with {y:?}",
                    stage - 1
                ),
                (x, y) => {
                    let s = |r: &Result<Doc, latex_ast::Error>| match r {
                        Ok(d) => d.dump(),
                        Err(e) => format!("{e:?}"),
                    };
                    return Err(engine::viol(
                        "stages",
                        format!("stage {stage}: loading gives {}, stage {} and conversion {}", s(x), stage - 1, s(y)),
                    ));
                }
            }
        }
        match &r {
            Err(e) => {
                engine::count("texts refused", 1);
                let max = nl(text) + 1;
                ensure!(
                    e.line >= 1 && e.line <= max,
                    "error-line",
                    "stage {stage}: refused with {e:?}, but the text has {max} lines"
                );
                let shown = call("error display", || e.to_string())?;
                ensure!(!shown.is_empty(), "error-line", "stage {stage}: the error {e:?} shows as nothing");
            }
            Ok(d) => {
                engine::count("texts loaded", 1);
                let out = call("rendering", || d.render())?;
                ensure!(out == bare, "mangled", "stage {stage}: renders as {out:?}, the text without comments is {bare:?}");
                let parts = match d.walk() {
                    Ok(t) => t,
                    Err(e) => return Err(engine::viol("part-lines", format!("stage {stage}: {e}"))),
                };
                ensure!(parts == bare, "mangled", "stage {stage}: the parts together are {parts:?}, the text without comments is {bare:?}");
                let (got, want) = (call("lines", || d.lines())?, nl(&bare) + 1);
                ensure!(got == want, "lines", "stage {stage}: {got} lines, the text without comments has {want}");
                if let Err(e) = call("validate", || d.validate())? {
                    let s = format!("{e:?}");
                    ensure!(!s.contains("LineNumber"), "part-lines", "stage {stage}: validation says {s}");
                }
                match call("loading the rendering", || Doc::load(stage, &out))? {
                    Ok(b) => ensure!(
                        b.same(d) && b.dump() == d.dump(),
                        "reload",
                        "stage {stage}: the rendering {out:?} loads as {:?} instead of {:?}",
                        b.dump(),
                        d.dump()
                    ),
                    Err(e) => return Err(engine::viol("reload", format!("stage {stage}: the rendering {out:?} is refused: {e:?}"))),
                }
                if stage > 1 {
                    let x = d.clone();
                    let low = call("lowering", || x.lower())?;
                    if let Ok(b) = call("loading", || Doc::load(stage - 1, &out))? {
                        ensure!(
                            b.same(&low) && b.dump() == low.dump(),
                            "lowered",
                            "stage {stage}: lowered {:?}, loaded one stage lower {:?}",
                            low.dump(),
                            b.dump()
                        );
                    }
                }
            }
        }
        before = Some(r);
    }
    Ok(())
}

/// the text on a thread with the stack threads have by default
fn deep(t: &str, stage: u8) -> Run {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, || {
                if let Ok(d) = call("loading", || Doc::load(stage, t))? {
                    let out = call("rendering", || d.render())?;
                    ensure!(out == without_comments(t), "mangled", "stage {stage}: renders as {out:?}");
                    call("validate", || d.validate())?.ok();
                    let b = call("clone", || d.clone())?;
                    call("lowering", || d.lower())?;
                    let _ = call("conversion", || b.raise())?;
                }
                Ok(())
            })
            .unwrap_or_else(|_| engine::harness_error("cannot start a thread"))
            .join()
            .unwrap_or_else(|_| engine::panicked())
    })
}

/// nesting of the text, as an upper bound
fn nesting(t: &str) -> usize {
    let (mut d, mut m) = (0i64, 0);
    let mut i = 0;
    let b = t.as_bytes();
    while i < b.len() {
        match b[i] {
            b'{' | b'[' | b'(' => d += 1,
            b'}' | b']' | b')' => d -= 1,
            b'\\' if b[i..].starts_with(b"\\begin") => d += 1,
            b'\\' if b[i..].starts_with(b"\\end") => d -= 1,
            _ => {}
        }
        m = m.max(d);
        i += 1;
    }
    m as usize
}

fn damage(r: &mut Rng, len: usize, other: usize) -> Dmg {
    let p = |r: &mut Rng| r.below(len.max(1) + 1);
    let (x, y) = (p(r), p(r));
    let (i, j) = (x.min(y), x.max(y));
    let near = (i + r.range(1, 12)).min(len);
    match r.below(11) {
        0 | 1 => Dmg::Trunc(i),
        2 => Dmg::Zero(i, if r.pct(50) { j } else { near }),
        3 => Dmg::Lose(i, if r.pct(50) { j } else { near }),
        4 => Dmg::Twice(i, if r.pct(50) { j } else { near }),
        5 | 6 => Dmg::Over(i, r.below(other + 1)),
        7 => Dmg::Sectors(*r.pick(&[1, 2, 4, 8, 16, 64, 512]), r.next() >> 1),
        8 => Dmg::Flip(i, if r.pct(70) { 1 << r.below(8) } else { r.below(256) as u8 }),
        9 => Dmg::Misplace(i, near, p(r)),
        _ => {
            let n = *r.pick(&[1, 2, 4, 16, 512]);
            Dmg::Swap(i / n * n, j / n * n, n)
        }
    }
}

/// the places of a text that carry its structure
fn marks(t: &str) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = match b[i] {
            b'{' | b'}' | b'[' | b']' | b'(' | b')' | b'$' | b'%' | b'\n' | b',' | b'=' => 1,
            b'\\' => match ["\\begin", "\\end", "\\documentclass"].iter().find(|w| t[i..].starts_with(**w)) {
                Some(w) => w.len(),
                None => (i + 1..).find(|k| t.is_char_boundary(*k)).map_or(1, |k| k + 1 - i).min(b.len() - i),
            },
            _ => 0,
        };
        if n > 0 {
            v.push((i, i + n));
        }
        i += n.max(1);
    }
    v
}

/// damage that takes or doubles one mark, or moves it to another place
fn at_mark(r: &mut Rng, marks: &[(usize, usize)]) -> Dmg {
    let (i, j) = *r.pick(marks);
    let (k, l) = *r.pick(marks);
    match r.below(10) {
        0..=3 => Dmg::Lose(i, j),
        4 | 5 => Dmg::Twice(i, j),
        6 => Dmg::Lose(i, i + 1),
        7 => Dmg::Trunc(if r.pct(50) { i } else { j }),
        8 => Dmg::Misplace(i, j, k),
        _ => Dmg::Twice(i.min(k), j.max(l)),
    }
}

pub fn versions(r: &mut Rng) -> (String, String) {
    let one = |r: &mut Rng| match r.below(12) {
        0 => {
            let n = r.range(1, 50);
            gen::shape(r.below(gen::SHAPES), n)
        }
        1 => {
            let mut c = Cfg::draw(r);
            c.big = *r.pick(&[0, 200, 1500]);
            c.width = c.width.min(3);
            c.depth = c.depth.min(3);
            gen::doc3(r, &c).text()
        }
        2 => gen::soup(r, 60),
        _ => gen::source_text(r),
    };
    let x = one(r);
    let y = if r.pct(50) {
        // an edited version of the first
        let mut y = x.clone();
        let cut: Vec<usize> = y.char_indices().map(|p| p.0).chain([y.len()]).collect();
        let i = *r.pick(&cut);
        let c = Cfg::small(r);
        let n = gen::list(r, &c, 3, 2);
        y.insert_str(i, &crate::node::render(&n));
        y
    } else {
        one(r)
    };
    (x, y)
}

/// a text as storage faults leave it
pub fn damaged(r: &mut Rng) -> String {
    let (x, y) = versions(r);
    let mut b = x.into_bytes();
    for _ in 0..r.range(0, 2) {
        let d = damage(r, b.len(), y.len());
        d.apply(&mut b, y.as_bytes());
    }
    String::from_utf8_lossy(&b).into_owned()
}

/// two versions of a text and the faults the storage meets; so many percent
/// of them hit a place that carries structure
pub fn storage_plan(r: &mut Rng, aimed: usize) -> Sx {
    let tall = r.one_in(60);
    let (x, y) = if tall {
        // more levels or repetitions than a small counter holds
        let n = *r.pick(&[127, 128, 130, 254, 255, 256, 257, 260, 300, 520]);
        let x = gen::shape(r.below(gen::SHAPES), n);
        (x.clone(), x)
    } else {
        versions(r)
    };
    let marks = marks(&x);
    let mut v = vec![a("faults")];
    if r.pct(35) && !tall {
        v.push(sxl![a("everywhere"), a(r.pick(&["truncate", "flip", "lose", "overwrite", "zero", "twice"])), a(r.next() >> 1)]);
    } else {
        for _ in 0..r.range(4, 24) {
            let mut one = vec![a("case")];
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                one.push(if !marks.is_empty() && r.pct(aimed) {
                    at_mark(r, &marks).sx()
                } else {
                    damage(r, x.len(), y.len()).sx()
                });
            }
            v.push(Sx::L(one));
        }
    }
    sxl![a("plan"), sxl![a("stored"), a(x)], sxl![a("version"), a(y)], Sx::L(v)]
}

/// judges the stored text under each of the faults
pub fn storage_run(plan: &Sx, judge: &dyn Fn(&str) -> Run) -> Run {
    let text = |k: &str| plan.field(k).and_then(|s| s.at(1)).and_then(|s| s.atom()).map(|s| s.to_string());
    let x = text("stored").ok_or(Fail::Invalid)?;
    let y = text("version").unwrap_or_default();
    let faults = plan.rest("faults").ok_or(Fail::Invalid)?;
    let mut cases: Vec<Vec<Dmg>> = vec![vec![]];
    for f in faults {
        match f.head() {
            Some("case") => cases.push(
                f.list().unwrap_or(&[])[1..]
                    .iter()
                    .map(Dmg::from)
                    .collect::<Option<Vec<_>>>()
                    .ok_or(Fail::Invalid)?,
            ),
            // one crash point after the other
            Some("everywhere") => {
                let mut r = Rng::new(f.at(2).and_then(|s| s.us()).unwrap_or(1) as u64);
                let what = f.at(1).and_then(|s| s.atom()).unwrap_or("");
                let n = x.len();
                let step = (n / 160).max(1);
                for i in (0..=n).step_by(step) {
                    let i = if step > 1 { (i + r.below(step)).min(n) } else { i };
                    cases.push(vec![match what {
                        "truncate" => Dmg::Trunc(i),
                        "flip" => Dmg::Flip(i, 1 << r.below(8)),
                        "lose" => Dmg::Lose(i, i + r.range(1, 3)),
                        "overwrite" => Dmg::Over(i, if r.pct(60) { i } else { r.below(y.len() + 1) }),
                        "zero" => Dmg::Zero(i, i + r.range(1, 8)),
                        _ => Dmg::Twice(i, i + r.range(1, 6)),
                    }]);
                }
            }
            _ => return Err(Fail::Invalid),
        }
    }
    let s0 = seams::STEPS.get();
    let mut budget = 60_000u64;
    let mut seen = std::collections::HashSet::new();
    for case in &cases {
        let mut b = x.clone().into_bytes();
        for d in case {
            let was = b.clone();
            d.apply(&mut b, y.as_bytes());
            if b != was {
                engine::count(d.name(), 1);
            }
        }
        let t = String::from_utf8_lossy(&b).into_owned();
        let h = hash(t.as_bytes());
        if !seen.insert(h) || nesting(&t) > 600 {
            continue;
        }
        // deep and long texts cost their square
        let cost = (t.len() as u64 + 60).pow(2) / 100;
        if cost > budget && seen.len() > 3 {
            continue;
        }
        budget = budget.saturating_sub(cost);
        judge(&t).map_err(|f| match f {
            Fail::Violation { class, msg, .. } => Fail::Violation {
                class,
                msg: engine::clip(&format!("text {t:?}: {msg}"), 3000),
                refined: Some(sxl![
                    a("plan"),
                    sxl![a("stored"), a(&t)],
                    sxl![a("version"), a("")],
                    sxl![a("faults")]
                ]),
            },
            f => f,
        })?;
        engine::case(h);
        engine::event(&h.to_le_bytes());
        engine::maximum("bytes of a text", t.len() as u64);
    }
    engine::count("simulated steps", seams::STEPS.get() - s0);
    Ok(())
}

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, _t: Tier) -> Sx {
        if r.one_in(25) {
            return sxl![a("plan"), sxl![a("deep"), a(r.below(gen::SHAPES)), a(r.range(30, 100)), a(r.range(1, 3))]];
        }
        storage_plan(r, 15)
    }

    fn run(&self, plan: &Sx) -> Run {
        if let Some(d) = plan.rest("deep") {
            let n = |i: usize| d.get(i).and_then(|s| s.us()).ok_or(Fail::Invalid);
            let (kind, depth, stage) = (n(0)?, n(1)?, n(2)?.clamp(1, 3) as u8);
            let t = gen::shape(kind, depth);
            engine::note(&format!("shape {kind}, {depth} levels, stage {stage}, on a stack of 2 MiB"));
            deep(&t, stage)?;
            engine::count("fault:small stack (2 MiB)", 1);
            engine::case(hash(format!("{kind} {depth} {stage}").as_bytes()));
            return Ok(());
        }
        storage_run(plan, &judge)
    }

    /// the recorded finding: very deep nesting exhausts the stack
    fn epilogue(&self, _seed: u64, _tier: Tier) -> Vec<String> {
        let plan = sxl![a("plan"), sxl![a("deep"), a(0), a(5000), a(3)]];
        let o = engine::try_plan(self, &plan);
        if o.status == engine::OK {
            return vec!["json:\"known_findings_seen\": []".into()];
        }
        if o.status == engine::VIOLATION && o.class == "crash" {
            if let Some(line) = engine::known("C06", "deep-nesting") {
                return vec![line, "json:\"known_findings_seen\": [\"deep-nesting\"]".into()];
            }
        }
        // outside what the property claims (100 levels) and not what is recorded
        vec![format!("json:\"known_findings_seen\": [], \"deep_probe\": {}", engine::json_str(&o.class))]
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one damaged text loaded at all three stages and compared with the decommented text, its reloads and its lowerings; distinct by the damaged text"
    }
    fn components(&self) -> &'static str {
        "real: loading, conversion, validation, line counting and rendering of all stages of latex_ast built from /repo; simulated: storage faults between writing and loading; stub: reading the file (lossy UTF-8 decoding)"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["texts are nested at most 100 levels deep on the default stack and 600 on a large one (deeper nesting is the recorded finding)"]
    }
}
