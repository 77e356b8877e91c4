//! C02: editing histories keep every document equal to a sequential model.
//!
//! A run is a history of edits over six document slots.  After every step
//! every document is read back through the library's accessors and compared
//! with a model that knows nothing but lists and line counting.

use crate::doc::{s1, s2, s3, Doc};
use crate::engine::{self, Check, Fail, Run, Tier};
use crate::gen::{self, Cfg};
use crate::node::{self, nl, Node};
use crate::ops::{self, How, Op, Res, World, SLOTS};
use crate::rng::{hash, mix, Rng};
use crate::seams;
use crate::sx::{a, Sx};
use crate::{ensure, sxl};
use latex_ast::traits::{Lines, Validate};

pub struct C02;

/// a part in the model
#[derive(Clone)]
struct Part {
    line: u32,
    /// the text of a text part
    text: Option<String>,
    dump: String,
    render: String,
}

impl Part {
    fn of(line: u32, n: &Node) -> Part {
        match n {
            Node::Text(s) => Part { line, text: Some(s.clone()), dump: String::new(), render: s.clone() },
            n => {
                let mut dump = String::new();
                node::dump_nodes(&[(line, n)], &mut dump);
                Part { line, text: None, dump, render: node::render1(n) }
            }
        }
    }
    fn next(&self) -> u32 {
        self.line + nl(&self.render)
    }
    fn dump(&self, out: &mut String) {
        match &self.text {
            Some(s) => out.push_str(&format!("(T{} {s:?})", self.line)),
            None => out.push_str(&self.dump),
        }
    }
}

#[derive(Clone)]
struct MDoc {
    stage: u8,
    secs: [Vec<Part>; 3],
    bodyless: bool,
    /// text and dump of what stands before and after the body
    open: (String, String),
    close: (String, String),
    class: String,
    /// built only by accepted edits from a valid start
    valid: bool,
}

macro_rules! observe {
    ($m:ident, $ast:ident, $cs:expr) => {
        $cs.iter()
            .map(|c| {
                let mut dump = String::new();
                $m::dump_chunks(std::slice::from_ref(c), &mut dump);
                let render = c.to_string();
                let text = matches!(c.variant(), latex_ast::$ast::ChunkVariant::Text(_)).then(|| render.clone());
                Part { line: c.line_no(), text, dump, render }
            })
            .collect()
    };
}

impl MDoc {
    fn empty(stage: u8) -> MDoc {
        MDoc {
            stage,
            secs: Default::default(),
            bodyless: false,
            open: ("\\begin{document}".into(), "\nbegin\"\"|".into()),
            close: ("\\end{document}".into(), "|end\"\"".into()),
            class: if stage == 3 { "None []".into() } else { String::new() },
            valid: true,
        }
    }
    fn of_nodes(stage: u8, d: &node::Doc3) -> MDoc {
        let mut m = MDoc::empty(stage);
        let parts = |ns: &[Node]| node::number(ns).into_iter().map(|(l, n)| Part::of(l, n)).collect();
        m.secs[0] = parts(&d.pre);
        if stage == 3 {
            m.secs[2] = parts(&d.trail);
            if let Some(b) = &d.body {
                m.secs[1] = parts(&b.body);
                let mut args = String::new();
                node::render_args(&b.args, &mut args);
                let mut da = String::new();
                node::dump_args(&b.args, &mut da);
                m.open = (format!("\\begin{}{{document}}{args}", b.pb), format!("\nbegin{:?}{da}|", b.pb));
                m.close = (format!("\\end{}{{document}}", b.pe), format!("|end{:?}", b.pe));
            }
        }
        m
    }
    /// a start the model takes over as it is
    fn observe(d: &Doc) -> MDoc {
        let mut m = MDoc::empty(d.stage());
        m.class = d.class();
        m.valid = matches!(call("validation", || d.validate()), Ok(Ok(())));
        match d {
            Doc::D1(d) => m.secs[0] = observe!(s1, ast1, d.chunks()),
            Doc::D2(d) => m.secs[0] = observe!(s2, ast2, d.chunks()),
            Doc::D3(d) => {
                m.secs[0] = observe!(s3, ast3, d.chunks_preamable());
                m.secs[1] = observe!(s3, ast3, d.chunks_body());
                m.secs[2] = observe!(s3, ast3, d.chunks_trailing());
                m.bodyless = d.is_bodyless();
                let (_, _, _, _, args, pb, pe, _) = d.clone().decompose();
                let mut ra = String::new();
                let mut da = String::new();
                for (p, s) in &args {
                    ra.push_str(&format!("{p}{s}"));
                }
                s3::dump_args(&args, &mut da);
                m.open = (format!("\\begin{pb}{{document}}{ra}"), format!("\nbegin{pb:?}{da}|"));
                m.close = (format!("\\end{pe}{{document}}"), format!("|end{pe:?}"));
            }
        }
        m
    }
    fn dump(&self) -> String {
        let mut s = String::new();
        let list = |v: &[Part], s: &mut String| v.iter().for_each(|p| p.dump(s));
        if self.stage < 3 {
            list(&self.secs[0], &mut s);
            return s;
        }
        s.push_str("pre:");
        list(&self.secs[0], &mut s);
        if self.bodyless {
            s.push_str("\nbodyless");
        } else {
            s.push_str(&self.open.1);
            list(&self.secs[1], &mut s);
            s.push_str(&self.close.1);
        }
        s.push_str("\ntrail:");
        list(&self.secs[2], &mut s);
        s
    }
    fn render(&self) -> String {
        let list = |v: &[Part]| v.iter().map(|p| p.render.as_str()).collect::<String>();
        if self.stage < 3 {
            return list(&self.secs[0]);
        }
        let mid = if self.bodyless {
            String::new()
        } else {
            format!("{}{}{}", self.open.0, list(&self.secs[1]), self.close.0)
        };
        format!("{}{mid}{}", list(&self.secs[0]), list(&self.secs[2]))
    }
    /// whether the documents have to compare as equal
    fn same(&self, o: &MDoc) -> bool {
        let hidden = |m: &MDoc| {
            let mut s = format!("{:?} {:?} {} {}", m.open, m.close, m.class, m.bodyless);
            m.secs[1].iter().for_each(|p| p.dump(&mut s));
            s
        };
        self.stage == o.stage && self.dump() == o.dump() && hidden(self) == hidden(o)
    }
    fn consistent(&self) -> bool {
        self.secs.iter().all(|v| {
            let mut line = 1;
            v.iter().all(|p| {
                let ok = p.line == line;
                line = p.next();
                ok
            })
        })
    }
    /// what validation may say about the line numbers
    fn misplaced(&self) -> Vec<String> {
        let mut out = Vec::new();
        for v in &self.secs {
            let mut line = 1;
            for p in v {
                if p.line != line {
                    out.push(format!("IncorrectChunkLineNumber {{ expected: {line}, got: {} }}", p.line));
                    break;
                }
                line = p.next();
            }
        }
        out
    }
    fn next_line(&self, sec: usize) -> u32 {
        self.secs[sec].last().map(Part::next).unwrap_or(1)
    }
    fn add(&mut self, sec: usize, line: u32, n: &Node) {
        if sec == 1 {
            self.bodyless = false;
        }
        if let (Some(Part { text: Some(t), render, .. }), Node::Text(s)) = (self.secs[sec].last_mut(), n) {
            t.push_str(s);
            render.push_str(s);
            return;
        }
        self.secs[sec].push(Part::of(line, n));
    }
    /// reasons to refuse the edit; None when either answer is fine
    fn reasons(&self, sec: usize, n: &Node, line: Option<u32>) -> Option<Vec<String>> {
        let mut out = Vec::new();
        let want = self.next_line(sec);
        if let Some(got) = line {
            if got != want {
                out.push(format!("IncorrectChunkLineNumber {{ expected: {want}, got: {got} }}"));
            }
        }
        node::faults_of(self.stage, n, &mut out);
        if let (Some(Part { text: Some(t), .. }), Node::Text(s)) = (self.secs[sec].last(), n) {
            let mut before = Vec::new();
            node::faults_of(self.stage, &Node::Text(t.clone()), &mut before);
            if before.is_empty() {
                node::faults_of(self.stage, &Node::Text(format!("{t}{s}")), &mut out);
            } else if out.is_empty() {
                return None;
            } else {
                out.extend(before);
            }
        }
        Some(out)
    }
}

fn reason(s: &str) -> Option<String> {
    Some(s.strip_prefix("refused: ")?.split(" / ").next()?.to_string())
}

fn call<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    match seams::lib(f) {
        Ok(r) => Ok(r),
        Err(seams::Caught::Panic(m)) => Err(engine::viol("panic", format!("{what} panicked: {m}"))),
        Err(seams::Caught::Injected(_)) => Err(engine::viol("harness", "stray fault")),
    }
}

struct Sim {
    w: World<'static>,
    m: [Option<MDoc>; SLOTS],
}

impl Sim {
    fn check(&self, i: usize, deep: bool) -> Run {
        let (d, m) = match (&self.w.slots[i], &self.m[i]) {
            (None, None) => return Ok(()),
            (Some(d), Some(m)) => (d, m),
            _ => return Err(engine::viol("harness", "slot mismatch")),
        };
        let (x, y) = (d.dump(), m.dump());
        ensure!(x == y, "parts", "document {i} has the parts {x:?}, the history implies {y:?}");
        let x = d.class();
        ensure!(x == m.class, "class", "document {i}: class {x:?}, was {:?}", m.class);
        if !deep {
            return Ok(());
        }
        let (x, y) = (d.render(), m.render());
        ensure!(x == y, "text", "document {i} renders as {x:?}, the history implies {y:?}");
        let (x, want) = (d.lines(), nl(&y) + 1);
        ensure!(x == want, "lines", "document {i} counts {x} lines, its text {y:?} has {want}");
        let v = call("validation", || d.validate())?;
        if m.valid {
            ensure!(v.is_ok(), "validate", "document {i}, built by accepted edits only, fails validation: {v:?}; text {y:?}");
        }
        // whatever the history, validation is the sum of what its parts say
        let mut why = m.misplaced();
        macro_rules! blame {
            ($v:expr) => {
                $v.filter_map(|c| c.validate().err().map(|e| format!("{e:?}")))
            };
        }
        why.extend(call("validation of the parts", || -> Vec<String> {
            match d {
                Doc::D1(d) => blame!(d.chunks().iter()).collect(),
                Doc::D2(d) => blame!(d.chunks().iter()).collect(),
                Doc::D3(d) => {
                    let (_, _, _, _, args, ..) = d.clone().decompose();
                    let all = d.chunks_preamable().iter().chain(d.chunks_body()).chain(d.chunks_trailing());
                    blame!(all).chain(blame!(args.iter().map(|x| &x.1))).collect()
                }
            }
        })?);
        match v {
            Ok(()) => ensure!(why.is_empty(), "validate", "document {i} passes validation although: {why:?}; text {y:?}"),
            Err(e) => {
                let e = format!("{e:?}");
                ensure!(
                    why.contains(&e),
                    "validate",
                    "document {i} fails validation with {e}, its parts give {why:?}; text {y:?}"
                );
            }
        }
        macro_rules! each {
            ($v:expr) => {
                $v.map(|c| (c.to_string(), c.lines())).collect()
            };
        }
        let parts: Vec<(String, u32)> = match d {
            Doc::D1(d) => each!(d.chunks().iter()),
            Doc::D2(d) => each!(d.chunks().iter()),
            Doc::D3(d) => each!(d.chunks_preamable().iter().chain(d.chunks_body()).chain(d.chunks_trailing())),
        };
        for (t, n) in parts {
            ensure!(n == nl(&t) + 1, "lines", "a part of document {i} counts {n} lines, its text is {t:?}");
        }
        Ok(())
    }

    /// one step in both worlds; false when it does not apply
    fn step(&mut self, op: &Op) -> Result<bool, Fail> {
        if let Op::IntoLib(_, n) = op {
            if node::split_text(std::slice::from_ref(n)) || node::odd_label(std::slice::from_ref(n)) {
                return Ok(false);
            }
        }
        if let Op::Raise(i) | Op::Lower(i) = op {
            // line numbers an unchecked edit got wrong mean nothing to a conversion
            if self.m[*i].as_ref().map(|m| !m.consistent()).unwrap_or(false) {
                return Ok(false);
            }
        }
        let Some(r) = ops::exec(&mut self.w, op) else { return Ok(false) };
        let got = match r {
            Res::Done(s) => s,
            Res::Panic(m) => return Err(engine::viol("panic", format!("a call panicked: {m}"))),
            Res::Cut(_) => return Err(engine::viol("harness", "cut")),
        };
        engine::event(got.as_bytes());
        let m = &mut self.m;
        match op {
            Op::Push(i, sec, how, n, dl) => {
                let d = m[*i].as_mut().unwrap();
                let sec = if d.stage == 3 { *sec } else { 0 };
                let want = d.next_line(sec);
                let line = (want as i64 + dl).clamp(1, 1 << 30) as u32;
                match how {
                    How::VariantUnchecked | How::ChunkUnchecked => {
                        ensure!(got == "ok", "answer", "unchecked push answered {got:?}");
                        let l = if *how == How::ChunkUnchecked { line } else { want };
                        let mut bad = Vec::new();
                        node::faults_of(d.stage, n, &mut bad);
                        let full = d.reasons(sec, n, Some(l));
                        if full.map(|f| !f.is_empty()).unwrap_or(true) || !bad.is_empty() {
                            d.valid = false;
                        }
                        d.add(sec, l, n);
                        engine::count("unchecked edits", 1);
                    }
                    How::Variant | How::Chunk => {
                        let l = if *how == How::Chunk { line } else { want };
                        let why = d.reasons(sec, n, (*how == How::Chunk).then_some(l));
                        match (reason(&got), why) {
                            (None, Some(w)) if w.is_empty() => {
                                d.add(sec, l, n);
                                engine::count("accepted edits", 1);
                            }
                            (None, None) => d.add(sec, l, n),
                            (None, Some(w)) => {
                                return Err(engine::viol(
                                    "accepted",
                                    format!("an edit was accepted that has to be refused: {w:?}"),
                                ))
                            }
                            (Some(_), None) => {}
                            (Some(e), Some(w)) => {
                                engine::count("rejected edits", 1);
                                ensure!(
                                    w.contains(&e),
                                    "reason",
                                    "an edit was refused with {e}, acceptable reasons are {w:?}"
                                );
                            }
                        }
                    }
                }
            }
            Op::Into(i, v, _) => {
                let d = m[*i].as_mut().unwrap();
                let mut line = d.next_line(0);
                for (dl, n) in v {
                    let l = (line as i64 + dl).clamp(1, 1 << 30) as u32;
                    line = l + node::breaks(n);
                    d.valid &= d.reasons(0, n, Some(l)).map(|r| r.is_empty()).unwrap_or(false);
                    d.add(0, l, n);
                }
                engine::count("chunk-source edits", 1);
            }
            Op::IntoLib(i, n) => {
                let d = m[*i].as_mut().unwrap();
                let first = d.next_line(0) - 1;
                let low = node::lower21(std::slice::from_ref(n));
                for (l, n) in node::number(&low) {
                    d.valid &= d.reasons(0, n, Some(first + l)).map(|r| r.is_empty()).unwrap_or(false);
                    d.add(0, first + l, n);
                }
                engine::count("chunk-source edits", 1);
            }
            Op::Clone(dst, src) => {
                m[*dst] = m[*src].clone();
                engine::count("clones", 1);
            }
            Op::Drop(i) => m[*i] = None,
            Op::Make(i, st, how, d) => {
                let model = match how {
                    0 => MDoc::empty(*st),
                    _ => MDoc::of_nodes(*st, d),
                };
                let mut why = Vec::new();
                if *how > 0 {
                    let all: Vec<&Node> = if *st == 3 {
                        let b = d.body.iter().flat_map(|b| b.body.iter().chain(b.args.iter().flat_map(|x| &x.body)));
                        d.pre.iter().chain(b).chain(&d.trail).collect()
                    } else {
                        d.pre.iter().collect()
                    };
                    all.iter().for_each(|n| node::faults_of(*st, n, &mut why));
                }
                match reason(&got) {
                    None => {
                        let mut model = model;
                        model.valid = why.is_empty();
                        ensure!(*how != 1 || why.is_empty(), "accepted", "an invalid document was constructed: {why:?}");
                        m[*i] = Some(model);
                    }
                    Some(e) => {
                        ensure!(*how == 1 && why.contains(&e), "reason", "construction refused with {e}, acceptable reasons are {why:?}");
                    }
                }
                engine::count("constructed starts", 1);
            }
            Op::Load(i, ..) | Op::Open(i, ..) => {
                if got.starts_with("loaded") {
                    m[*i] = self.w.slots[*i].as_ref().map(MDoc::observe);
                    engine::count("loaded starts", 1);
                }
            }
            Op::Raise(i) | Op::Lower(i) => {
                if !got.starts_with("refused") {
                    // an edited history goes on at the other stage
                    let was = m[*i].as_ref().unwrap().render();
                    let d = self.w.slots[*i].as_ref().unwrap();
                    let now = d.render();
                    ensure!(was == now, "convert", "conversion turned {was:?} into {now:?}");
                    m[*i] = Some(MDoc::observe(d));
                    engine::count("converted starts", 1);
                }
            }
            Op::Render(i, _) => {
                let t = m[*i].as_ref().unwrap().render();
                ensure!(got == format!("Ok(()) {t:?}"), "text", "rendered as {got}, expected {t:?}");
            }
            Op::Eq(i, j) => {
                let same = m[*i].as_ref().unwrap().same(m[*j].as_ref().unwrap());
                ensure!(
                    got == same.to_string(),
                    "equality",
                    "documents {i} and {j} compare as {got}, {} and {}",
                    m[*i].as_ref().unwrap().dump(),
                    m[*j].as_ref().unwrap().dump()
                );
                engine::count(if same { "compared, equal" } else { "compared, different" }, 1);
            }
            Op::Ctor(stage, n) => {
                let mut why = Vec::new();
                node::faults_of(*stage, n, &mut why);
                for l in got.lines() {
                    let mut f = l.splitn(3, '\t');
                    let (name, how, what) = (f.next(), f.next(), f.next().unwrap_or(""));
                    let fine = match how {
                        Some("ok") => why.is_empty(),
                        _ => why.iter().any(|w| w == what),
                    };
                    ensure!(fine, "constructor", "{name:?} answers {how:?} {what} for {n:?} where the reasons to refuse are {why:?}");
                }
                engine::count("parts constructed", 1);
            }
            Op::Lines(i) => {
                let n = nl(&m[*i].as_ref().unwrap().render()) + 1;
                ensure!(got == n.to_string(), "lines", "{got} lines reported, the text has {n}");
            }
            _ => {}
        }
        Ok(true)
    }

    fn all(&self, changed: Option<usize>) -> Run {
        for i in 0..SLOTS {
            let small = self.m[i].as_ref().map(|m| m.secs.iter().map(Vec::len).sum::<usize>() < 40).unwrap_or(true);
            self.check(i, small && changed.map(|c| c == i).unwrap_or(true))?;
        }
        Ok(())
    }
}

fn slot_of(op: &Op) -> Option<usize> {
    Some(match op {
        // touches no document
        Op::Ctor(..) | Op::Eq(..) => SLOTS,
        Op::Push(i, ..) | Op::Into(i, ..) | Op::IntoLib(i, _) | Op::Clone(i, _) | Op::Drop(i) => *i,
        Op::Make(i, ..) | Op::Load(i, ..) | Op::Open(i, ..) | Op::Raise(i) | Op::Lower(i) => *i,
        _ => return None,
    })
}

/// a random edit of slot `i`
pub fn edit(r: &mut Rng, c: &Cfg, i: usize, stage: u8) -> Op {
    let n = match r.below(10) {
        0..=3 => Node::Text(if stage == 3 && r.pct(50) {
            (*r.pick(&["a", "\n", "x\n", "\ny", " \n ", "w ", " ", "b\nc", "\n \t", ""])).to_string()
        } else {
            gen::text(r, c, stage)
        }),
        4..=6 => loop {
            let l = gen::list(r, c, stage, c.depth);
            if let Some(n) = l.into_iter().next() {
                break n;
            }
        },
        7 if stage == 3 => Node::Par(gen::par(r, c)),
        _ => gen::wild(r, c, stage, c.depth.min(2)),
    };
    let how = *r.pick(&[How::Variant, How::Variant, How::VariantUnchecked, How::Chunk, How::Chunk, How::ChunkUnchecked]);
    let dl = if r.pct(75) { 0 } else { *r.pick(&[-2, -1, 1, 2, 1000]) };
    let sec = if stage == 3 { r.below(3) } else { 0 };
    Op::Push(i, sec, how, n, dl)
}

impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 20_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, tier: Tier) -> Sx {
        let mut c = Cfg::small(r);
        let long = r.one_in(if tier == Tier::Quick { 300 } else { 60 });
        if long {
            c.depth = c.depth.min(1);
            c.width = 2;
        } else if r.one_in(50) {
            c.big = *r.pick(&[300, 3_000, 20_000, 140_000]);
        } else if r.one_in(150) {
            c = Cfg::tall(r);
        }
        let len = if long { r.range(150, 500) } else { r.range(3, 26) };
        // stages of the slots as far as the generator can know
        let mut st: [u8; SLOTS] = [0; SLOTS];
        let docs = if long { 2 } else { r.range(1, 4) };
        let mut v: Vec<Op> = Vec::new();
        let start = |r: &mut Rng, i: usize, st: &mut [u8; SLOTS]| {
            let s = r.range(1, 3) as u8;
            st[i] = s;
            match r.below(10) {
                0..=2 => Op::Make(i, s, 0, Default::default()),
                3 | 4 => {
                    let mut d = gen::doc3(r, &c);
                    if s < 3 {
                        d = node::Doc3 { pre: gen::list(r, &c, s, c.depth), ..Default::default() };
                    }
                    if r.pct(25) {
                        let k = r.below(d.pre.len() + 1);
                        d.pre.insert(k, gen::wild(r, &c, s, 1));
                    }
                    if r.pct(15) {
                        if let Some(x) = d.body.as_mut().and_then(|b| b.args.first_mut()) {
                            x.body.push(gen::wild(r, &c, s, 1));
                        }
                    }
                    Op::Make(i, s, r.range(1, 2) as u8, d)
                }
                5..=7 => Op::Open(i, s, gen::doc3(r, &c)),
                _ => Op::Load(i, s, gen::source_text(r)),
            }
        };
        for i in 0..docs {
            v.push(start(r, i, &mut st));
        }
        while v.len() < len {
            let i = r.below(docs);
            let s = st[i];
            let op = match r.below(40) {
                0 => start(r, i, &mut st),
                1..=3 => {
                    let dst = r.below(SLOTS);
                    st[dst] = s;
                    Op::Clone(dst, i)
                }
                4 => Op::Raise(i),
                5 if s > 1 => {
                    st[i] -= 1;
                    Op::Lower(i)
                }
                6 => Op::Render(i, crate::sink::Spec::Good),
                7 => Op::Lines(i),
                8 if s == 1 => Op::IntoLib(i, {
                    if r.pct(60) {
                        gen::list(r, &c, 2, 2).into_iter().next().unwrap_or(Node::Text("t".into()))
                    } else {
                        gen::wild(r, &c, 2, 2)
                    }
                }),
                9 | 10 if s == 1 => {
                    let n = r.range(0, 4);
                    Op::Into(
                        i,
                        (0..n)
                            .map(|_| {
                                let dl = if r.pct(85) { 0 } else { r.range(1, 3) as i64 };
                                let n = if r.pct(60) { Node::Text(gen::text(r, &c, 1)) } else { gen::wild(r, &c, 1, 1) };
                                (dl, n)
                            })
                            .collect(),
                        crate::ops::Src::Calm,
                    )
                }
                11 if !long => Op::Drop(i),
                12 | 13 if !long => {
                    let n = if r.pct(50) {
                        gen::wild(r, &c, s.max(1), 2)
                    } else {
                        gen::list(r, &c, s.max(1), c.depth).into_iter().next().unwrap_or(Node::Text("x".into()))
                    };
                    Op::Ctor(s.max(1), n)
                }
                14 | 15 if !long => {
                    let j = r.below(SLOTS);
                    if i != j && r.pct(60) {
                        // a clone of it, and nearly the same edit to both
                        st[j] = s;
                        v.push(Op::Clone(j, i));
                        if let Op::Push(_, sec, _, n, dl) = edit(r, &c, i, s.max(1)) {
                            let how = if dl == 0 { How::VariantUnchecked } else { How::ChunkUnchecked };
                            let mut twin = n.clone();
                            let mut dl2 = dl;
                            match r.below(5) {
                                0 => {}
                                1 => dl2 += 1,
                                _ => gen::nearly(r, &mut twin),
                            }
                            let how2 = if dl2 == dl { how } else { How::ChunkUnchecked };
                            v.push(Op::Push(i, sec, how, n, dl));
                            v.push(Op::Push(j, sec, how2, twin, dl2));
                        }
                    }
                    Op::Eq(i, j)
                }
                _ => {
                    // edits also go to clones
                    let j = if r.pct(20) { r.below(SLOTS) } else { i };
                    edit(r, &c, j, st[j].max(1))
                }
            };
            v.push(op);
        }
        let hand = if r.pct(15) { r.range(1, 4) } else { 0 };
        sxl![a("plan"), sxl![a("hand"), a(hand)], ops::ops_sx("ops", &v)]
    }

    fn run(&self, plan: &Sx) -> Run {
        let v = plan.rest("ops").and_then(ops::ops_from).ok_or(Fail::Invalid)?;
        let hand = plan.field("hand").and_then(|h| h.at(1)).and_then(|h| h.us()).unwrap_or(0);
        let mut s = Sim { w: World::default(), m: Default::default() };
        let mut shape = 0u64;
        let s0 = seams::STEPS.get();
        let mut go = |s: &mut Sim, k: usize, op: &Op| -> Run {
            seams::set_limit(1_000_000_000);
            engine::note(&format!("step {k}: {}", engine::clip(&op.to_sx().to_string(), 400)));
            let done = s.step(op).map_err(|f| at(f, k, op))?;
            if done {
                s.all(slot_of(op)).map_err(|f| at(f, k, op))?;
                shape = mix(shape ^ hash(op.to_sx().to_string().as_bytes()));
                engine::case(shape);
                engine::state(hash(s.m.iter().flatten().map(|m| m.dump()).collect::<String>().as_bytes()));
            }
            Ok(())
        };
        if hand == 0 {
            for (k, op) in v.iter().enumerate() {
                go(&mut s, k, op)?;
            }
        } else {
            // documents are handed over to a new thread every few steps
            for (k, part) in v.chunks(hand).enumerate() {
                let moved = seams::Anywhere::new((&mut s, &mut go));
                std::thread::scope(|sc| {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let (s, go) = moved.get();
                            let mut f = Ok(());
                            for (j, op) in part.iter().enumerate() {
                                f = go(s, k * hand + j, op);
                                if f.is_err() {
                                    break;
                                }
                            }
                            f
                        })
                        .unwrap()
                        .join()
                        .unwrap_or_else(|_| engine::panicked())
                })?;
                engine::count("hand-overs to another thread", 1);
            }
        }
        s.all(None)?;
        engine::count("simulated steps", seams::STEPS.get() - s0);
        engine::maximum("edits in one history", v.len() as u64);
        Ok(())
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one step of one history, after which every document was compared with the model; distinct by the prefix of the history"
    }
    fn components(&self) -> &'static str {
        "real: every document type, push family, constructor, clone, conversion, rendering, line counting and validation of latex_ast built from /repo; stub: caller-provided chunk sources; model: lists of parts with text merging and line counting"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a document that starts loaded or converted is taken over as it is (C05, C06 judge loading)",
            "where an unchecked edit left invalid text behind, both answers to a checked edit that extends it are fine",
        ]
    }
}

fn at(f: Fail, k: usize, op: &Op) -> Fail {
    match f {
        Fail::Violation { class, msg, refined } => Fail::Violation {
            class,
            msg: engine::clip(&format!("after step {k} {}: {msg}", engine::clip(&op.to_sx().to_string(), 300)), 3000),
            refined,
        },
        f => f,
    }
}

