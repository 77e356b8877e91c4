//! C05: a completed save is what a restart recovers.
//!
//! A run is the life of one document: edits, moves between the stages, saves
//! (written to a temporary file of a simulated disk through a byte output
//! with short, refused and full-disk writes, synced, renamed) and crashes at
//! arbitrary moments.  The model is the stage-3 tree of the document; its
//! rendering, its lower stages and the line numbers of its parts are computed
//! without the library.

use crate::disk::Disk;
use crate::doc::{self, s1, s2, s3, Doc};
use crate::engine::{self, Check, Fail, Run, Tier};
use crate::gen::{self, Cfg};
use crate::node::{self, nl, Body, Doc3, Node};
use crate::rng::{hash, mix, Rng};
use crate::seams::{self, lib, Caught};
use crate::sink::{write_to, Sink, Spec};
use crate::sx::{a, Sx};
use crate::{ensure, sxl};

pub struct C05;

fn call<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    seams::set_limit(1_000_000_000);
    match lib(f) {
        Ok(r) => Ok(r),
        Err(Caught::Panic(m)) => Err(engine::viol("panic", format!("{what} panicked: {m}"))),
        Err(Caught::Injected(_)) => Err(engine::viol("harness", "stray fault")),
    }
}

/// the document is what the model says, at its stage
fn agrees(d: &Doc, m: &Doc3, what: &str) -> Run {
    let (got, want) = (d.dump(), doc::model_dump(d.stage(), m));
    ensure!(got == want, "parts", "{what} (stage {}): parts are {got:?}, should be {want:?}; text {:?}", d.stage(), m.text());
    let text = m.text();
    let got = call("rendering", || d.render())?;
    ensure!(got == text, "text", "{what} (stage {}): renders as {got:?}, should be {text:?}", d.stage());
    let (got, want) = (d.lines(), nl(&text) + 1);
    ensure!(got == want, "lines", "{what} (stage {}): counts {got} lines, the text {text:?} has {want}", d.stage());
    Ok(())
}

fn load(stage: u8, text: &str) -> Result<Doc, Fail> {
    match call("loading", || Doc::load(stage, text))? {
        Ok(d) => Ok(d),
        Err(e) => Err(engine::viol(
            "refused",
            format!("a saved document does not load at stage {stage}: {e:?}; text {text:?}"),
        )),
    }
}

/// everything the property says about a recovered text
fn recovered(text: &str, m: &Doc3) -> Run {
    let mut loads = Vec::new();
    for stage in 1..=3 {
        let d = load(stage, text)?;
        agrees(&d, m, "the recovered document")?;
        if stage < 3 {
            let b = doc::build(stage, m);
            ensure!(b.same(&d), "equal", "the recovered document differs from the saved one at stage {stage}; text {text:?}");
        } else {
            let (got, want) = (d.class(), m.declared());
            ensure!(
                want.as_deref() == Some(got.as_str()),
                "class",
                "the recovered document reports class and options {got}, declared are {want:?}; text {text:?}"
            );
        }
        loads.push(d);
    }
    // up and down, twice
    let mut d = loads[0].clone();
    for _ in 0..2 {
        for up in 1..=2 {
            d = match call("conversion", || d.raise())? {
                Ok(d) => d,
                Err(e) => return Err(engine::viol("refused", format!("conversion of {text:?} refused: {e:?}"))),
            };
            agrees(&d, m, "the converted document")?;
            ensure!(d.same(&loads[up]), "equal", "converted and loaded stage {} differ; text {text:?}", up + 1);
        }
        for down in (0..2).rev() {
            d = call("conversion", || d.lower())?;
            agrees(&d, m, "the document moved back")?;
            ensure!(d.same(&loads[down]), "equal", "moved back to stage {} it differs from the original; text {text:?}", down + 1);
        }
        engine::count("round trips through the stages", 1);
    }
    Ok(())
}

#[derive(Clone)]
enum Act {
    Edit(usize, Node),
    Up,
    Down,
    Save(String, usize),
    Crash,
    Reload(u8),
    Copy,
}

impl Act {
    fn sx(&self) -> Sx {
        match self {
            Act::Edit(s, n) => sxl![a("edit"), a(["pre", "body", "trail"][*s]), n.to_sx()],
            Act::Up => sxl![a("up")],
            Act::Down => sxl![a("down")],
            Act::Save(h, n) => sxl![a("save"), a(h), a(n)],
            Act::Crash => sxl![a("crash")],
            Act::Reload(s) => sxl![a("reload"), a(s)],
            Act::Copy => sxl![a("copy")],
        }
    }
    fn from(s: &Sx) -> Option<Act> {
        Some(match s.head()? {
            "edit" => Act::Edit(
                match s.at(1)?.atom()? {
                    "pre" => 0,
                    "body" => 1,
                    "trail" => 2,
                    _ => return None,
                },
                Node::from_sx(s.at(2)?)?,
            ),
            "up" => Act::Up,
            "down" => Act::Down,
            "save" => Act::Save(s.at(1)?.atom()?.into(), s.at(2)?.us()?),
            "crash" => Act::Crash,
            "reload" => Act::Reload(s.at(1)?.us()?.clamp(1, 3) as u8),
            "copy" => Act::Copy,
            _ => return None,
        })
    }
}

const SAVES: &[&str] = &[
    "good", "good", "good", "good", "short", "full", "zero", "syncfails", "crashwriting", "crashwritten", "crashsynced", "crashrenamed",
];

/// the model after an edit, if it stays a document in normal form
fn edited(m: &Doc3, stage: u8, sec: usize, n: &Node) -> Option<(usize, Doc3)> {
    let mut x = m.clone();
    // the lower stages only have an end to append to
    let sec = match (stage, &x.body) {
        (3, _) => sec,
        (_, Some(_)) => 2,
        (_, None) => 0,
    };
    let v = match sec {
        0 => &mut x.pre,
        1 => {
            &mut x
                .body
                .get_or_insert(Body { pb: String::new(), args: vec![], body: vec![], pe: String::new() })
                .body
        }
        _ => &mut x.trail,
    };
    node::push_merged(v, n.clone());
    // the model of a declaration pushed later is left to loading
    let plain = !matches!(n, Node::Cmd(l, _) if l == "documentclass");
    (x.normal() && plain).then_some((sec, x))
}

fn push(d: &mut Doc, sec: usize, n: &Node) -> Result<(), latex_ast::InternalError> {
    match d {
        Doc::D1(d) => {
            for x in node::lower21(&node::lower32(std::slice::from_ref(n))) {
                d.push(s1::variant(&x))?;
            }
            Ok(())
        }
        Doc::D2(d) => {
            for x in node::lower32(std::slice::from_ref(n)) {
                d.push(s2::variant(&x))?;
            }
            Ok(())
        }
        Doc::D3(d) => match sec {
            0 => d.push_preamable(s3::variant(n)),
            1 => d.push_body(s3::variant(n)),
            _ => d.push_trailing(s3::variant(n)),
        },
    }
}

struct Life {
    disk: Disk,
    live: Doc,
    m: Doc3,
    /// last completed save
    saved: Doc3,
    /// a save that was under way when the power went
    flying: Option<Doc3>,
    rng: Rng,
}

impl Life {
    /// save the live document; crashes happen where `how` says.
    /// Ok(true): the power went
    fn save(&mut self, how: &str, n: usize) -> Result<bool, Fail> {
        let text = self.m.text();
        let len = text.len().max(1);
        let spec = match how {
            "short" => Spec::Short(n as u64),
            "full" => Spec::Full(n % len),
            "zero" => Spec::Zero(n % len),
            _ => Spec::Short(1),
        };
        let mut sink = Sink::new(spec);
        let ino = self.disk.create("doc.tmp");
        let v = self.live.display();
        let r = call("rendering", || write_to(&mut sink, v))?;
        if how == "crashwriting" {
            let k = n % (sink.got.len() + 1);
            self.disk.append(ino, &sink.got[..k]);
            engine::count("fault:crash while writing", 1);
            return Ok(true);
        }
        self.disk.append(ino, &sink.got);
        if r.is_err() {
            ensure!(sink.refused > 0, "false-failure", "writing failed although the disk took everything");
            self.disk.remove("doc.tmp");
            engine::count("failed saves", 1);
            return Ok(false);
        }
        if how == "crashwritten" {
            engine::count("fault:crash before fsync", 1);
            return Ok(true);
        }
        if how == "syncfails" {
            engine::count("fault:fsync fails (EIO)", 1);
            self.disk.remove("doc.tmp");
            return Ok(false);
        }
        self.disk.fsync(ino);
        if how == "crashsynced" {
            engine::count("fault:crash before rename", 1);
            return Ok(true);
        }
        self.disk.rename("doc.tmp", "doc");
        if how == "crashrenamed" {
            self.flying = Some(self.m.clone());
            engine::count("fault:crash before directory sync", 1);
            return Ok(true);
        }
        self.disk.fsync_dir();
        self.saved = self.m.clone();
        engine::count("completed saves", 1);
        Ok(false)
    }

    fn restart(&mut self, stage: u8) -> Run {
        self.disk.crash(&mut self.rng);
        let bytes = self.disk.read("doc").map(|b| b.to_vec()).unwrap_or_default();
        let text = String::from_utf8_lossy(&bytes).into_owned();
        if let Some(f) = self.flying.take() {
            if text == f.text() && text != self.saved.text() {
                self.saved = f;
            }
        }
        ensure!(
            text == self.saved.text(),
            "lost",
            "after the restart the disk holds {text:?}, the last completed save was of {:?}",
            self.saved.text()
        );
        self.m = self.saved.clone();
        recovered(&text, &self.m)?;
        self.live = load(stage, &text)?;
        Ok(())
    }
}

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 4_500,
            Tier::Thorough => 1_500_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, _t: Tier) -> Sx {
        let mut c = if r.pct(50) { Cfg::draw(r) } else { Cfg::small(r) };
        if r.one_in(60) {
            c.big = *r.pick(&[300, 3_000, 20_000, 140_000]);
            c.depth = c.depth.min(2);
            c.width = c.width.min(3);
        } else if r.one_in(120) {
            c = Cfg::tall(r);
        }
        let start = gen::doc3(r, &c);
        let mut m = start.clone();
        let mut v = Vec::new();
        for _ in 0..r.range(1, 9) {
            v.push(match r.below(14) {
                0..=5 => {
                    let mut found = None;
                    for _ in 0..6 {
                        let n = match r.below(4) {
                            0 => Node::Par(gen::par(r, &c)),
                            1 => Node::Text(gen::text(r, &c, 3)),
                            _ => match gen::list(r, &c, 3, c.depth).into_iter().next() {
                                Some(n) => n,
                                None => continue,
                            },
                        };
                        let sec = r.below(3);
                        if let Some((_, x)) = edited(&m, 3, sec, &n) {
                            m = x;
                            found = Some(Act::Edit(sec, n));
                            break;
                        }
                    }
                    match found {
                        Some(e) => e,
                        None => Act::Up,
                    }
                }
                6 | 7 => Act::Up,
                8 => Act::Down,
                9 => Act::Crash,
                10 => Act::Reload(r.range(1, 3) as u8),
                11 => Act::Copy,
                _ => Act::Save(r.pick(SAVES).to_string(), r.below(1 << 20)),
            });
        }
        v.push(Act::Save("good".into(), 0));
        sxl![
            a("plan"),
            sxl![a("start"), a(r.range(1, 3)), start.to_sx()],
            sxl![a("torn"), a(r.next() >> 1)],
            Sx::L(std::iter::once(a("acts")).chain(v.iter().map(Act::sx)).collect())
        ]
    }

    fn run(&self, plan: &Sx) -> Run {
        let start = plan.field("start").ok_or(Fail::Invalid)?;
        let stage = start.at(1).and_then(|s| s.us()).ok_or(Fail::Invalid)?.clamp(1, 3) as u8;
        let m = start.at(2).and_then(Doc3::from_sx).ok_or(Fail::Invalid)?;
        if !m.normal() {
            return Err(Fail::Invalid);
        }
        let acts = plan
            .rest("acts")
            .ok_or(Fail::Invalid)?
            .iter()
            .map(Act::from)
            .collect::<Option<Vec<_>>>()
            .ok_or(Fail::Invalid)?;
        let torn = plan.field("torn").and_then(|s| s.at(1)).and_then(|s| s.us()).unwrap_or(1) as u64;
        let s0 = seams::STEPS.get();
        // the first version is on the disk already
        let mut disk = Disk::default();
        let ino = disk.create("doc");
        disk.append(ino, m.text().as_bytes());
        disk.fsync(ino);
        disk.fsync_dir();
        engine::note("loading the first version");
        let mut l = Life {
            disk,
            live: load(stage, &m.text())?,
            saved: m.clone(),
            m,
            flying: None,
            rng: Rng::new(torn),
        };
        recovered(&l.m.text(), &l.m)?;
        let mut h = hash(l.m.to_sx().to_string().as_bytes());
        engine::case(h);
        for (k, act) in acts.iter().enumerate() {
            let text = act.sx().to_string();
            engine::note(&format!("step {k} {}", engine::clip(&text, 300)));
            let what = format!("step {k} {}: ", engine::clip(&text, 200));
            let r = (|| -> Run {
                match act {
                    Act::Edit(sec, n) => {
                        if let Some((sec, x)) = edited(&l.m, l.live.stage(), *sec, n) {
                            let d = &mut l.live;
                            let r = call("push", || push(d, sec, n))?;
                            ensure!(r.is_ok(), "refused", "an edit in normal form was refused: {r:?}");
                            l.m = x;
                            engine::count("edits", 1);
                        }
                    }
                    Act::Up => {
                        if l.live.stage() < 3 {
                            let d = l.live.clone();
                            match call("conversion", || d.raise())? {
                                Ok(d) => l.live = d,
                                Err(e) => {
                                    return Err(engine::viol("refused", format!("conversion refused: {e:?}; text {:?}", l.m.text())))
                                }
                            }
                        }
                    }
                    Act::Down => {
                        let d = l.live.clone();
                        l.live = call("conversion", || d.lower())?;
                    }
                    Act::Copy => l.live = call("clone", || l.live.clone())?,
                    Act::Save(how, n) => {
                        if l.save(how, *n)? {
                            l.restart(1 + (*n % 3) as u8)?;
                        }
                    }
                    Act::Crash => l.restart(1 + (k % 3) as u8)?,
                    Act::Reload(s) => l.live = load(*s, &l.m.text())?,
                }
                agrees(&l.live, &l.m, "the live document")
            })();
            r.map_err(|f| match f {
                Fail::Violation { class, msg, refined } => Fail::Violation {
                    class,
                    msg: engine::clip(&format!("{what}{msg}"), 3000),
                    refined,
                },
                f => f,
            })?;
            h = mix(h ^ hash(text.as_bytes()));
            engine::case(h);
            engine::state(hash(l.live.dump().as_bytes()) ^ l.live.stage() as u64);
        }
        let stage = 1 + (torn % 3) as u8;
        l.restart(stage)?;
        engine::event(l.m.text().as_bytes());
        engine::count("simulated steps", seams::STEPS.get() - s0);
        engine::maximum("bytes of a document", l.m.text().len() as u64);
        Ok(())
    }

    fn rule(&self) -> &'static str {
        "one evaluation = one step (edit, conversion, save, crash and recovery, reload) of one document's life, after which the document was compared with the model; distinct by the prefix of the life"
    }
    fn components(&self) -> &'static str {
        "real: loading, conversion, editing and rendering of all stages of latex_ast built from /repo, std::io::Write; simulated: disk (write-back cache, torn and lost data, rename, fsync errors, full disk), power loss; stub: the save protocol (temporary file, fsync, rename, directory sync)"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "documents are comment-free and in normal form (their parts are cut as loading cuts them)",
            "the disk keeps synced data and renames atomically",
        ]
    }
}
