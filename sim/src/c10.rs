//! C10 and C11: whatever the storage gives back is read as the documentation
//! says, and refused where and as it says.
//!
//! A run stores two versions of a text on the simulated disk, lets crashes
//! and storage faults damage what is on the platter (most of them at a place
//! that carries structure), and compares what the library makes of the text
//! with the reference reader.

use crate::c06::{call, storage_plan, storage_run, without_comments};
use crate::doc::Doc;
use crate::engine::{self, Check, Run, Tier};
use crate::reader::{self, Offence};
use crate::rng::Rng;
use crate::sx::Sx;
use crate::ensure;

pub struct C10;
pub struct C11;

type Loaded = Result<Doc, latex_ast::Error>;

/// every way to get from a text to a stage: in one step, or stage by stage
fn ways(text: &str, each: &mut dyn FnMut(u8, &str, &Loaded) -> Run) -> Run {
    let mut below: Option<Loaded> = None;
    for stage in 1..=3u8 {
        engine::note(&format!("loading at stage {stage}: {:?}", engine::clip(text, 600)));
        if let Some(b) = below.take() {
            let up = call("conversion", || b.and_then(Doc::raise))?;
            each(stage, "converted", &up)?;
        }
        let r = call("loading", || Doc::load(stage, text))?;
        each(stage, "loaded", &r)?;
        below = Some(r);
    }
    Ok(())
}

fn shown(e: &latex_ast::Error) -> Offence {
    Offence { kind: format!("{:?}", e.r#type), line: e.line }
}

fn cut(text: &str) -> Run {
    let bare = without_comments(text);
    let want: Vec<_> = (1..=3).map(|s| reader::read(s, &bare)).collect();
    ways(text, &mut |stage, how, r| match (&want[stage as usize - 1], r) {
        (Ok(w), Ok(d)) => {
            engine::count("texts loaded", 1);
            let got = d.dump();
            ensure!(got == *w, "parts", "stage {stage}, {how}: the parts are {got} instead of {w}");
            Ok(())
        }
        (Ok(w), Err(e)) => Err(engine::viol("refused", format!("stage {stage}, {how}: refused with {e:?} instead of {w}"))),
        (Err(w), Ok(d)) => Err(engine::viol("accepted", format!("stage {stage}, {how}: loads as {} in spite of {w:?}", d.dump()))),
        (Err(_), Err(_)) => {
            engine::count("texts refused", 1);
            Ok(())
        }
    })
}

fn offence(text: &str) -> Run {
    let bare = without_comments(text);
    let want: Vec<_> = (1..=3).map(|s| reader::read(s, &bare)).collect();
    ways(text, &mut |stage, how, r| match (&want[stage as usize - 1], r) {
        (Ok(_), Ok(_)) => {
            engine::count("texts loaded", 1);
            Ok(())
        }
        (Err(w), Err(e)) => {
            engine::count(&format!("refused: {}", w.kind.split('(').next().unwrap_or("")), 1);
            let got = shown(e);
            ensure!(got.kind == w.kind, "kind", "stage {stage}, {how}: refused with {e:?}, the first offence is {w:?}");
            ensure!(got.line == w.line, "line", "stage {stage}, {how}: refused with {e:?}, the first offence is {w:?}");
            let name = w.kind.split('(').next().unwrap_or("");
            let said = call("rendering the error", || e.to_string())?;
            ensure!(
                said.contains(name) && said.contains(&w.line.to_string()),
                "message",
                "stage {stage}, {how}: the message {said:?} does not name {w:?}"
            );
            Ok(())
        }
        (Ok(_), Err(e)) => Err(engine::viol("refused", format!("stage {stage}, {how}: refused with {e:?} without an offence"))),
        (Err(w), Ok(d)) => Err(engine::viol("accepted", format!("stage {stage}, {how}: loads as {} in spite of {w:?}", d.dump()))),
    })
}

const COMPONENTS: &str = "real: loading and conversion of all stages of latex_ast built from /repo; simulated: storage faults between writing and loading; stub: reading the file (lossy UTF-8 decoding)";
const ASSUMPTIONS: &str = "texts are nested at most 600 levels deep, on a large stack";

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, _t: Tier) -> Sx {
        storage_plan(r, 40)
    }
    fn run(&self, plan: &Sx) -> Run {
        storage_run(plan, &cut)
    }
    fn rule(&self) -> &'static str {
        "one evaluation = one text as the faults left it, loaded and converted at all three stages and compared part by part with the reference reader; distinct by the text"
    }
    fn components(&self) -> &'static str {
        COMPONENTS
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![ASSUMPTIONS]
    }
}

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _run: u64, _t: Tier) -> Sx {
        storage_plan(r, 80)
    }
    fn run(&self, plan: &Sx) -> Run {
        storage_run(plan, &offence)
    }
    fn rule(&self) -> &'static str {
        "one evaluation = one text as the faults left it, loaded and converted at all three stages and its refusal compared with the first offence the reference reader meets; distinct by the text"
    }
    fn components(&self) -> &'static str {
        COMPONENTS
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![ASSUMPTIONS]
    }
}
