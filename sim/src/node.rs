//! The reference model: plain trees with their own rendering, line
//! arithmetic, lowering, validation and canonical dump.  Nothing in this file
//! calls the library.

use crate::sx::{a, Sx};
use crate::sxl;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Br {
    Curly,
    Round,
    Square,
}

impl Br {
    pub fn open(self) -> char {
        match self {
            Br::Curly => '{',
            Br::Round => '(',
            Br::Square => '[',
        }
    }
    pub fn close(self) -> char {
        match self {
            Br::Curly => '}',
            Br::Round => ')',
            Br::Square => ']',
        }
    }
    fn name(self) -> &'static str {
        match self {
            Br::Curly => "curly",
            Br::Round => "round",
            Br::Square => "square",
        }
    }
    fn from_name(s: &str) -> Option<Br> {
        Some(match s {
            "curly" => Br::Curly,
            "round" => Br::Round,
            "square" => Br::Square,
            _ => return None,
        })
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Arg {
    pub prec: String,
    pub br: Br,
    pub body: Vec<Node>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Text(String),
    Cmd(String, Vec<Arg>),
    Scope(Br, Vec<Node>),
    Env {
        label: String,
        pb: String,
        args: Vec<Arg>,
        body: Vec<Node>,
        pe: String,
    },
    Math {
        dollar: bool,
        outline: bool,
        body: Vec<Node>,
    },
    Par(String),
}
use Node::*;

pub fn nl(s: &str) -> u32 {
    s.bytes().filter(|b| *b == b'\n').count() as u32
}

// ---------------------------------------------------------------- rendering

pub fn render_args(args: &[Arg], out: &mut String) {
    for x in args {
        out.push_str(&x.prec);
        out.push(x.br.open());
        render_to(&x.body, out);
        out.push(x.br.close());
    }
}

pub fn render_to(ns: &[Node], out: &mut String) {
    for n in ns {
        match n {
            Text(s) | Par(s) => out.push_str(s),
            Cmd(l, args) => {
                out.push('\\');
                out.push_str(l);
                render_args(args, out);
            }
            Scope(b, body) => {
                out.push(b.open());
                render_to(body, out);
                out.push(b.close());
            }
            Env {
                label,
                pb,
                args,
                body,
                pe,
            } => {
                out.push_str("\\begin");
                out.push_str(pb);
                out.push('{');
                out.push_str(label);
                out.push('}');
                render_args(args, out);
                render_to(body, out);
                out.push_str("\\end");
                out.push_str(pe);
                out.push('{');
                out.push_str(label);
                out.push('}');
            }
            Math {
                dollar,
                outline,
                body,
            } => {
                let (o, c) = match (dollar, outline) {
                    (true, true) => ("$$", "$$"),
                    (true, false) => ("$", "$"),
                    (false, true) => ("\\[", "\\]"),
                    (false, false) => ("\\(", "\\)"),
                };
                out.push_str(o);
                render_to(body, out);
                out.push_str(c);
            }
        }
    }
}

pub fn render(ns: &[Node]) -> String {
    let mut s = String::new();
    render_to(ns, &mut s);
    s
}
pub fn render1(n: &Node) -> String {
    render(std::slice::from_ref(n))
}
/// line breaks of a node
pub fn breaks(n: &Node) -> u32 {
    nl(&render1(n))
}

// ----------------------------------------------------------------- lowering

pub fn push_merged(out: &mut Vec<Node>, n: Node) {
    if let (Some(Text(l)), Text(s)) = (out.last_mut(), &n) {
        l.push_str(s);
        return;
    }
    out.push(n);
}

fn lower_args(args: &[Arg], f: fn(&[Node]) -> Vec<Node>) -> Vec<Arg> {
    args.iter()
        .map(|x| Arg {
            prec: x.prec.clone(),
            br: x.br,
            body: f(&x.body),
        })
        .collect()
}

/// stage 3 -> stage 2
pub fn lower32(ns: &[Node]) -> Vec<Node> {
    let mut out = Vec::new();
    for n in ns {
        match n {
            Text(s) | Par(s) => push_merged(&mut out, Text(s.clone())),
            Cmd(l, args) => out.push(Cmd(l.clone(), lower_args(args, lower32))),
            Scope(b, body) => out.push(Scope(*b, lower32(body))),
            Env {
                label,
                pb,
                args,
                body,
                pe,
            } => out.push(Env {
                label: label.clone(),
                pb: pb.clone(),
                args: lower_args(args, lower32),
                body: lower32(body),
                pe: pe.clone(),
            }),
            Math {
                dollar,
                outline,
                body,
            } => {
                let (o, c) = match (dollar, outline) {
                    (true, true) => (Text("$$".into()), Text("$$".into())),
                    (true, false) => (Text("$".into()), Text("$".into())),
                    (false, true) => (Cmd("[".into(), vec![]), Cmd("]".into(), vec![])),
                    (false, false) => (Cmd("(".into(), vec![]), Cmd(")".into(), vec![])),
                };
                push_merged(&mut out, o);
                for x in lower32(body) {
                    push_merged(&mut out, x);
                }
                push_merged(&mut out, c);
            }
        }
    }
    out
}

/// stage 2 -> stage 1
pub fn lower21(ns: &[Node]) -> Vec<Node> {
    let mut out = Vec::new();
    for n in ns {
        match n {
            Text(s) | Par(s) => push_merged(&mut out, Text(s.clone())),
            Cmd(l, args) => out.push(Cmd(l.clone(), lower_args(args, lower21))),
            Scope(b, body) => out.push(Scope(*b, lower21(body))),
            Env {
                label,
                pb,
                args,
                body,
                pe,
            } => {
                let lab = |prec: &str| Arg {
                    prec: prec.to_string(),
                    br: Br::Curly,
                    body: if label.is_empty() {
                        vec![]
                    } else {
                        vec![Text(label.clone())]
                    },
                };
                let mut all = vec![lab(pb)];
                all.extend(lower_args(args, lower21));
                out.push(Cmd("begin".into(), all));
                for x in lower21(body) {
                    push_merged(&mut out, x);
                }
                out.push(Cmd("end".into(), vec![lab(pe)]));
            }
            Math { .. } => {
                for x in lower21(&lower32(std::slice::from_ref(n))) {
                    push_merged(&mut out, x);
                }
            }
        }
    }
    out
}

// -------------------------------------------------------------- normal form

/// Could these stage-1 parts have come out of the loader?
pub fn normal1(ns: &[Node]) -> bool {
    for (i, n) in ns.iter().enumerate() {
        match n {
            Text(s) => {
                if s.is_empty()
                    || s.contains(['\\', '%', '{', '}', '[', ']', '(', ')'])
                    || (i > 0 && matches!(ns[i - 1], Text(_)))
                {
                    return false;
                }
            }
            Scope(_, body) => {
                if !normal1(body) {
                    return false;
                }
            }
            Cmd(l, args) => {
                let mut cs = l.chars();
                let Some(first) = cs.next() else { return false };
                if !first.is_ascii_alphabetic() {
                    if cs.next().is_some() || !args.is_empty() {
                        return false;
                    }
                    continue;
                }
                if cs.any(|c| {
                    c.is_whitespace()
                        || matches!(c, '\\' | '%' | '{' | '}' | '[' | ']' | '(' | ')')
                }) {
                    return false;
                }
                for x in args {
                    if !x.prec.chars().all(char::is_whitespace) || !normal1(&x.body) {
                        return false;
                    }
                }
                match ns.get(i + 1) {
                    Some(Scope(..)) => return false,
                    Some(Text(t)) => {
                        if args.is_empty() && !t.starts_with(char::is_whitespace) {
                            return false;
                        }
                        if t.chars().all(char::is_whitespace)
                            && matches!(ns.get(i + 2), Some(Scope(..)))
                        {
                            return false;
                        }
                    }
                    _ => {}
                }
            }
            _ => return false,
        }
    }
    true
}

fn tail_breaks(s: &str) -> bool {
    s.chars()
        .rev()
        .take_while(|c| c.is_whitespace())
        .any(|c| c == '\n')
}

/// a run of white space with two line breaks in it
pub fn unbroken(s: &str) -> bool {
    let mut n = 0;
    for c in s.chars() {
        if c == '\n' {
            n += 1;
            if n > 1 {
                return true;
            }
        } else if !c.is_whitespace() {
            n = 0;
        }
    }
    false
}

/// nothing of this list (outside scopes and arguments) is a dollar block
fn dollar_free(ns: &[Node]) -> bool {
    ns.iter().all(|n| match n {
        Math { dollar, body, .. } => !dollar && dollar_free(body),
        _ => true,
    })
}

/// Could these stage-3 parts have come out of the loader (given that their
/// lowering is in normal form)?
fn normal3_list(ns: &[Node]) -> bool {
    for (i, n) in ns.iter().enumerate() {
        let prev = i.checked_sub(1).map(|j| &ns[j]);
        match n {
            Text(s) => {
                if s.is_empty() || s.contains('$') || unbroken(s) || matches!(prev, Some(Text(_))) {
                    return false;
                }
                if matches!(prev, Some(Par(_))) && s.starts_with(char::is_whitespace) {
                    return false;
                }
            }
            Par(s) => {
                if !s.starts_with('\n') || nl(s) < 2 || !s.chars().all(char::is_whitespace) {
                    return false;
                }
                match prev {
                    Some(Par(_)) => return false,
                    Some(Text(t)) if tail_breaks(t) => return false,
                    _ => {}
                }
            }
            Cmd(l, args) => {
                if matches!(l.as_str(), "begin" | "end" | "(" | ")" | "[" | "]")
                    || (l.chars().count() > 1 && l.contains('$'))
                {
                    return false;
                }
                if !args.iter().all(|x| normal3_list(&x.body)) {
                    return false;
                }
            }
            Scope(_, b) => {
                if !normal3_list(b) {
                    return false;
                }
            }
            Env {
                label, args, body, ..
            } => {
                if label.contains(['\\', '%', '{', '}', '[', ']', '(', ')'])
                    || !args.iter().all(|x| normal3_list(&x.body))
                    || !normal3_list(body)
                {
                    return false;
                }
            }
            Math {
                dollar,
                outline,
                body,
            } => {
                if !normal3_list(body) || (*dollar && !dollar_free(body)) {
                    return false;
                }
                if *dollar && !*outline && body.is_empty() {
                    return false;
                }
            }
        }
    }
    true
}

pub fn normal3(ns: &[Node]) -> bool {
    normal3_list(ns) && normal1(&lower21(&lower32(ns)))
}

/// stage-2 lists: environments instead of begin/end, no stage-3 parts
fn normal2_list(ns: &[Node]) -> bool {
    ns.iter().all(|n| match n {
        Text(_) => true,
        Par(_) | Math { .. } => false,
        Cmd(l, args) => {
            !matches!(l.as_str(), "begin" | "end") && args.iter().all(|x| normal2_list(&x.body))
        }
        Scope(_, b) => normal2_list(b),
        Env {
            label, args, body, ..
        } => {
            !label.contains(['\\', '%', '{', '}', '[', ']', '(', ')'])
                && args.iter().all(|x| normal2_list(&x.body))
                && normal2_list(body)
        }
    })
}
pub fn normal2(ns: &[Node]) -> bool {
    normal2_list(ns) && normal1(&lower21(ns))
}
/// stage-1 lists (a `begin` without argument etc. is fine at stage 1)
pub fn normal_at(stage: u8, ns: &[Node]) -> bool {
    match stage {
        1 => normal1(ns),
        2 => normal2(ns),
        _ => normal3(ns),
    }
}

// ---------------------------------------------------------------- documents

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Body {
    pub pb: String,
    pub args: Vec<Arg>,
    pub body: Vec<Node>,
    pub pe: String,
}

/// a stage-3 document; the lower stages of it follow
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Doc3 {
    pub pre: Vec<Node>,
    pub body: Option<Body>,
    pub trail: Vec<Node>,
}

impl Doc3 {
    pub fn flat(&self) -> Vec<Node> {
        let mut out = self.pre.clone();
        if let Some(b) = &self.body {
            out.push(Env {
                label: "document".into(),
                pb: b.pb.clone(),
                args: b.args.clone(),
                body: b.body.clone(),
                pe: b.pe.clone(),
            });
        }
        out.extend(self.trail.iter().cloned());
        out
    }
    pub fn at2(&self) -> Vec<Node> {
        lower32(&self.flat())
    }
    pub fn at1(&self) -> Vec<Node> {
        lower21(&self.at2())
    }
    pub fn text(&self) -> String {
        render(&self.flat())
    }
    pub fn normal(&self) -> bool {
        let top = |ns: &[Node]| !ns.iter().any(|n| matches!(n, Env{label,..} if label=="document"));
        normal3(&self.flat())
            && top(&self.pre)
            && (self.body.is_some() || self.trail.is_empty())
            && classes(&self.pre) <= 1
    }
}

/// number of `\documentclass` declarations; 2 stands for any refused use
fn classes(ns: &[Node]) -> usize {
    let mut n = 0;
    for x in ns {
        if let Cmd(l, args) = x {
            if l == "documentclass" {
                n += 1;
                if args.iter().filter(|x| x.br == Br::Curly).count() > 1 {
                    n += 2;
                }
            }
        }
    }
    n
}

// --------------------------------------------------------------------- dump

/// The canonical form of parts, with line numbers.  `dump.rs` builds the same
/// text from the library's values.
pub fn dump_nodes(ns: &[(u32, &Node)], out: &mut String) {
    for (line, n) in ns {
        match n {
            Text(s) => out.push_str(&format!("(T{line} {s:?})")),
            Par(s) => out.push_str(&format!("(P{line} {s:?})")),
            Cmd(l, args) => {
                out.push_str(&format!("(C{line} {l:?}"));
                dump_args(args, out);
                out.push(')');
            }
            Scope(b, body) => {
                out.push_str(&format!("(S{line}{}", b.open()));
                dump_nodes(&number(body), out);
                out.push(')');
            }
            Env {
                label,
                pb,
                args,
                body,
                pe,
            } => {
                out.push_str(&format!("(E{line} {label:?} {pb:?}"));
                dump_args(args, out);
                out.push('|');
                dump_nodes(&number(body), out);
                out.push_str(&format!("|{pe:?})"));
            }
            Math { .. } => {
                out.push_str(&format!("(M{line} "));
                let low = lower32(std::slice::from_ref(n));
                dump_nodes(&number(&low), out);
                out.push(')');
            }
        }
    }
}

pub fn dump_args(args: &[Arg], out: &mut String) {
    for x in args {
        out.push_str(&format!("<{:?}{}", x.prec, x.br.open()));
        dump_nodes(&number(&x.body), out);
        out.push('>');
    }
}

/// parts with the line numbers loading gives them
pub fn number(ns: &[Node]) -> Vec<(u32, &Node)> {
    let mut line = 1;
    ns.iter()
        .map(|n| {
            let l = line;
            line += breaks(n);
            (l, n)
        })
        .collect()
}

pub fn dump_list(ns: &[Node]) -> String {
    let mut s = String::new();
    dump_nodes(&number(ns), &mut s);
    s
}

pub fn dump_doc3(d: &Doc3) -> String {
    let mut s = String::from("pre:");
    dump_nodes(&number(&d.pre), &mut s);
    if let Some(b) = &d.body {
        s.push_str(&format!("\nbegin{:?}", b.pb));
        dump_args(&b.args, &mut s);
        s.push('|');
        dump_nodes(&number(&b.body), &mut s);
        s.push_str(&format!("|end{:?}", b.pe));
    } else {
        s.push_str("\nbodyless");
    }
    s.push_str("\ntrail:");
    dump_nodes(&number(&d.trail), &mut s);
    s
}

// --------------------------------------------------------------- validation

/// every reason for which the library may refuse the part (empty: it is fine)
pub fn faults_of(stage: u8, n: &Node, out: &mut Vec<String>) {
    let special = |c: char| matches!(c, '\\' | '%' | '{' | '}' | '[' | ']' | '(' | ')');
    let chars = |s: &str, out: &mut Vec<String>| {
        for c in s.chars().filter(|c| special(*c)) {
            out.push(format!("UnsanitisedCharInString({c:?})"));
        }
    };
    match n {
        Text(s) => {
            chars(s, out);
            if stage == 3 && unbroken(s) {
                out.push("UnbrokenParagraph".into());
            }
        }
        Par(s) => {
            if s.chars().any(|c| !c.is_whitespace()) {
                out.push("ParagraghBreakNonwhitespace".into());
            }
            if nl(s) < 2 {
                out.push("ParagraphBreakTooShort".into());
            }
        }
        Cmd(l, args) => {
            if stage > 1 && l == "begin" {
                out.push("BeginCommand".into());
            }
            if stage > 1 && l == "end" {
                out.push("EndCommand".into());
            }
            if l.len() != 1 {
                chars(l, out);
            }
            for x in args {
                x.body.iter().for_each(|n| faults_of(stage, n, out));
            }
        }
        Scope(_, b) => b.iter().for_each(|n| faults_of(stage, n, out)),
        Math { body, .. } => body.iter().for_each(|n| faults_of(stage, n, out)),
        Env {
            label, args, body, ..
        } => {
            chars(label, out);
            for x in args {
                x.body.iter().for_each(|n| faults_of(stage, n, out));
            }
            body.iter().for_each(|n| faults_of(stage, n, out));
        }
    }
}

// ------------------------------------------------------------ serialisation

fn args_sx(args: &[Arg]) -> Sx {
    Sx::L(
        std::iter::once(a("args"))
            .chain(args.iter().map(|x| {
                sxl![a(x.br.name()), Sx::A(x.prec.clone()), nodes_sx("in", &x.body)]
            }))
            .collect(),
    )
}
fn args_from(s: &Sx) -> Option<Vec<Arg>> {
    if s.head()? != "args" {
        return None;
    }
    s.list()?[1..]
        .iter()
        .map(|x| {
            Some(Arg {
                br: Br::from_name(x.head()?)?,
                prec: x.at(1)?.atom()?.to_string(),
                body: nodes_from(x.at(2)?)?,
            })
        })
        .collect()
}

pub fn nodes_sx(head: &str, ns: &[Node]) -> Sx {
    Sx::L(
        std::iter::once(a(head))
            .chain(ns.iter().map(Node::to_sx))
            .collect(),
    )
}
pub fn nodes_from(s: &Sx) -> Option<Vec<Node>> {
    s.head()?;
    s.list()?[1..].iter().map(Node::from_sx).collect()
}

impl Node {
    pub fn to_sx(&self) -> Sx {
        let t = |s: &String| Sx::A(s.clone());
        match self {
            Text(s) => sxl![a("t"), t(s)],
            Par(s) => sxl![a("par"), t(s)],
            Cmd(l, args) => sxl![a("cmd"), t(l), args_sx(args)],
            Scope(b, body) => sxl![a("scope"), a(b.name()), nodes_sx("in", body)],
            Env {
                label,
                pb,
                args,
                body,
                pe,
            } => sxl![
                a("env"),
                t(label),
                t(pb),
                args_sx(args),
                nodes_sx("in", body),
                t(pe)
            ],
            Math {
                dollar,
                outline,
                body,
            } => sxl![
                a("math"),
                a(if *dollar { "dollar" } else { "bracket" }),
                a(if *outline { "outline" } else { "inline" }),
                nodes_sx("in", body)
            ],
        }
    }
    pub fn from_sx(s: &Sx) -> Option<Node> {
        let t = |i: usize| Some(s.at(i)?.atom()?.to_string());
        Some(match s.head()? {
            "t" => Text(t(1)?),
            "par" => Par(t(1)?),
            "cmd" => Cmd(t(1)?, args_from(s.at(2)?)?),
            "scope" => Scope(Br::from_name(s.at(1)?.atom()?)?, nodes_from(s.at(2)?)?),
            "env" => Env {
                label: t(1)?,
                pb: t(2)?,
                args: args_from(s.at(3)?)?,
                body: nodes_from(s.at(4)?)?,
                pe: t(5)?,
            },
            "math" => Math {
                dollar: s.at(1)?.atom()? == "dollar",
                outline: s.at(2)?.atom()? == "outline",
                body: nodes_from(s.at(3)?)?,
            },
            _ => return None,
        })
    }
}

impl Doc3 {
    pub fn to_sx(&self) -> Sx {
        let mut v = vec![a("doc"), nodes_sx("pre", &self.pre)];
        if let Some(b) = &self.body {
            v.push(sxl![
                a("body"),
                Sx::A(b.pb.clone()),
                args_sx(&b.args),
                nodes_sx("in", &b.body),
                Sx::A(b.pe.clone())
            ]);
        }
        v.push(nodes_sx("trail", &self.trail));
        Sx::L(v)
    }
    pub fn from_sx(s: &Sx) -> Option<Doc3> {
        if s.head()? != "doc" {
            return None;
        }
        Some(Doc3 {
            pre: match s.field("pre") {
                Some(p) => nodes_from(p)?,
                None => vec![],
            },
            body: match s.field("body") {
                Some(b) => Some(Body {
                    pb: b.at(1)?.atom()?.to_string(),
                    args: args_from(b.at(2)?)?,
                    body: nodes_from(b.at(3)?)?,
                    pe: b.at(4)?.atom()?.to_string(),
                }),
                None => None,
            },
            trail: match s.field("trail") {
                Some(p) => nodes_from(p)?,
                None => vec![],
            },
        })
    }
}

/// two texts in a row somewhere: never a result of loading or pushing, and
/// whether conversions join them is left open
pub fn split_text(ns: &[Node]) -> bool {
    ns.windows(2).any(|w| matches!(w, [Text(_), Text(_)]))
        || ns.iter().any(|n| match n {
            Text(_) | Par(_) => false,
            Cmd(_, args) => args.iter().any(|x| split_text(&x.body)),
            Scope(_, b) | Math { body: b, .. } => split_text(b),
            Env { args, body, .. } => split_text(body) || args.iter().any(|x| split_text(&x.body)),
        })
}

/// only parts the stage has
pub fn fits(stage: u8, ns: &[Node]) -> bool {
    ns.iter().all(|n| match n {
        Text(_) => true,
        Par(_) => stage == 3,
        Math { body, .. } => stage == 3 && fits(stage, body),
        Cmd(_, args) => args.iter().all(|x| fits(stage, &x.body)),
        Scope(_, b) => fits(stage, b),
        Env { args, body, .. } => stage >= 2 && fits(stage, body) && args.iter().all(|x| fits(stage, &x.body)),
    })
}

/// an environment label that is more than plain text
pub fn odd_label(ns: &[Node]) -> bool {
    ns.iter().any(|n| match n {
        Text(_) | Par(_) => false,
        Cmd(_, args) => args.iter().any(|x| odd_label(&x.body)),
        Scope(_, b) | Math { body: b, .. } => odd_label(b),
        Env { label, args, body, .. } => {
            label.contains(['\\', '%', '{', '}', '[', ']', '(', ')'])
                || odd_label(body)
                || args.iter().any(|x| odd_label(&x.body))
        }
    })
}

// -------------------------------------------------------------------- class

/// a class option: blanks, key, blanks around the sign and the value, blanks
pub type Opt = (String, String, Option<(String, String, String)>, String);

fn option(s: &str) -> Opt {
    let core = s.trim();
    let at = s.find(core).unwrap_or(0);
    let prec = if core.is_empty() { s } else { &s[..at] };
    // where the blanks of an empty option go is left open, see `report`
    let post = if core.is_empty() { "" } else { &s[at + core.len()..] };
    let (key, val) = match core.split_once('=') {
        None => (core, None),
        Some((k, v)) => {
            let key = k.trim_end();
            let val = v.trim_start();
            (key, Some((k[key.len()..].into(), v[..v.len() - val.len()].into(), val.into())))
        }
    };
    (prec.into(), key.into(), val, post.into())
}

/// what a document reports whose preamble holds these declarations, each a
/// list of arguments with their text; None: it declares two classes
pub fn declared(cmds: &[Vec<(bool, String)>]) -> Option<String> {
    let mut class: Option<String> = None;
    let mut opts: Vec<Opt> = Vec::new();
    for args in cmds {
        if class.is_some() {
            return None;
        }
        for (curly, text) in args {
            if !*curly {
                opts.extend(text.split(',').map(option));
            } else if class.is_some() {
                return None;
            } else {
                class = Some(text.clone());
            }
        }
    }
    Some(report(class, opts))
}

pub fn report(class: Option<String>, mut opts: Vec<Opt>) -> String {
    for o in &mut opts {
        if o.1.is_empty() && o.2.is_none() {
            let post = std::mem::take(&mut o.3);
            o.0.push_str(&post);
        }
    }
    format!("{class:?} {opts:?}")
}

impl Doc3 {
    /// the class and the options this document declares
    pub fn declared(&self) -> Option<String> {
        let mut v = Vec::new();
        for n in self.at2() {
            match n {
                Env { label, .. } if label == "document" => break,
                Cmd(l, args) if l == "documentclass" => {
                    v.push(args.iter().map(|x| (x.br == Br::Curly, x.body.iter().map(render1).collect())).collect())
                }
                _ => {}
            }
        }
        declared(&v)
    }
}
