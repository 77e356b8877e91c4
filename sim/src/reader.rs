//! A reference reader: what a text has to be read as at each stage, or the
//! offence for which it has to be refused, with its line in the whole text.
//! It works on positions of the whole text and knows nothing of the library.

use crate::node::{self, nl, Arg, Body, Br, Doc3, Node};
use Node::*;

/// kind and line of an offence
#[derive(Clone, PartialEq, Debug)]
pub struct Offence {
    pub kind: String,
    pub line: u32,
}

fn bad<T>(line: u32, kind: impl Into<String>) -> Result<T, Offence> {
    Err(Offence { kind: kind.into(), line })
}

/// a part and the line it starts in
#[derive(Clone)]
struct At {
    line: u32,
    is: Is,
}

#[derive(Clone)]
enum Is {
    Text(String),
    Cmd(String, Vec<In>),
    Scope(Br, Vec<At>),
    Env { label: String, pb: String, args: Vec<In>, body: Vec<At>, pe: String },
    Math { dollar: bool, outline: bool, body: Vec<At> },
    Par(String),
}

/// an argument
#[derive(Clone)]
struct In {
    prec: String,
    br: Br,
    body: Vec<At>,
}

fn plain_args(v: &[In]) -> Vec<Arg> {
    v.iter().map(|x| Arg { prec: x.prec.clone(), br: x.br, body: plain(&x.body) }).collect()
}

fn plain(v: &[At]) -> Vec<Node> {
    v.iter()
        .map(|p| match &p.is {
            Is::Text(s) => Text(s.clone()),
            Is::Par(s) => Par(s.clone()),
            Is::Cmd(l, a) => Cmd(l.clone(), plain_args(a)),
            Is::Scope(b, v) => Scope(*b, plain(v)),
            Is::Env { label, pb, args, body, pe } => Env {
                label: label.clone(),
                pb: pb.clone(),
                args: plain_args(args),
                body: plain(body),
                pe: pe.clone(),
            },
            Is::Math { dollar, outline, body } => Math { dollar: *dollar, outline: *outline, body: plain(body) },
        })
        .collect()
}

// ------------------------------------------------------------------- stage 1

struct Source {
    c: Vec<char>,
    /// the line of each character
    line: Vec<u32>,
}

fn bracket(c: char) -> Option<(Br, bool)> {
    [Br::Curly, Br::Round, Br::Square].into_iter().find_map(|b| match c {
        c if c == b.open() => Some((b, true)),
        c if c == b.close() => Some((b, false)),
        _ => None,
    })
}

impl Source {
    fn new(text: &str) -> Source {
        let c: Vec<char> = text.chars().collect();
        let mut line = vec![1];
        for x in &c {
            line.push(line.last().unwrap() + (*x == '\n') as u32);
        }
        Source { c, line }
    }
    fn cut(&self, i: usize, j: usize) -> String {
        self.c[i..j].iter().collect()
    }
    fn opens(&self, i: usize) -> Option<Br> {
        bracket(self.c[i]).filter(|b| b.1).map(|b| b.0)
    }
    /// the bracket that closes the one before i
    fn close(&self, mut i: usize, j: usize, b: Br) -> Option<usize> {
        let mut open = 1;
        while i < j {
            match self.c[i] {
                '\\' => i += 1,
                c if c == b.open() => open += 1,
                c if c == b.close() => open -= 1,
                _ => {}
            }
            if open == 0 {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn read(&self, mut i: usize, j: usize) -> Result<Vec<At>, Offence> {
        let mut out = Vec::new();
        while i < j {
            let line = self.line[i];
            if self.c[i] == '\\' {
                // the start of text that is read together with what follows
                i = self.command(i, j, &mut out)?;
            } else if let Some(b) = self.opens(i) {
                let Some(k) = self.close(i + 1, j, b) else {
                    return bad(line, format!("UnclosedScope({b:?})"));
                };
                out.push(At { line, is: Is::Scope(b, self.read(i + 1, k)?) });
                i = k + 1;
            } else {
                let k = (i..j).find(|k| self.c[*k] == '\\' || self.opens(*k).is_some()).unwrap_or(j);
                out.push(At { line, is: Is::Text(self.cut(i, k)) });
                i = k;
            }
        }
        Ok(out)
    }
    /// reads the command at i and says where it ends
    fn command(&self, i: usize, j: usize, out: &mut Vec<At>) -> Result<usize, Offence> {
        let line = self.line[i];
        let mut k = i + 1;
        if k == j {
            out.push(At { line, is: Is::Cmd(String::new(), vec![]) });
            return Ok(j);
        }
        if !self.c[k].is_ascii_alphabetic() {
            out.push(At { line, is: Is::Cmd(self.cut(k, k + 1), vec![]) });
            return Ok(k + 1);
        }
        while k < j && self.c[k] != '\\' && !self.c[k].is_whitespace() && bracket(self.c[k]).is_none() {
            k += 1;
        }
        let label = self.cut(i + 1, k);
        let mut args = Vec::new();
        let end = loop {
            let m = (k..j).find(|m| !self.c[*m].is_whitespace()).unwrap_or(j);
            match (m < j).then(|| bracket(self.c[m])).flatten() {
                Some((b, true)) => {
                    let Some(e) = self.close(m + 1, j, b) else {
                        return bad(line, format!("UnclosedArgument({b:?})"));
                    };
                    args.push((k, m, e, b));
                    k = e + 1;
                }
                Some((b, false)) if m == k => {
                    return bad(self.line[m], format!("UnexpectedClosing({b:?})"));
                }
                _ => break k,
            }
        };
        let mut v = Vec::new();
        for (k, m, e, b) in args {
            v.push(In { prec: self.cut(k, m), br: b, body: self.read(m + 1, e)? });
        }
        out.push(At { line, is: Is::Cmd(label, v) });
        Ok(end)
    }
}

// ------------------------------------------------------------------- stage 2

fn args2(v: Vec<In>) -> Result<Vec<In>, Offence> {
    v.into_iter().map(|x| Ok(In { body: stage2(x.body)?, ..x })).collect()
}

fn stage2(v: Vec<At>) -> Result<Vec<At>, Offence> {
    let mut out = Vec::new();
    // the environments that are open
    let mut open: Vec<Vec<Node>> = Vec::new();
    let mut begin: Option<(u32, u32, Vec<In>)> = None;
    let mut body = Vec::new();
    for p in v {
        let line = p.line;
        let (begins, args) = match &p.is {
            Is::Cmd(l, a) if l == "begin" || l == "end" => (l == "begin", a),
            _ if !open.is_empty() => {
                body.push(p);
                continue;
            }
            _ => {
                let is = match p.is {
                    Is::Scope(b, v) => Is::Scope(b, stage2(v)?),
                    Is::Cmd(l, a) => Is::Cmd(l, args2(a)?),
                    is => is,
                };
                out.push(At { line, is });
                continue;
            }
        };
        let label = match args.first() {
            Some(a) if a.br == Br::Curly => plain(&a.body),
            _ => return bad(line, "NoEnvironmentLabel"),
        };
        if begins {
            open.push(label);
            if open.len() == 1 {
                let whole: String = plain_args(args).iter().map(|x| format!("{}{}", x.prec, node::render(&x.body))).collect();
                begin = Some((line, line + nl(&whole), args.clone()));
            } else {
                body.push(p);
            }
            continue;
        }
        if open.last() != Some(&label) {
            return bad(line, format!("UnexpectedEnd({:?})", node::render(&label)));
        }
        if args.len() > 1 {
            return bad(line, "TooManyArgsEnd");
        }
        open.pop();
        if !open.is_empty() {
            body.push(p);
            continue;
        }
        let (start, _, mut a) = begin.take().unwrap();
        let pb = a.remove(0).prec;
        let pe = args[0].prec.clone();
        let a = args2(a)?;
        out.push(At {
            line: start,
            is: Is::Env { label: node::render(&label), pb, args: a, body: stage2(std::mem::take(&mut body))?, pe },
        });
    }
    match (open.first(), begin) {
        (Some(l), Some((_, end, _))) => bad(end, format!("UnclosedEnvironment({:?})", node::render(l))),
        _ => Ok(out),
    }
}

// ------------------------------------------------------------------- stage 3

fn args3(v: Vec<In>) -> Result<Vec<In>, Offence> {
    v.into_iter().map(|x| Ok(In { body: stage3(x.body)?, ..x })).collect()
}

/// a token of the maths level: a dollar, or something between dollars
enum Tok {
    Dollar(u32),
    Part(At),
}

fn tokens(v: Vec<At>) -> Vec<Tok> {
    let mut out = Vec::new();
    for p in v {
        let Is::Text(s) = &p.is else {
            out.push(Tok::Part(p));
            continue;
        };
        let mut line = p.line;
        for (i, s) in s.split('$').enumerate() {
            if i > 0 {
                out.push(Tok::Dollar(line));
            }
            if !s.is_empty() {
                out.push(Tok::Part(At { line, is: Is::Text(s.to_string()) }));
            }
            line += nl(s);
        }
    }
    out
}

/// the text the tokens came from, as parts again
fn join(v: Vec<Tok>) -> Vec<At> {
    let mut out: Vec<At> = Vec::new();
    for t in v {
        let p = match t {
            Tok::Dollar(line) => At { line, is: Is::Text("$".into()) },
            Tok::Part(p) => p,
        };
        match (out.last_mut(), p) {
            (Some(At { is: Is::Text(t), .. }), At { is: Is::Text(s), .. }) => t.push_str(&s),
            (_, p) => out.push(p),
        }
    }
    out
}

fn stage3(v: Vec<At>) -> Result<Vec<At>, Offence> {
    let mut out = Vec::new();
    let mut it = tokens(v).into_iter().peekable();
    while let Some(t) = it.next() {
        let p = match t {
            Tok::Dollar(line) => {
                let outline = it.next_if(|t| matches!(t, Tok::Dollar(_))).is_some();
                let mut body = Vec::new();
                loop {
                    match it.next() {
                        None => return bad(line, "UnclosedMaths"),
                        Some(Tok::Part(p)) => body.push(Tok::Part(p)),
                        Some(Tok::Dollar(_)) => break,
                    }
                }
                if outline && it.next_if(|t| matches!(t, Tok::Dollar(_))).is_none() {
                    return bad(line, "UnclosedMaths");
                }
                out.push(At { line, is: Is::Math { dollar: true, outline, body: stage3(join(body))? } });
                continue;
            }
            Tok::Part(p) => p,
        };
        let line = p.line;
        let is = match p.is {
            Is::Text(s) => {
                out.extend(breaks(&s, line));
                continue;
            }
            Is::Cmd(l, _) if l == ")" || l == "]" => return bad(line, "UnexpectedMathsEnd"),
            Is::Cmd(l, _) if l == "(" || l == "[" => {
                let end = if l == "(" { ")" } else { "]" };
                let mut open = 1;
                let mut body = Vec::new();
                loop {
                    let Some(t) = it.next() else { return bad(line, "UnclosedMaths") };
                    match &t {
                        Tok::Part(At { is: Is::Cmd(x, _), .. }) if *x == l => open += 1,
                        Tok::Part(At { is: Is::Cmd(x, _), .. }) if x == end => open -= 1,
                        _ => {}
                    }
                    if open == 0 {
                        break;
                    }
                    body.push(t);
                }
                Is::Math { dollar: false, outline: l == "[", body: stage3(join(body))? }
            }
            Is::Cmd(l, a) => Is::Cmd(l, args3(a)?),
            Is::Scope(b, v) => Is::Scope(b, stage3(v)?),
            Is::Env { label, pb, args, body, pe } => {
                let args = args3(args)?;
                Is::Env { label, pb, args, body: stage3(body)?, pe }
            }
            is => is,
        };
        out.push(At { line, is });
    }
    Ok(out)
}

/// the paragraph breaks of a text: from a line break on, blank, with at least
/// one more line break
fn breaks(s: &str, mut line: u32) -> Vec<At> {
    let mut out = Vec::new();
    let mut push = |s: &str, par: bool| {
        if !s.is_empty() {
            let t = s.to_string();
            out.push(At { line, is: if par { Is::Par(t) } else { Is::Text(t) } });
            line += nl(s);
        }
    };
    let mut rest = s;
    let mut from = 0;
    while let Some(i) = rest[from..].find('\n').map(|i| i + from) {
        let e = rest[i..].find(|c: char| !c.is_whitespace()).map_or(rest.len(), |k| i + k);
        if nl(&rest[i..e]) < 2 {
            from = e;
            continue;
        }
        push(&rest[..i], false);
        push(&rest[i..e], true);
        rest = &rest[e..];
        from = 0;
    }
    push(rest, false);
    out
}

fn document3(v: Vec<At>) -> Result<Doc3, Offence> {
    let mut pre = Vec::new();
    let mut trail = Vec::new();
    let mut body: Option<Body> = None;
    let mut classes = 0;
    for p in v {
        if body.is_some() {
            trail.push(p);
            continue;
        }
        match p.is {
            Is::Env { label, pb, args, body: b, pe } if label == "document" => {
                let args = args3(args)?;
                body = Some(Body { pb, args: plain_args(&args), body: plain(&stage3(b)?), pe });
                continue;
            }
            Is::Cmd(ref l, ref a) if l == "documentclass" => {
                if classes > 0 {
                    return bad(p.line, "DoubleDocumentClass");
                }
                classes = a.iter().filter(|x| x.br == Br::Curly).count();
                if classes > 1 {
                    return bad(p.line, "TooManyArgsDocumentClass");
                }
            }
            _ => {}
        }
        pre.push(p);
    }
    let pre = plain(&stage3(pre)?);
    Ok(Doc3 { pre, body, trail: plain(&stage3(trail)?) })
}

/// the text (without comments) read at a stage, as the dump of its parts
pub fn read(stage: u8, bare: &str) -> Result<String, Offence> {
    let s = Source::new(bare);
    let v = s.read(0, s.c.len())?;
    if stage == 1 {
        return Ok(node::dump_list(&plain(&v)));
    }
    let v = stage2(v)?;
    if stage == 2 {
        return Ok(node::dump_list(&plain(&v)));
    }
    Ok(node::dump_doc3(&document3(v)?))
}

/// the same for the text of a part, or of parts that follow each other: a
/// document environment is not special
pub fn part(stage: u8, bare: &str) -> Result<String, Offence> {
    let s = Source::new(bare);
    let mut v = s.read(0, s.c.len())?;
    if stage > 1 {
        v = stage2(v)?;
    }
    if stage > 2 {
        v = stage3(v)?;
    }
    Ok(node::dump_list(&plain(&v)))
}
