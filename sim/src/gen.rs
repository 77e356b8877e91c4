//! Workload generators.  All of them draw from the run's own stream only.

use crate::node::*;
use crate::rng::Rng;
use Node::*;

/// swarm configuration: which features a run uses, drawn once per run
#[derive(Clone)]
pub struct Cfg {
    pub depth: usize,
    pub width: usize,
    pub maths: bool,
    pub envs: bool,
    pub pars: bool,
    pub args: bool,
    pub scopes: bool,
    pub unicode: bool,
    pub crlf: bool,
    pub specials: bool,
    /// rare: long texts, very many lines, many parts
    pub big: usize,
    /// rare: parts nested about that many levels
    pub deep: usize,
}

impl Cfg {
    pub fn draw(r: &mut Rng) -> Cfg {
        Cfg {
            depth: r.range(0, 4),
            width: r.range(1, 6),
            maths: r.pct(65),
            envs: r.pct(65),
            pars: r.pct(65),
            args: r.pct(75),
            scopes: r.pct(70),
            unicode: r.pct(35),
            crlf: r.pct(15),
            specials: r.pct(50),
            big: 0,
            deep: if r.one_in(70) { *r.pick(&[10, 20, 40, 80]) } else { 0 },
        }
    }
    /// nesting that no small counter holds, on its own
    pub fn tall(r: &mut Rng) -> Cfg {
        Cfg {
            depth: 1,
            width: 2,
            deep: *r.pick(&[130, 260, 270, 300, 520]),
            ..Cfg::draw(r)
        }
    }
    pub fn small(r: &mut Rng) -> Cfg {
        Cfg {
            depth: r.range(0, 2),
            width: r.range(1, 3),
            ..Cfg::draw(r)
        }
    }
}

const WORDS: &[&str] = &[
    "a", "b", "x", "text", "Hello", "world", "1", "42", "0", "alpha", "=", "+", "-", "*", ",", ".", ";",
    "&", "~", "^", "_", "#", "@", "!", "?", "\"", "'", "`", "<", ">", "|", "/", ":", "document", "begin",
    "end", "end of", "verbatim",
];
const UNI: &[&str] = &["\u{e9}", "\u{df}", "\u{4e2d}\u{6587}", "\u{1f600}", "\u{301}e", "\u{200b}", "\u{feff}", "\u{0}", "\u{7f}", "\u{ac00}"];
const BLANK: &[&str] = &[" ", "  ", "\t", " \t "];
const UBLANK: &[&str] = &["\u{a0}", "\u{2003}", "\u{3000}", "\u{2028}", "\u{b}", "\u{c}", "\u{85}"];

fn word(r: &mut Rng, c: &Cfg) -> &'static str {
    if c.unicode && r.pct(25) {
        *r.pick(UNI)
    } else {
        *r.pick(WORDS)
    }
}
fn blank(r: &mut Rng, c: &Cfg) -> &'static str {
    if c.unicode && r.pct(15) {
        *r.pick(UBLANK)
    } else {
        *r.pick(BLANK)
    }
}
fn newline(r: &mut Rng, c: &Cfg) -> &'static str {
    if c.crlf && r.pct(70) {
        "\r\n"
    } else {
        "\n"
    }
}

/// white space with at most `max` line breaks
pub fn space(r: &mut Rng, c: &Cfg, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 2) {
        s.push_str(blank(r, c));
    }
    for _ in 0..r.range(0, max) {
        s.push_str(newline(r, c));
        if r.pct(30) {
            s.push_str(blank(r, c));
        }
    }
    s
}

pub fn text(r: &mut Rng, c: &Cfg, stage: u8) -> String {
    let mut s = String::new();
    if c.big > 0 && r.pct(40) {
        return match r.below(4) {
            0 => "word ".repeat(c.big / 5 + 1),
            1 => "l\n".repeat(c.big / 2 + 1),
            2 => "\u{4e2d}".repeat(c.big / 3 + 1),
            _ => format!("{}y", "x\n ".repeat(c.big / 3 + 1)),
        };
    }
    if r.pct(50) {
        s.push_str(&space(r, c, 1));
    }
    for _ in 0..r.range(0, 3) {
        s.push_str(word(r, c));
        let max = if stage == 3 { 1 } else { 3 };
        if r.pct(60) {
            s.push_str(&space(r, c, max));
        }
    }
    if stage < 3 && r.pct(10) {
        s.push('$');
    }
    if s.is_empty() {
        s.push_str(if r.pct(50) { " " } else { "w" });
    }
    s
}

pub fn par(r: &mut Rng, c: &Cfg) -> String {
    let mut s = String::from("\n");
    let n = if c.big > 0 && r.pct(20) {
        c.big
    } else {
        r.range(1, 3)
    };
    for _ in 0..n {
        if r.pct(30) {
            s.push_str(blank(r, c));
        }
        s.push_str(newline(r, c));
    }
    s.push_str(&space(r, c, 0));
    s
}

pub fn label(r: &mut Rng, c: &Cfg) -> String {
    const L: &[&str] = &[
        "a", "b", "x", "section", "textbf", "alpha", "foo", "item", "Bar", "LaTeX", "section*", "beginx",
        "ending", "documentclass2", "x1", "foo@bar", "a-b", "beg",
    ];
    let mut s = r.pick(L).to_string();
    if c.big > 0 && r.pct(5) {
        s = s.repeat(c.big / s.len() + 1);
    }
    if c.unicode && r.pct(20) {
        s.push('\u{e9}');
    }
    if r.pct(10) {
        s.push_str(&r.below(1000).to_string());
    }
    s
}

pub fn special(r: &mut Rng, c: &Cfg, stage: u8) -> String {
    const S: &[char] = &[
        '\\', '%', '{', '}', '$', '&', '#', '_', '~', '^', ' ', '\n', ',', ';', '!', '-', '1', '\t', '"', '*',
    ];
    if c.unicode && r.pct(15) {
        return r.pick(&['\u{e9}', '\u{4e2d}', '\u{a0}', '\u{1f600}']).to_string();
    }
    if stage < 3 && r.pct(20) {
        return r.pick(&['(', ')', '[', ']']).to_string();
    }
    r.pick(S).to_string()
}

fn br(r: &mut Rng) -> Br {
    *r.pick(&[Br::Curly, Br::Curly, Br::Round, Br::Square])
}

/// more arguments than a small counter holds
fn row(r: &mut Rng, c: &Cfg) -> Vec<Arg> {
    let mut c = c.clone();
    let n = r.range(250, 310).min(c.big);
    c.big = 0;
    let prec = if r.pct(50) { "\n".to_string() } else { space(r, &c, 2) };
    let body = if r.pct(50) { vec![] } else { vec![Text("a\nb".into())] };
    let one = Arg { prec, br: br(r), body };
    vec![one; n]
}

pub fn args(r: &mut Rng, c: &Cfg, stage: u8, depth: usize) -> Vec<Arg> {
    if c.big > 0 && r.pct(8) {
        return row(r, c);
    }
    let n = if c.args { r.range(0, 3) } else { r.range(0, 1) };
    (0..n)
        .map(|_| Arg {
            prec: if r.pct(40) { space(r, c, 3) } else { String::new() },
            br: br(r),
            body: list(r, c, stage, depth),
        })
        .collect()
}

pub fn env_label(r: &mut Rng, c: &Cfg) -> String {
    const L: &[&str] = &["itemize", "a", "b", "equation", "align*", "tabular x", "figure", "document2", "e\nf", " d "];
    let mut s = r.pick(L).to_string();
    if c.big > 0 && r.pct(5) {
        s = s.repeat(c.big / s.len() + 1);
    }
    if c.unicode && r.pct(20) {
        s.push('\u{fc}');
    }
    s
}

fn candidate(r: &mut Rng, c: &Cfg, stage: u8, depth: usize) -> Node {
    let d = depth.saturating_sub(1);
    loop {
        match r.below(16) {
            0..=5 => return Text(text(r, c, stage)),
            6..=8 => {
                return if depth > 0 {
                    Cmd(label(r, c), args(r, c, stage, d))
                } else {
                    Cmd(label(r, c), vec![])
                }
            }
            9 if c.specials => return Cmd(special(r, c, stage), vec![]),
            10 if c.scopes && depth > 0 => return Scope(br(r), list(r, c, stage, d)),
            11 | 12 if c.envs && depth > 0 && stage >= 2 => {
                return Env {
                    label: env_label(r, c),
                    pb: if r.pct(25) { space(r, c, 2) } else { String::new() },
                    args: args(r, c, stage, d),
                    body: list(r, c, stage, d),
                    pe: if r.pct(25) { space(r, c, 2) } else { String::new() },
                }
            }
            13 | 14 if c.maths && stage == 3 => {
                return Math {
                    dollar: r.pct(50),
                    outline: r.pct(50),
                    body: list(r, c, stage, d),
                }
            }
            15 if c.pars && stage == 3 => return Par(par(r, c)),
            _ => {}
        }
    }
}

/// a list of parts in normal form for the stage
pub fn list(r: &mut Rng, c: &Cfg, stage: u8, depth: usize) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    let want = if r.pct(15) { 0 } else { r.range(1, c.width) };
    let mut tries = 0;
    if c.big > 0 && r.pct(5) {
        // more parts than a small counter holds
        let c = Cfg { big: 0, ..c.clone() };
        for _ in 0..r.range(130, 310) {
            let n = candidate(r, &c, stage, 0);
            append(&mut out, n, stage);
        }
        return out;
    }
    while out.len() < want && tries < want * 4 {
        tries += 1;
        let n = candidate(r, c, stage, depth);
        append(&mut out, n, stage);
    }
    out
}

/// append if the list stays in normal form
pub fn append(out: &mut Vec<Node>, n: Node, stage: u8) -> bool {
    if !normal_at(stage, std::slice::from_ref(&n)) {
        return false;
    }
    out.push(n);
    let from = out.len().saturating_sub(4);
    // the suffix decides: rules look at most two parts ahead
    if normal_at(stage, &out[from..]) {
        return true;
    }
    out.pop();
    false
}

/// a part nested `n` levels
pub fn deepen(r: &mut Rng, stage: u8, n: usize) -> Node {
    let mut cur = Text("x".to_string());
    let only = if r.pct(50) { Some(r.below(4)) } else { None };
    let which = br(r);
    for _ in 0..n {
        let body = vec![cur.clone()];
        let b = if only.is_some() { which } else { br(r) };
        let next = match only.unwrap_or_else(|| r.below(5)) {
            0 => Scope(b, body),
            1 => Cmd("a".into(), vec![Arg { prec: if r.pct(10) { "\n".into() } else { String::new() }, br: b, body }]),
            2 if stage >= 2 => Env { label: "e".into(), pb: String::new(), args: vec![], body, pe: String::new() },
            3 if stage == 3 => Math { dollar: false, outline: r.pct(50), body },
            4 if stage >= 2 => Env {
                label: "f".into(),
                pb: String::new(),
                args: vec![Arg { prec: String::new(), br: b, body }],
                body: vec![Text("y".into())],
                pe: String::new(),
            },
            _ => Scope(b, body),
        };
        cur = if normal_at(stage, std::slice::from_ref(&next)) { next } else { Scope(which, vec![cur]) };
    }
    cur
}

pub fn doc3(r: &mut Rng, c: &Cfg) -> Doc3 {
    loop {
        let mut d = Doc3::default();
        d.pre = list(r, c, 3, c.depth);
        if c.deep > 0 && r.pct(60) {
            let n = r.range(c.deep / 2, c.deep);
            let n = deepen(r, 3, n);
            append(&mut d.pre, n, 3);
        }
        if r.pct(60) {
            if r.pct(60) {
                let mut rest = std::mem::take(&mut d.pre);
                let at = if r.pct(60) { 0 } else { r.below(rest.len() + 1) };
                let tail = rest.split_off(at);
                d.pre = rest;
                append(&mut d.pre, Cmd("documentclass".into(), class_args(r, c)), 3);
                for n in tail {
                    append(&mut d.pre, n, 3);
                }
            }
            d.body = Some(Body {
                pb: if r.pct(25) { space(r, c, 2) } else { String::new() },
                args: if r.pct(30) { args(r, c, 3, 1) } else { vec![] },
                body: list(r, c, 3, c.depth),
                pe: if r.pct(25) { space(r, c, 2) } else { String::new() },
            });
            if c.deep > 0 && r.pct(30) {
                let n = r.range(c.deep / 2, c.deep);
                let n = deepen(r, 3, n);
                append(&mut d.body.as_mut().unwrap().body, n, 3);
            }
            d.trail = list(r, c, 3, c.depth.min(2));
            if r.pct(10) {
                append(
                    &mut d.trail,
                    Env {
                        label: "document".into(),
                        pb: String::new(),
                        args: vec![],
                        body: list(r, c, 3, 1),
                        pe: String::new(),
                    },
                    3,
                );
            }
        }
        if d.normal() {
            return d;
        }
    }
}

/// changes one attribute somewhere in the part
pub fn nearly(r: &mut Rng, n: &mut Node) {
    let inner = |r: &mut Rng, v: &mut Vec<Node>| {
        if v.is_empty() || r.one_in(4) {
            v.push(Text("z".into()));
        } else {
            let i = r.below(v.len());
            nearly(r, &mut v[i]);
        }
    };
    let arg = |r: &mut Rng, v: &mut Vec<Arg>| {
        let i = r.below(v.len());
        match r.below(3) {
            0 => v[i].prec.push(' '),
            1 => v[i].br = if v[i].br == Br::Curly { Br::Square } else { Br::Curly },
            _ => inner(r, &mut v[i].body),
        }
    };
    match n {
        Text(s) => s.push('z'),
        Par(s) => s.push(' '),
        Scope(b, v) => {
            if r.one_in(3) {
                *b = if *b == Br::Round { Br::Square } else { Br::Round };
            } else {
                inner(r, v)
            }
        }
        Cmd(l, v) => {
            if v.is_empty() || r.one_in(3) {
                l.push('z');
            } else {
                arg(r, v)
            }
        }
        Env { label, pb, args, body, pe } => match r.below(5) {
            0 => label.push('z'),
            1 => pb.push(' '),
            2 => pe.push('\n'),
            3 if !args.is_empty() => arg(r, args),
            _ => inner(r, body),
        },
        Math { dollar, outline, body } => match r.below(4) {
            0 => *dollar = !*dollar,
            1 => *outline = !*outline,
            _ => inner(r, body),
        },
    }
}

fn class_args(r: &mut Rng, c: &Cfg) -> Vec<Arg> {
    let mut v = Vec::new();
    let class = Arg {
        prec: String::new(),
        br: Br::Curly,
        body: vec![Text(r.pick(&["article", "book", "report"]).to_string())],
    };
    let lists = if r.pct(60) { 1 } else { r.below(4) };
    let at = if r.pct(70) { lists } else { r.below(lists + 1) };
    for i in 0..=lists {
        if i == at {
            v.push(class.clone());
        }
        if i < lists {
            v.push(Arg {
                prec: String::new(),
                br: if r.pct(85) { Br::Square } else { Br::Round },
                body: options(r, c),
            });
        }
    }
    for x in &mut v {
        if r.pct(20) {
            x.prec = space(r, c, 1);
        }
    }
    v
}

fn options(r: &mut Rng, c: &Cfg) -> Vec<Node> {
    let mut s = String::new();
    for i in 0..r.range(1, 4) {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&space(r, c, 1));
        s.push_str(r.pick(&["12pt", "a4paper", "twoside", "lang", "draft", "\u{e9}t\u{e9} x", ""]));
        if r.pct(40) {
            s.push_str(&space(r, c, 1));
            s.push('=');
            s.push_str(&space(r, c, 1));
            s.push_str(r.pick(&["en", "1", "a b", "a=b", "=", "x = ", "\u{fc}", ""]));
        }
        s.push_str(&space(r, c, 1));
    }
    if unbroken(&s) {
        s = "12pt".to_string();
    }
    let mut v = vec![Text(s)];
    if r.pct(15) {
        append(&mut v, Scope(Br::Curly, vec![Text("k=v, w".to_string())]), 3);
        append(&mut v, Text(",z".to_string()), 3);
    }
    v
}

/// stored text as people write it: the rendering of a document, comments
/// sprinkled over it, or plain token soup
pub fn source_text(r: &mut Rng) -> String {
    let c = Cfg::draw(r);
    match r.below(10) {
        0..=5 => doc3(r, &c).text(),
        6 | 7 => {
            let t = doc3(r, &c).text();
            comments(r, &t)
        }
        _ => soup(r, 40),
    }
}

pub fn comments(r: &mut Rng, t: &str) -> String {
    let mut out = String::new();
    let n = t.chars().count().max(1);
    for ch in t.chars() {
        if r.one_in(n / 3 + 2) {
            if r.one_in(5) {
                out.push_str(r.pick(&["\\\\", "\\ ", "\\{", "\\\\\\\\", "\\a"]));
            }
            if r.pct(50) {
                out.push_str(r.pick(&["% note", "%", "% { [ ( $ \\begin{x}", "%%\\", "% \\% x"]));
            } else {
                out.push('%');
                for _ in 0..r.range(0, 4) {
                    let tok = *r.pick(TOKENS);
                    out.extend(tok.chars().filter(|c| *c != '\n'));
                }
            }
            if r.pct(90) {
                out.push('\n');
            }
        }
        out.push(ch);
    }
    out
}

pub const TOKENS: &[&str] = &[
    "a", "b ", " ", "\n", "\n\n", "\n \n\n", "{", "}", "[", "]", "(", ")", "{x}", "[y]", "(z)", "\\a", "\\b{", "\\c[",
    "\\", "\\\\", "\\%", "\\{", "\\}", "\\$", "\\ ", "\\\n", "%", "%c\n", "$", "$$", "$x$", "$$y$$", "\\(", "\\)",
    "\\[", "\\]", "\\begin{a}", "\\end{a}", "\\begin", "\\end", "\\begin{document}", "\\end{document}",
    "\\documentclass[a=b, c]{d}", "\\documentclass", "\\begin{a}[x]\n{y}", "\t", "\r\n", "\u{e9}", "\u{a0}", "\u{2003}",
    "\\\u{e9}", "\\x1", "\\a*", "\u{0}", "\u{1f600}", "w\nw",
];

pub fn soup(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let mut s = String::new();
    let k = r.range(2, TOKENS.len());
    let from = r.below(TOKENS.len());
    // half of the soups use tokens that stand together, half any few tokens
    let any: Option<Vec<usize>> = if r.pct(50) {
        Some((0..r.range(2, 9)).map(|_| r.below(TOKENS.len())).collect())
    } else {
        None
    };
    for _ in 0..n {
        s.push_str(match &any {
            Some(v) => TOKENS[*r.pick(v)],
            None => TOKENS[(from + r.below(k)) % TOKENS.len()],
        });
    }
    s
}

/// parts that need not be in normal form, nor valid (for unchecked and
/// rejected edits)
pub fn wild(r: &mut Rng, c: &Cfg, stage: u8, depth: usize) -> Node {
    let d = depth.saturating_sub(1);
    let body = |r: &mut Rng| -> Vec<Node> {
        (0..r.range(0, 2)).map(|_| wild(r, c, stage, d)).collect()
    };
    let wargs = |r: &mut Rng| -> Vec<Arg> {
        (0..r.range(0, 2))
            .map(|_| Arg {
                prec: r.pick(&["", " ", "\n", "x"]).to_string(),
                br: br(r),
                body: if depth > 0 { body(r) } else { vec![] },
            })
            .collect()
    };
    const BAD: &[&str] = &["a{b", "x}", "%", "a\\b", "[", ")", "a\n\nb", "\n \n", "", "ok", "l1\nl2", "$"];
    match r.below(if depth > 0 { 12 } else { 6 }) {
        0 | 1 => Text(r.pick(BAD).to_string()),
        2 => Text(text(r, c, stage)),
        3 => Cmd(
            r.pick(&["begin", "end", "a", "b\nc", "a{", "{", "", "x%", "\u{e9}", "foo", "%"]).to_string(),
            if depth > 0 { wargs(r) } else { vec![] },
        ),
        4 if stage == 3 => Par(r.pick(&["\n\n", "\n", "", "\nx\n", " \n \n ", "\n\n\n", "x"]).to_string()),
        4 | 5 => Cmd(label(r, c), vec![]),
        6 | 7 => Scope(br(r), body(r)),
        8 | 9 if stage >= 2 => Env {
            label: r.pick(&["a", "a{", "x\\", "", "ok", "a%b", "n\nm"]).to_string(),
            pb: r.pick(&["", " ", "\n"]).to_string(),
            args: wargs(r),
            body: body(r),
            pe: r.pick(&["", " ", "\n"]).to_string(),
        },
        10 if stage == 3 => Math {
            dollar: r.pct(50),
            outline: r.pct(50),
            body: body(r),
        },
        _ => Cmd(label(r, c), wargs(r)),
    }
}

/// deeply nested or repetitive shapes, `n` levels or repetitions
pub fn shape(kind: usize, n: usize) -> String {
    let rep = |a: &str, m: &str, b: &str| format!("{}{m}{}", a.repeat(n), b.repeat(n));
    match kind {
        0 => rep("{", "x", "}"),
        1 => rep("[", "", "]"),
        2 => rep("(", "y\n", ")"),
        3 => rep("\\a{", "x", "}"),
        4 => rep("\\a[b]{", "x", "}"),
        5 => rep("\\begin{a}", "x", "\\end{a}"),
        6 => rep("\\begin{a}[o]{p}\n", "x", "\n\\end{a}"),
        7 => rep("\\(", "x", "\\)"),
        8 => rep("\\[", "x", "\\]"),
        9 => rep("\\[\\(", "x", "\\)\\]"),
        10 => rep("{$", "x", "$}"),
        11 => rep("$\\a{", "x", "}$"),
        12 => rep("\\begin{a}{", "x", "}\\end{a}"),
        13 => rep("\\begin{a}{\\begin{b}[", "x", "]\\end{b}}\\end{a}"),
        14 => "{".repeat(n),
        15 => "\\a{".repeat(n),
        16 => "\\begin{a}".repeat(n),
        17 => "\\(".repeat(n),
        18 => "$".repeat(n),
        19 => "x $y$ \\a{b}\n\n".repeat(n),
        20 => "\\a ".repeat(n),
        21 => "%c\n".repeat(n),
        22 => "\n".repeat(n),
        23 => " \n ".repeat(n),
        24 => "\\a{b}[c] (d)\n".repeat(n),
        25 => "\\begin{a}x\\end{a}".repeat(n),
        26 => "\\\\".repeat(n),
        27 => "\\a{b} ".to_string() + &" ".repeat(n) + "{c}",
        28 => "x".repeat(n),
        29 => format!("\\documentclass[{}]{{a}}", "k = v ,".repeat(n)),
        30 => format!("\\begin{{document}}{}\\end{{document}}", "a\n\n$x$ \\b{c}".repeat(n)),
        31 => rep("{[(", "x", ")]}"),
        32 => rep("\\begin{a}\\(", "x", "\\)\\end{a}"),
        33 => rep("\\a{b", "x", "c}\n"),
        34 => "}".repeat(n),
        35 => "$$x$$".repeat(n),
        36 => "\\begin{a}{".repeat(n),
        37 => rep("\\a \n[", "", "]"),
        38 => format!("\\begin{}{{a}}x\\end{}{{a}}", " ".repeat(n), "\n".repeat(n)),
        39 => format!("\\begin{{{}}}x\\end{{{}}}", "l".repeat(n), "l".repeat(n)),
        40 => "\\end{a}".repeat(n),
        41 => format!("\\begin{{a}}{}\\end{{a}}", "[o]\n".repeat(n)),
        42 => format!("\\a{}x", "\n[b\n]".repeat(n)),
        43 => format!("\\{}{{x}}", "l".repeat(n)),
        44 => format!("\\begin{{a}}\n{}$x$\\end{{a}}", "\\b{c}\n".repeat(n)),
        _ => rep("\\begin{document}", "x", "\\end{document}"),
    }
}
pub const SHAPES: usize = 46;
