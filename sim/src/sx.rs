//! S-expressions: the form of every plan (workload + faults + schedule), of
//! every replay file and of the minimiser's edits.

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}

pub fn a(s: impl ToString) -> Sx {
    Sx::A(s.to_string())
}

#[macro_export]
macro_rules! sxl {
    ($($x:expr),* $(,)?) => { $crate::sx::Sx::L(vec![$($x),*]) };
}

impl Sx {
    pub fn list(&self) -> Option<&[Sx]> {
        match self {
            Sx::L(v) => Some(v),
            _ => None,
        }
    }
    pub fn atom(&self) -> Option<&str> {
        match self {
            Sx::A(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        self.atom()?.parse().ok()
    }
    pub fn us(&self) -> Option<usize> {
        self.atom()?.parse().ok()
    }
    /// head atom of a list
    pub fn head(&self) -> Option<&str> {
        self.list()?.first()?.atom()
    }
    pub fn at(&self, i: usize) -> Option<&Sx> {
        self.list()?.get(i)
    }
    /// sub-list with the given head
    pub fn field(&self, name: &str) -> Option<&Sx> {
        self.list()?.iter().find(|x| x.head() == Some(name))
    }
    /// elements of the sub-list with the given head
    pub fn rest(&self, name: &str) -> Option<&[Sx]> {
        Some(&self.field(name)?.list()?[1..])
    }
    pub fn size(&self) -> usize {
        match self {
            Sx::A(s) => 1 + s.len(),
            Sx::L(v) => 1 + v.iter().map(Sx::size).sum::<usize>(),
        }
    }

    pub fn print(&self, out: &mut String) {
        match self {
            Sx::A(s) => {
                let bare = !s.is_empty()
                    && s.bytes()
                        .all(|b| b.is_ascii_alphanumeric() || matches!(b, b'_' | b'-' | b'.' | b':'));
                if bare {
                    out.push_str(s)
                } else {
                    out.push('"');
                    for c in s.chars() {
                        match c {
                            '"' => out.push_str("\\\""),
                            '\\' => out.push_str("\\\\"),
                            '\n' => out.push_str("\\n"),
                            '\r' => out.push_str("\\r"),
                            '\t' => out.push_str("\\t"),
                            c if c.is_control() || (c.is_whitespace() && c != ' ') || c as u32 > 0x7e => {
                                out.push_str(&format!("\\u{{{:x}}}", c as u32))
                            }
                            c => out.push(c),
                        }
                    }
                    out.push('"');
                }
            }
            Sx::L(v) => {
                out.push('(');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    x.print(out);
                }
                out.push(')');
            }
        }
    }

    /// like `print`, one second-level list per line
    pub fn pretty(&self) -> String {
        let mut out = String::new();
        match self {
            Sx::L(v) => {
                out.push('(');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(if matches!(x, Sx::L(_)) { "\n  " } else { " " });
                    }
                    match x {
                        Sx::L(w) if w.len() > 2 && w[1..].iter().all(|y| matches!(y, Sx::L(_))) => {
                            out.push('(');
                            for (j, y) in w.iter().enumerate() {
                                if j > 0 {
                                    out.push_str("\n    ");
                                }
                                y.print(&mut out);
                            }
                            out.push(')');
                        }
                        x => x.print(&mut out),
                    }
                }
                out.push_str(")\n");
            }
            x => x.print(&mut out),
        }
        out
    }

    pub fn parse(s: &str) -> Option<Sx> {
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        let r = parse_at(&cs, &mut i)?;
        skip(&cs, &mut i);
        (i == cs.len()).then_some(r)
    }
}

impl std::fmt::Display for Sx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = String::new();
        self.print(&mut s);
        f.write_str(&s)
    }
}

fn skip(c: &[char], i: &mut usize) {
    while *i < c.len() {
        if c[*i] == ';' {
            while *i < c.len() && c[*i] != '\n' {
                *i += 1
            }
        } else if matches!(c[*i], ' ' | '\n' | '\r' | '\t') {
            *i += 1
        } else {
            break;
        }
    }
}

fn parse_at(c: &[char], i: &mut usize) -> Option<Sx> {
    skip(c, i);
    match *c.get(*i)? {
        '(' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                skip(c, i);
                if *c.get(*i)? == ')' {
                    *i += 1;
                    return Some(Sx::L(v));
                }
                v.push(parse_at(c, i)?);
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let ch = *c.get(*i)?;
                *i += 1;
                match ch {
                    '"' => return Some(Sx::A(s)),
                    '\\' => {
                        let e = *c.get(*i)?;
                        *i += 1;
                        match e {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            'u' => {
                                let mut h = String::new();
                                *i += 1;
                                while *c.get(*i)? != '}' {
                                    h.push(c[*i]);
                                    *i += 1;
                                }
                                *i += 1;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            e => s.push(e),
                        }
                    }
                    ch => s.push(ch),
                }
            }
        }
        ')' => None,
        _ => {
            let mut s = String::new();
            while *i < c.len() && !matches!(c[*i], ' ' | '\n' | '\t' | '\r' | '(' | ')' | '"') {
                s.push(c[*i]);
                *i += 1;
            }
            Some(Sx::A(s))
        }
    }
}
