//! Simulated outputs: text outputs (`fmt::Write`) and byte outputs
//! (`io::Write`) that refuse, run full, accept short writes, are interrupted
//! or panic at a planned moment.

use crate::engine::count;
use crate::rng::Rng;
use crate::seams::{outside, Injected};
use crate::sx::{a, Sx};
use crate::sxl;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    /// refuse this once
    Once,
    /// refuse from now on
    Forever,
    /// take half of the piece, then refuse from now on
    Half,
    /// take half of the piece, refuse this once
    HalfOnce,
    /// unwind
    Panic,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Spec {
    Good,
    /// the n-th write call (from 0)
    Call(usize, How),
    /// when the n-th byte would be accepted
    Byte(usize, How),
    /// byte output: short and interrupted writes by the seed, nothing lost
    Short(u64),
    /// byte output: full after n bytes
    Full(usize),
    /// byte output: accepts nothing once after n bytes
    Zero(usize),
    /// takes everything, and calls the library for each of the first pieces
    Nested(u64),
}

impl Spec {
    pub fn is_io(&self) -> bool {
        matches!(self, Spec::Short(_) | Spec::Full(_) | Spec::Zero(_))
    }
    pub fn to_sx(self) -> Sx {
        let h = |h: How| {
            a(match h {
                How::Once => "once",
                How::Forever => "forever",
                How::Half => "half",
                How::HalfOnce => "halfonce",
                How::Panic => "panic",
            })
        };
        match self {
            Spec::Good => sxl![a("sink"), a("good")],
            Spec::Call(n, x) => sxl![a("sink"), a("call"), a(n), h(x)],
            Spec::Byte(n, x) => sxl![a("sink"), a("byte"), a(n), h(x)],
            Spec::Short(s) => sxl![a("sink"), a("short"), a(s)],
            Spec::Full(n) => sxl![a("sink"), a("full"), a(n)],
            Spec::Zero(n) => sxl![a("sink"), a("zero"), a(n)],
            Spec::Nested(s) => sxl![a("sink"), a("nested"), a(s)],
        }
    }
    pub fn from_sx(s: &Sx) -> Option<Spec> {
        if s.head()? != "sink" {
            return None;
        }
        let h = |s: &Sx| {
            Some(match s.atom()? {
                "once" => How::Once,
                "forever" => How::Forever,
                "half" => How::Half,
                "halfonce" => How::HalfOnce,
                "panic" => How::Panic,
                _ => return None,
            })
        };
        Some(match s.at(1)?.atom()? {
            "good" => Spec::Good,
            "call" => Spec::Call(s.at(2)?.us()?, h(s.at(3)?)?),
            "byte" => Spec::Byte(s.at(2)?.us()?, h(s.at(3)?)?),
            "short" => Spec::Short(s.at(2)?.atom()?.parse().ok()?),
            "full" => Spec::Full(s.at(2)?.us()?),
            "zero" => Spec::Zero(s.at(2)?.us()?),
            "nested" => Spec::Nested(s.at(2)?.atom()?.parse().ok()?),
            _ => return None,
        })
    }
}

pub struct Sink {
    pub spec: Spec,
    pub got: Vec<u8>,
    pub calls: usize,
    /// writes refused so far
    pub refused: usize,
    pub panicked: bool,
    /// what the nested calls give on their own
    pub nested: String,
    dead: bool,
    spent: bool,
    rng: Rng,
}

impl Sink {
    pub fn new(spec: Spec) -> Sink {
        let seed = match spec {
            Spec::Short(s) => s,
            _ => 0,
        };
        Sink {
            spec,
            got: Vec::new(),
            calls: 0,
            refused: 0,
            panicked: false,
            nested: String::new(),
            dead: false,
            spent: false,
            rng: Rng::new(seed),
        }
    }

    /// how many bytes of the piece are accepted, and what happens then
    fn decide(&mut self, piece: &[u8], is_str: bool) -> (usize, Option<How>) {
        let n = self.calls;
        self.calls += 1;
        if self.dead {
            return (0, Some(How::Forever));
        }
        let cut = |k: usize| {
            let mut k = k.min(piece.len());
            if is_str {
                let s = std::str::from_utf8(piece).unwrap();
                while !s.is_char_boundary(k) {
                    k -= 1
                }
            }
            k
        };
        match self.spec {
            Spec::Call(at, how) if n == at && !self.spent => {
                self.spent = true;
                match how {
                    How::Half | How::HalfOnce => (cut(piece.len() / 2), Some(how)),
                    how => (0, Some(how)),
                }
            }
            Spec::Byte(at, how) if self.got.len() + piece.len() > at && !self.spent => {
                self.spent = true;
                (cut(at - self.got.len()), Some(how))
            }
            _ => (piece.len(), None),
        }
    }

    fn apply(&mut self, piece: &[u8], is_str: bool) -> Result<(), ()> {
        let (k, how) = self.decide(piece, is_str);
        self.got.extend_from_slice(&piece[..k]);
        match how {
            None => Ok(()),
            Some(How::Panic) => {
                self.panicked = true;
                Err(())
            }
            Some(h) => {
                if matches!(h, How::Forever | How::Half) {
                    self.dead = true;
                }
                self.refused += 1;
                Err(())
            }
        }
    }
}

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if let Spec::Nested(seed) = self.spec {
            if self.calls < 3 {
                crate::ops::within(seed, &self.nested, "output");
            }
        }
        let r = outside(|| {
            let r = self.apply(s.as_bytes(), true);
            if r.is_err() {
                count(if self.panicked { "fault:output panics" } else { "fault:output refuses" }, 1);
            }
            r
        });
        if r.is_err() && self.panicked {
            self.panicked = true;
            std::panic::resume_unwind(Box::new(Injected("output")));
        }
        r.map_err(|_| std::fmt::Error)
    }
}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        outside(|| {
            if b.is_empty() {
                return Ok(0);
            }
            self.calls += 1;
            match self.spec {
                Spec::Short(_) => {
                    if self.rng.one_in(4) {
                        count("fault:write interrupted (EINTR)", 1);
                        return Err(std::io::Error::from_raw_os_error(4));
                    }
                    let k = 1 + self.rng.below(b.len().min(7));
                    if k < b.len() {
                        count("fault:short write", 1);
                    }
                    self.got.extend_from_slice(&b[..k]);
                    Ok(k)
                }
                Spec::Full(n) => {
                    if self.got.len() >= n {
                        self.refused += 1;
                        count("fault:disk full (ENOSPC)", 1);
                        return Err(std::io::Error::from_raw_os_error(28));
                    }
                    let k = b.len().min(n - self.got.len());
                    self.got.extend_from_slice(&b[..k]);
                    Ok(k)
                }
                Spec::Zero(n) => {
                    if self.got.len() >= n && !self.spent {
                        self.spent = true;
                        self.refused += 1;
                        count("fault:write accepts nothing", 1);
                        return Ok(0);
                    }
                    let k = if self.spent { b.len() } else { b.len().min(n - self.got.len()) };
                    self.got.extend_from_slice(&b[..k]);
                    Ok(k)
                }
                _ => {
                    self.got.extend_from_slice(b);
                    Ok(b.len())
                }
            }
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// write a value into the sink the way its kind of output is written to
pub fn write_to(sink: &mut Sink, v: &dyn std::fmt::Display) -> Result<(), ()> {
    if sink.spec.is_io() {
        use std::io::Write;
        write!(sink, "{v}").map_err(|_| ())
    } else {
        use std::fmt::Write;
        write!(sink, "{v}").map_err(|_| ())
    }
}
