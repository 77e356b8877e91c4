//! Random client programs for the checks that compare executions with each
//! other (C03, C04, C07, C08, C09).

use crate::gen::{self, Cfg};
use crate::node::{Doc3, Node};
use crate::ops::{How, Op, Src, SHARED, SLOTS};
use crate::rng::Rng;
use crate::sink::{self, Spec};

pub struct Opts {
    pub len: usize,
    pub docs: usize,
    /// number of shared documents that are also read
    pub shared: usize,
    /// outputs that refuse or panic
    pub sinks: bool,
    /// chunk sources that panic
    pub sources: bool,
    /// heavier texts
    pub texts: bool,
}

fn start(r: &mut Rng, c: &Cfg, i: usize, st: &mut [u8; SLOTS], o: &Opts) -> Op {
    let s = r.range(1, 3) as u8;
    st[i] = s;
    match r.below(12) {
        0 => Op::Make(i, s, 0, Default::default()),
        1 | 2 => {
            let d = if s < 3 {
                Doc3 { pre: gen::list(r, c, s, c.depth), ..Default::default() }
            } else {
                gen::doc3(r, c)
            };
            Op::Make(i, s, r.range(1, 2) as u8, d)
        }
        3..=6 => Op::Open(i, s, gen::doc3(r, c)),
        7 => Op::Load(i, s, gen::soup(r, if o.texts { 60 } else { 12 })),
        8 if o.texts => {
            let n = r.range(1, 30);
            Op::Load(i, s, gen::shape(r.below(gen::SHAPES), n))
        }
        _ => Op::Load(i, s, gen::source_text(r)),
    }
}

pub fn sink(r: &mut Rng, faulty: bool) -> Spec {
    if !faulty || r.pct(50) {
        return Spec::Good;
    }
    let hows = [sink::How::Once, sink::How::Forever, sink::How::Half, sink::How::HalfOnce, sink::How::Panic];
    match r.below(7) {
        6 => Spec::Nested(r.next() >> 1),
        0 | 1 => Spec::Call(r.below(4), *r.pick(&hows)),
        2 | 3 => Spec::Byte(r.below(60), *r.pick(&hows)),
        4 => Spec::Full(r.below(60)),
        _ => Spec::Short(r.next() >> 1),
    }
}

pub fn program(r: &mut Rng, c: &Cfg, o: &Opts) -> Vec<Op> {
    let mut st = [0u8; SLOTS];
    let mut v = Vec::new();
    for i in 0..o.docs.min(o.len) {
        v.push(start(r, c, i, &mut st, o));
    }
    while v.len() < o.len {
        let i = if o.docs > 0 { r.below(o.docs) } else { 0 };
        // reads also go to the shared documents
        let rd = if o.shared > 0 && (o.docs == 0 || r.pct(50)) {
            SHARED + r.below(o.shared)
        } else {
            i
        };
        let s = st[i].max(1);
        v.push(match r.below(34) {
            0..=3 => start(r, c, i, &mut st, o),
            4 | 5 => {
                let dst = r.below(SLOTS);
                st[dst] = s;
                Op::Clone(dst, rd)
            }
            6 | 7 => {
                st[i] = (s + 1).min(3);
                Op::Raise(i)
            }
            8 | 9 => {
                st[i] = (s - 1).max(1);
                Op::Lower(i)
            }
            10..=12 => Op::Render(rd, sink(r, o.sinks)),
            13 => Op::Lines(rd),
            14 => Op::Validate(rd),
            15 => Op::Eq(rd, if o.docs > 0 { r.below(o.docs) } else { rd }),
            16 => Op::Debug(rd),
            17 => Op::Parts(rd),
            18 => Op::Rebuild(i),
            19 => Op::Class(rd),
            20 | 21 => {
                let s = r.range(1, 3) as u8;
                let n = if r.pct(50) {
                    gen::wild(r, c, s, 2)
                } else {
                    gen::list(r, c, s, c.depth).into_iter().next().unwrap_or(Node::Text("x".into()))
                };
                Op::Ctor(s, n)
            }
            22 | 23 => Op::ShowErr(r.range(1, 3) as u8, gen::soup(r, 10)),
            24 if s == 1 => Op::IntoLib(i, gen::list(r, c, 2, 2).into_iter().next().unwrap_or(Node::Text("t".into()))),
            25 | 26 if s == 1 => {
                let n = r.range(1, 4);
                Op::Into(
                    i,
                    (0..n)
                        .map(|_| (0, if r.pct(60) { Node::Text(gen::text(r, c, 1)) } else { gen::wild(r, c, 1, 1) }))
                        .collect(),
                    match r.below(10) {
                            0..=2 if o.sources => Src::Panics,
                            3 | 4 if o.sources => Src::Nested(r.next() >> 1),
                            _ => Src::Calm,
                        },
                )
            }
            27 if r.pct(30) => Op::Drop(i),
            _ => {
                let mut e = crate::c02::edit(r, c, i, s);
                // wrong line numbers only where they are refused
                if let Op::Push(_, _, How::ChunkUnchecked, _, dl) = &mut e {
                    *dl = 0;
                }
                e
            }
        });
    }
    v
}
