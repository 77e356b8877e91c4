//! The library's side: building its values from model trees and reading them
//! back through their public accessors into the model's canonical dump.

use crate::node::{self, Arg, Br, Doc3, Node};
use latex_ast::ast2::IntoChunks as _;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3};

macro_rules! stage {
    ($m:ident, $ast:ident, $($more:item)*) => {
        pub mod $m {
            use super::*;
            use latex_ast::$ast as ast;

            pub fn br(b: Br) -> ast::ScopeVariant {
                match b {
                    Br::Curly => ast::ScopeVariant::Curly,
                    Br::Round => ast::ScopeVariant::Round,
                    Br::Square => ast::ScopeVariant::Square,
                }
            }
            pub fn open(b: ast::ScopeVariant) -> char {
                match b {
                    ast::ScopeVariant::Curly => '{',
                    ast::ScopeVariant::Round => '(',
                    ast::ScopeVariant::Square => '[',
                }
            }
            pub fn args(v: &[Arg]) -> Vec<(String, ast::Scope)> {
                v.iter()
                    .map(|x| {
                        (
                            x.prec.clone(),
                            ast::Scope::new_unchecked(chunks(&x.body), br(x.br)),
                        )
                    })
                    .collect()
            }
            pub fn chunks(ns: &[Node]) -> Vec<ast::Chunk> {
                node::number(ns)
                    .into_iter()
                    .map(|(l, n)| ast::Chunk::new_unchecked(l, variant(n)))
                    .collect()
            }
            pub fn dump_args(v: &[(String, ast::Scope)], out: &mut String) {
                for (p, s) in v {
                    out.push_str(&format!("<{p:?}{}", open(s.variant())));
                    dump_chunks(s.chunks(), out);
                    out.push('>');
                }
            }
            /// the text of the parts, put together without the library; Err when
            /// a line number is not the one the text implies
            pub fn walk(cs: &[ast::Chunk]) -> Result<String, String> {
                let mut out = String::new();
                let mut line = 1;
                for c in cs {
                    let mut s = String::new();
                    walk_variant(c.variant(), &mut s)?;
                    if c.line_no() != line {
                        return Err(format!("the part {s:?} has line number {}, its list puts it on {line}", c.line_no()));
                    }
                    line += node::nl(&s);
                    out.push_str(&s);
                }
                Ok(out)
            }
            pub fn walk_args(v: &[(String, ast::Scope)], out: &mut String) -> Result<(), String> {
                for (p, s) in v {
                    out.push_str(p);
                    walk_scope(s, out)?;
                }
                Ok(())
            }
            pub fn walk_scope(s: &ast::Scope, out: &mut String) -> Result<(), String> {
                let o = open(s.variant());
                out.push(o);
                out.push_str(&walk(s.chunks())?);
                out.push(match o { '{' => '}', '(' => ')', _ => ']' });
                Ok(())
            }
            $($more)*
        }
    };
}

stage!(s1, ast1,
    pub fn walk_variant(v: &ast::ChunkVariant, out: &mut String) -> Result<(), String> {
        match v {
            ast::ChunkVariant::Text(s) => out.push_str(s),
            ast::ChunkVariant::Command(c) => {
                out.push('\\');
                out.push_str(c.label());
                walk_args(c.arguments(), out)?;
            }
            ast::ChunkVariant::Scope(s) => walk_scope(s, out)?,
            #[allow(unreachable_patterns)]
            other => out.push_str(&other.to_string()),
        }
        Ok(())
    }
    pub fn variant(n: &Node) -> ast::ChunkVariant {
        match n {
            Node::Text(s) | Node::Par(s) => ast::ChunkVariant::Text(s.clone()),
            Node::Cmd(l, a) => ast::ChunkVariant::Command(ast::Command::new_unchecked(l.clone(), args(a))),
            Node::Scope(b, c) => ast::ChunkVariant::Scope(ast::Scope::new_unchecked(chunks(c), br(*b))),
            // a stage-1 tree has neither; keep the harness total
            n @ (Node::Env { .. } | Node::Math { .. }) => ast::ChunkVariant::Text(node::render1(n)),
        }
    }
    pub fn dump_chunks(cs: &[ast::Chunk], out: &mut String) {
        for c in cs {
            let l = c.line_no();
            match c.variant() {
                ast::ChunkVariant::Text(s) => out.push_str(&format!("(T{l} {s:?})")),
                ast::ChunkVariant::Command(c) => {
                    out.push_str(&format!("(C{l} {:?}", c.label()));
                    dump_args(c.arguments(), out);
                    out.push(')');
                }
                ast::ChunkVariant::Scope(s) => {
                    out.push_str(&format!("(S{l}{}", open(s.variant())));
                    dump_chunks(s.chunks(), out);
                    out.push(')');
                }
                #[allow(unreachable_patterns)]
                other => out.push_str(&format!("(?{l} {other:?})")),
            }
        }
    }
);
stage!(s2, ast2,
    pub fn walk_variant(v: &ast::ChunkVariant, out: &mut String) -> Result<(), String> {
        match v {
            ast::ChunkVariant::Text(s) => out.push_str(s),
            ast::ChunkVariant::Command(c) => {
                out.push('\\');
                out.push_str(c.label());
                walk_args(c.arguments(), out)?;
            }
            ast::ChunkVariant::Scope(s) => walk_scope(s, out)?,
            ast::ChunkVariant::Environment(e) => {
                let (label, args, content, pb, pe) = e.clone().decompose();
                out.push_str(&format!("\\begin{pb}{{{label}}}"));
                walk_args(&args, out)?;
                out.push_str(&walk(&content)?);
                out.push_str(&format!("\\end{pe}{{{label}}}"));
            }
            #[allow(unreachable_patterns)]
            other => out.push_str(&other.to_string()),
        }
        Ok(())
    }
    pub fn variant(n: &Node) -> ast::ChunkVariant {
        match n {
            Node::Text(s) | Node::Par(s) => ast::ChunkVariant::Text(s.clone()),
            Node::Cmd(l, a) => ast::ChunkVariant::Command(ast::Command::new_unchecked(l.clone(), args(a))),
            Node::Scope(b, c) => ast::ChunkVariant::Scope(ast::Scope::new_unchecked(chunks(c), br(*b))),
            Node::Env { label, pb, args: a, body, pe } => ast::ChunkVariant::Environment(
                ast::Environment::new_unchecked(label.clone(), args(a), chunks(body), pb.clone(), pe.clone())),
            n @ Node::Math { .. } => ast::ChunkVariant::Text(node::render1(n)),
        }
    }
    pub fn dump_chunks(cs: &[ast::Chunk], out: &mut String) {
        for c in cs {
            let l = c.line_no();
            match c.variant() {
                ast::ChunkVariant::Text(s) => out.push_str(&format!("(T{l} {s:?})")),
                ast::ChunkVariant::Command(c) => {
                    out.push_str(&format!("(C{l} {:?}", c.label()));
                    dump_args(c.arguments(), out);
                    out.push(')');
                }
                ast::ChunkVariant::Scope(s) => {
                    out.push_str(&format!("(S{l}{}", open(s.variant())));
                    dump_chunks(s.chunks(), out);
                    out.push(')');
                }
                ast::ChunkVariant::Environment(e) => {
                    let (label, args, content, pb, pe) = e.clone().decompose();
                    out.push_str(&format!("(E{l} {label:?} {pb:?}"));
                    dump_args(&args, out);
                    out.push('|');
                    dump_chunks(&content, out);
                    out.push_str(&format!("|{pe:?})"));
                }
                #[allow(unreachable_patterns)]
                other => out.push_str(&format!("(?{l} {other:?})")),
            }
        }
    }
);
stage!(s3, ast3,
    pub fn walk_variant(v: &ast::ChunkVariant, out: &mut String) -> Result<(), String> {
        match v {
            ast::ChunkVariant::Text(s) => out.push_str(s),
            ast::ChunkVariant::Command(c) => {
                out.push('\\');
                out.push_str(c.label());
                walk_args(c.arguments(), out)?;
            }
            ast::ChunkVariant::Scope(s) => walk_scope(s, out)?,
            ast::ChunkVariant::Environment(e) => {
                let (label, args, content, pb, pe) = e.clone().decompose();
                out.push_str(&format!("\\begin{pb}{{{label}}}"));
                walk_args(&args, out)?;
                out.push_str(&walk(&content)?);
                out.push_str(&format!("\\end{pe}{{{label}}}"));
            }
            ast::ChunkVariant::ParagraphBreak(s) => out.push_str(s),
            ast::ChunkVariant::MathsBlock(m) => out.push_str(&s2::walk(&lowered(m))?),
            #[allow(unreachable_patterns)]
            other => out.push_str(&other.to_string()),
        }
        Ok(())
    }
    pub fn variant(n: &Node) -> ast::ChunkVariant {
        match n {
            Node::Text(s) => ast::ChunkVariant::Text(s.clone()),
            Node::Par(s) => ast::ChunkVariant::ParagraphBreak(s.clone()),
            Node::Cmd(l, a) => ast::ChunkVariant::Command(ast::Command::new_unchecked(l.clone(), args(a))),
            Node::Scope(b, c) => ast::ChunkVariant::Scope(ast::Scope::new_unchecked(chunks(c), br(*b))),
            Node::Env { label, pb, args: a, body, pe } => ast::ChunkVariant::Environment(
                ast::Environment::new_unchecked(label.clone(), args(a), chunks(body), pb.clone(), pe.clone())),
            Node::Math { dollar, outline, body } => ast::ChunkVariant::MathsBlock(ast::MathsBlock::new_unchecked(
                if *dollar { ast::MathsVariant::Dollars } else { ast::MathsVariant::Brackets },
                if *outline { ast::MathsType::Outline } else { ast::MathsType::Inline },
                chunks(body))),
        }
    }
    pub fn dump_chunks(cs: &[ast::Chunk], out: &mut String) {
        for c in cs {
            let l = c.line_no();
            match c.variant() {
                ast::ChunkVariant::Text(s) => out.push_str(&format!("(T{l} {s:?})")),
                ast::ChunkVariant::ParagraphBreak(s) => out.push_str(&format!("(P{l} {s:?})")),
                ast::ChunkVariant::Command(c) => {
                    out.push_str(&format!("(C{l} {:?}", c.label()));
                    dump_args(c.arguments(), out);
                    out.push(')');
                }
                ast::ChunkVariant::Scope(s) => {
                    out.push_str(&format!("(S{l}{}", open(s.variant())));
                    dump_chunks(s.chunks(), out);
                    out.push(')');
                }
                ast::ChunkVariant::Environment(e) => {
                    let (label, args, content, pb, pe) = e.clone().decompose();
                    out.push_str(&format!("(E{l} {label:?} {pb:?}"));
                    dump_args(&args, out);
                    out.push('|');
                    dump_chunks(&content, out);
                    out.push_str(&format!("|{pe:?})"));
                }
                ast::ChunkVariant::MathsBlock(m) => {
                    // the block shows its content only by lowering itself
                    let low = lowered(m);
                    out.push_str(&format!("(M{l} "));
                    s2::dump_chunks(&low, out);
                    out.push(')');
                }
                #[allow(unreachable_patterns)]
                other => out.push_str(&format!("(?{l} {other:?})")),
            }
        }
    }
);

/// a maths block as stage-2 parts
fn lowered(m: &ast3::MathsBlock) -> Vec<ast2::Chunk> {
    let mut low: Vec<ast2::Chunk> = Vec::new();
    for c in m.clone().into_chunks() {
        if let (Some(ast2::ChunkVariant::Text(l)), ast2::ChunkVariant::Text(s)) =
            (low.last_mut().map(|c| c.variant_mut()), c.variant())
        {
            l.push_str(s);
            continue;
        }
        low.push(c);
    }
    low
}

#[derive(Clone)]
pub enum Doc {
    D1(ast1::Document),
    D2(ast2::Document),
    D3(ast3::Document),
}
use Doc::*;

pub fn err_text(e: &latex_ast::Error) -> String {
    format!("{e:?}")
}

impl Doc {
    pub fn stage(&self) -> u8 {
        match self {
            D1(_) => 1,
            D2(_) => 2,
            D3(_) => 3,
        }
    }
    pub fn load(stage: u8, text: &str) -> Result<Doc, latex_ast::Error> {
        Ok(match stage {
            1 => D1(text.parse()?),
            2 => D2(text.parse()?),
            _ => D3(text.parse()?),
        })
    }
    pub fn empty(stage: u8) -> Doc {
        match stage {
            1 => D1(Default::default()),
            2 => D2(Default::default()),
            _ => D3(Default::default()),
        }
    }
    pub fn raise(self) -> Result<Doc, latex_ast::Error> {
        Ok(match self {
            D1(d) => D2(d.try_into()?),
            D2(d) => D3(d.try_into()?),
            D3(d) => D3(d),
        })
    }
    pub fn lower(self) -> Doc {
        match self {
            D1(d) => D1(d),
            D2(d) => D1(d.into()),
            D3(d) => D2(d.into()),
        }
    }
    pub fn render(&self) -> String {
        match self {
            D1(d) => d.to_string(),
            D2(d) => d.to_string(),
            D3(d) => d.to_string(),
        }
    }
    pub fn display(&self) -> &dyn std::fmt::Display {
        match self {
            D1(d) => d,
            D2(d) => d,
            D3(d) => d,
        }
    }
    pub fn debug(&self) -> String {
        match self {
            D1(d) => format!("{d:?}"),
            D2(d) => format!("{d:?}"),
            D3(d) => format!("{d:?}"),
        }
    }
    pub fn lines(&self) -> u32 {
        match self {
            D1(d) => d.lines(),
            D2(d) => d.lines(),
            D3(d) => d.lines(),
        }
    }
    pub fn validate(&self) -> Result<(), latex_ast::InternalError> {
        match self {
            D1(d) => d.validate(),
            D2(d) => d.validate(),
            D3(d) => d.validate(),
        }
    }
    pub fn same(&self, o: &Doc) -> bool {
        match (self, o) {
            (D1(a), D1(b)) => a == b,
            (D2(a), D2(b)) => a == b,
            (D3(a), D3(b)) => a == b,
            _ => false,
        }
    }
    /// canonical form, through the accessors only
    pub fn dump(&self) -> String {
        let mut s = String::new();
        match self {
            D1(d) => s1::dump_chunks(d.chunks(), &mut s),
            D2(d) => s2::dump_chunks(d.chunks(), &mut s),
            D3(d) => {
                s.push_str("pre:");
                s3::dump_chunks(d.chunks_preamable(), &mut s);
                let (_, _, _, _, args, pb, pe, _) = d.clone().decompose();
                if d.is_bodyless() {
                    s.push_str("\nbodyless");
                } else {
                    s.push_str(&format!("\nbegin{pb:?}"));
                    s3::dump_args(&args, &mut s);
                    s.push('|');
                    s3::dump_chunks(d.chunks_body(), &mut s);
                    s.push_str(&format!("|end{pe:?}"));
                }
                s.push_str("\ntrail:");
                s3::dump_chunks(d.chunks_trailing(), &mut s);
            }
        }
        s
    }
    /// the text put together from the parts; Err when a line number is wrong
    pub fn walk(&self) -> Result<String, String> {
        match self {
            D1(d) => s1::walk(d.chunks()),
            D2(d) => s2::walk(d.chunks()),
            D3(d) => {
                let mut s = s3::walk(d.chunks_preamable())?;
                let (_, _, _, _, args, pb, pe, _) = d.clone().decompose();
                if !d.is_bodyless() {
                    s.push_str(&format!("\\begin{pb}{{document}}"));
                    s3::walk_args(&args, &mut s)?;
                    s.push_str(&s3::walk(d.chunks_body())?);
                    s.push_str(&format!("\\end{pe}{{document}}"));
                }
                s.push_str(&s3::walk(d.chunks_trailing())?);
                Ok(s)
            }
        }
    }
    /// class and options, which only stage 3 has
    pub fn class(&self) -> String {
        match self {
            D3(d) => {
                let (c, o, ..) = d.clone().decompose();
                node::report(c, o)
            }
            _ => String::new(),
        }
    }
}

/// the class and options a stage-3 document has to report that was made from
/// this one; None: it declares two classes
pub fn declared(d: &ast2::Document) -> Option<String> {
    let mut v = Vec::new();
    for c in d.chunks() {
        match c.variant() {
            ast2::ChunkVariant::Environment(e) if e.label() == "document" => break,
            ast2::ChunkVariant::Command(c) if c.label() == "documentclass" => v.push(
                c.arguments()
                    .iter()
                    .map(|(_, s)| {
                        let text = s.chunks().iter().map(ToString::to_string).collect::<String>();
                        (matches!(s.variant(), ast2::ScopeVariant::Curly), text)
                    })
                    .collect(),
            ),
            _ => {}
        }
    }
    node::declared(&v)
}

/// the document of a model tree, at a stage
pub fn build(stage: u8, d: &Doc3) -> Doc {
    match stage {
        1 => D1(ast1::Document::new_unchecked(s1::chunks(&d.at1()))),
        2 => D2(ast2::Document::new_unchecked(s2::chunks(&d.at2()))),
        _ => {
            let none = node::Body { pb: String::new(), args: vec![], body: vec![], pe: String::new() };
            let b = d.body.as_ref().unwrap_or(&none);
            D3(ast3::Document::new_unchecked(
                s3::chunks(&d.pre),
                None,
                Vec::new(),
                s3::chunks(&b.body),
                s3::args(&b.args),
                b.pb.clone(),
                b.pe.clone(),
                s3::chunks(&d.trail),
            ))
        }
    }
}

/// model dump of a document at a stage
pub fn model_dump(stage: u8, d: &Doc3) -> String {
    match stage {
        1 => node::dump_list(&d.at1()),
        2 => node::dump_list(&d.at2()),
        _ => node::dump_doc3(d),
    }
}

