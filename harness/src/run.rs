//! Running the real parser and the reference over one source.
use crate::rt::*;
use crate::sets::ASCII;
use crate::spec;
use crate::src::*;
use crate::ser::Ser;
use crate::tr::{self, Fault, Tr, B};
use conch_parser::ast::builder::Builder;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser, SourcePos};
use conch_parser::token::Token;

/// How much of what the parser says is compared.
pub const TREE: u32 = 0; // the tree, and whether there is an error
pub const ERRORS: u32 = 1; // and which error
pub const POSITIONS: u32 = 2; // and all positions

/// Writes what a parser answered; is there more?
pub fn step<X: Fault>(o: &mut B, level: u32, r: Result<Option<B>, ParseError<X>>, pos: SourcePos) -> bool {
    match r {
        Ok(Some(c)) => {
            tr::w(o, "+");
            o.extend_from_slice(&c);
            if level >= POSITIONS {
                tr::pos(o, pos);
            }
            true
        }
        Ok(None) => {
            tr::w(o, ".");
            if level >= POSITIONS {
                tr::pos(o, pos);
            }
            false
        }
        Err(e) => {
            o.append(&mut tr::err(&e, level));
            false
        }
    }
}
pub fn parser(src: &Src) -> Parser<Lexer<Chars>, Tr> {
    Parser::with_builder(Lexer::new(src.iter()), Tr::new())
}
/// Everything the parser says from here on, command after command, with the position after each.
pub fn rest<I, X>(p: &mut Parser<I, X>, level: u32) -> B
where
    I: Iterator<Item = Token>,
    X: Builder,
    X::Command: Ser,
    X::Error: Fault,
{
    let mut o = Vec::new();
    loop {
        let r = p.complete_command().map(|c| {
            c.map(|c| {
                let mut o = Vec::new();
                c.ser(&mut o);
                o
            })
        });
        if !step(&mut o, level, r, p.pos()) {
            return o;
        }
    }
}
pub fn real(src: &Src, level: u32) -> B {
    rest(&mut parser(src), level)
}
pub fn spec_rest(p: &mut spec::P, level: u32) -> B {
    let mut o = Vec::new();
    loop {
        let r = p.complete_command();
        let at = p.pos();
        if !step(&mut o, level, r, at) {
            return o;
        }
    }
}
pub fn reference(src: &Src, level: u32) -> B {
    spec_rest(&mut spec::P::new(src, Tr::new()), level)
}
/// Readable, for replays.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            1 => s.push('⟨'),
            2 => s.push('⟩'),
            3 => s.push('«'),
            4 => s.push('»'),
            32..=126 => s.push(c as char),
            0 => s.push('·'),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}
/// Real and reference must agree on `src`.
pub fn agree(src: &Src, level: u32) -> B {
    let a = real(src, level);
    let b = reference(src, level);
    observe(&a);
    check(a == b, 1, || format!("source {:?}\n  parser:    {}\n  reference: {}", src.text(), show(&a), show(&b)));
    a
}

pub fn want(src: &Src, what: &str, a: &[u8], b: &[u8]) {
    check(a == b, 1, || format!("source {:?}\n  parser: {}\n  {}: {}", src.text(), show(a), what, show(b)));
}

macro_rules! case {
    ($t:expr) => { Case { tier: 0, t: $t, s: &[], v: &[] } };
    ($t:expr, [$($s:expr),*]) => { Case { tier: 0, t: $t, s: &[$($s),*], v: &[] } };
    ($t:expr, [$($s:expr),*], [$($v:expr),*]) => { Case { tier: 0, t: $t, s: &[$($s),*], v: &[$($v),*] } };
}
macro_rules! deep {
    ($t:expr) => { Case { tier: 1, t: $t, s: &[], v: &[] } };
    ($t:expr, [$($s:expr),*]) => { Case { tier: 1, t: $t, s: &[$($s),*], v: &[] } };
    ($t:expr, [$($s:expr),*], [$($v:expr),*]) => { Case { tier: 1, t: $t, s: &[$($s),*], v: &[$($v),*] } };
}

pub(crate) use {case, deep};

/// A family of sources.
pub struct Case {
    /// Left out below this depth (0: quick).
    pub tier: u32,
    pub t: &'static str,
    pub s: &'static [&'static Set],
    pub v: &'static [&'static [&'static str]],
}
/// `f` holds of an arbitrary source of an arbitrary family (parameter 0: the depth; parameter 1:
/// only that family, counted from 1).
pub fn over<F: FnOnce(&Src)>(cases: &'static [Case], f: F) {
    over_all(&[cases], f)
}
pub fn over_all<F: FnOnce(&Src)>(lists: &[&'static [Case]], f: F) {
    let tier = param(0);
    let only = param(1);
    if param(9) == 1 {
        for cases in lists {
            list(cases, tier);
        }
        return;
    }
    let mut n = 0;
    for cases in lists {
        n += cases.len() as u32;
    }
    let k = if only >= 1 && only <= n { only - 1 } else { choice(n) };
    declare(n);
    let mut i = k as usize;
    let mut l = 0;
    while i >= lists[l].len() {
        i -= lists[l].len();
        l += 1;
    }
    let c = &lists[l][i];
    if c.tier > tier {
        cover(k);
    }
    assume(c.tier <= tier);
    let src = Src::new(c.t, c.s, c.v);
    f(&src);
    cover(k);
}

pub fn list_script(s: &str) {
    note(&format!("family {:?}, with an arbitrary ASCII character inserted or put in the place of one anywhere, one character removed, or the end cut off", s));
}
/// Describes the families (for the evidence).
fn list(cases: &[Case], tier: u32) {
    for c in cases {
        if c.tier <= tier {
            let mut s = format!("family {:?}", c.t);
            for (i, x) in c.s.iter().enumerate() {
                let mut n = 0;
                for &(a, b) in x.iter() {
                    n += b - a + 1;
                }
                s.push_str(&format!(" {}: any of {} characters", std::char::from_u32('①' as u32 + i as u32).unwrap(), n));
            }
            for (i, x) in c.v.iter().enumerate() {
                s.push_str(&format!(" {}: {:?}", std::char::from_u32('Ⓐ' as u32 + i as u32).unwrap(), x));
            }
            note(&s);
        }
    }
}

#[no_mangle]
pub extern "C" fn h_test() {
    let t = ["", "①", "①①", "①①①", "①①①①", "①①①①①"][param(0) as usize];
    agree(&Src::new(t, &[ASCII], &[]), POSITIONS);
    cover(1);
}
