//! The lexer and its tokens.
use crate::big;
use crate::run::{case, deep, over, over_all, Case};
use crate::rt::*;
use crate::sets::*;
use crate::src::*;
use crate::tok::*;
use crate::tr::{self, Boom};
use conch_parser::ast::Parameter;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, SourcePos};
use conch_parser::token::{Positional, Token};
use std::fmt::Write;

const OPS: &[&str] = &["<", "-", ">", "&", "|", ";", "\\", "$", "a", "1", " ", "\n", "_", "#"];
static SOURCES: &[Case] = &[
    case!("①②③", [ASCII, ASCII, ASCII]),
    case!("ⒶⒶⒶⒶⒶ", [], [OPS]),
    case!("a①b②", [ASCII, ASCII]),
    case!("1①2②", [ASCII, ASCII]),
    case!(" ①\t②", [ASCII, ASCII]),
    case!("\\①②\\③", [ASCII, ASCII, ASCII]),
    case!("①②", [UNI, UNI]),
    case!("a①②b", [UNI, ASCII]),
    case!("1①②_", [UNI, ASCII]),
    case!("\\①②\\", [UNI, UNI]),
    case!(" ①②\t", [UNI, ASCII]),
    case!("$①②", [UNI, ASCII]),
    case!("a①1", [UNI2]),
    case!("1①", [UNI2]),
    case!("Ⓐ①Ⓐ②", [ASCII, ASCII], [&[
        "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "0123456789.abcdefghijklmnopqrstuvwxyz,", "                  \t                ",
        "\\\\\\\\\\\\\\\\", "<<<<<<<<-", ">>>>>>>>", ";;;;;;;", "&&&&&&&&&", "|||||||||", "$1$2$3$4$5$6$7$8$9$0$$$", "éèüß中文字",
    ]]),
    deep!("①②③④", [ASCII, ASCII, ASCII, ASCII]),
    deep!("ⒶⒶⒶⒶⒶⒶ", [], [OPS]),
    deep!("a①②③", [ASCII, ASCII, ASCII]),
    deep!("①②③", [UNI, UNI, UNI]),
    deep!("①a", [UNI3]),
    deep!("\\①a", [UNI2]),
    deep!(" ①", [UNI3]),
];

/// C01: the tokens spell the source.
#[no_mangle]
pub extern "C" fn h_lossless() {
    over_all(&[SOURCES, big::TOKENS, big::huge::TOKENS], |src| {
        let (mut a, mut b) = (Vec::new(), Vec::new());
        let mut empty = false;
        for t in Lexer::new(src.iter()) {
            let n = a.len();
            tok_text(&t, &mut a);
            b.extend_from_slice(t.as_str().as_bytes());
            empty |= a.len() == n;
        }
        let mut want = String::new();
        for c in src.all() {
            want.push(c);
        }
        observe(&a);
        check(a == want.as_bytes() && a == b && !empty, 1, || {
            format!("source {:?}: the tokens spell {:?} and {:?}", want, String::from_utf8_lossy(&a), String::from_utf8_lossy(&b))
        });
    });
}

/// C02: the tokens are those of the language.
#[no_mangle]
pub extern "C" fn h_tokens() {
    over_all(&[SOURCES, big::TOKENS, big::huge::TOKENS], |src| {
        let mut l = Lex::new(src);
        let mut o = Vec::new();
        for t in Lexer::new(src.iter()) {
            let w = l.next();
            tr::tok(&mut o, &t);
            let ok = match &w {
                Some(w) => to_token(w) == t,
                None => false,
            };
            check(ok, 1, || format!("source {:?}: {:?} instead of {:?}", src.text(), t, w));
        }
        observe(&o);
        let w = l.next();
        check(w.is_none(), 2, || format!("source {:?}: the tokens end before {:?}", src.text(), w));
    });
}

/// C03: hints, clones, look-ahead, the end.
#[no_mangle]
pub extern "C" fn h_lexiter() {
    over(SOURCES, |src| {
        // look-ahead: at most the following token, and the character which ends it
        let mut l = Lexer::new(src.iter());
        let mut r = Lex::new(src);
        let mut ends = Vec::new();
        let mut asked = Vec::new();
        let mut kinds = Vec::new();
        while let Some(t) = l.next() {
            kinds.push(kind_of(&t));
            asked.push(src.asked());
        }
        while r.next().is_some() {
            ends.push(r.at());
        }
        for i in 0..kinds.len() {
            let n = if i + 1 < ends.len() { ends[i + 1] + 1 } else { src.asked() };
            check(asked[i] <= n, 1, || format!("source {:?}: {} characters requested for {} tokens", src.text(), asked[i], i + 1));
            if kinds[i] == K::Newline && (i == 0 || kinds[i - 1] != K::Backslash) {
                check(i < ends.len() && asked[i] == ends[i], 6, || format!("source {:?}: {} characters requested for {} tokens", src.text(), asked[i], i + 1));
            }
        }
        for _ in 0..3 {
            check(l.next().is_none(), 2, || format!("source {:?}: a token after the end", src.text()));
        }
        // every moment
        let v = src.all();
        let mut l = Lexer::new(v.into_iter());
        let all: Vec<Token> = l.clone().collect();
        let mut i = 0;
        observe(&[all.len() as u8]);
        loop {
            let (lo, hi) = l.size_hint();
            let left = all.len() - i;
            check(lo <= left && hi.map_or(true, |h| left <= h), 3, || format!("source {:?}: hint {:?} when {} tokens are left", src.text(), (lo, hi), left));
            let mut c = l.clone();
            let mut same = true;
            for t in &all[i..] {
                same &= c.next().as_ref() == Some(t);
            }
            check(same && c.next().is_none(), 4, || format!("source {:?}: a clone after {} tokens differs", src.text(), i));
            if l.next().is_none() {
                break;
            }
            i += 1;
        }
        check(i == all.len(), 5, || format!("source {:?}: {} tokens instead of {}", src.text(), i, all.len()));
        // whatever the source itself promises
        for style in 0..4 {
            let mut l = Lexer::new(Uneven { v: src.all(), i: 0, pause: NEVER, style });
            for left in (0..=all.len()).rev() {
                let (lo, hi) = l.size_hint();
                check(lo <= left && hi.map_or(true, |h| left <= h), 3, || format!("source {:?}, hints of style {}: hint {:?} when {} tokens are left", src.text(), style, (lo, hi), left));
                l.next();
            }
        }
        // a source which goes on after its end
        let v = src.all();
        for pause in 0..v.len() {
            let mut l = Lexer::new(Uneven { v: v.clone(), i: 0, pause, style: 0 });
            let mut n = 0;
            while let Some(t) = l.next() {
                n += t.as_str().len();
            }
            let mut want = 0;
            for c in &v[..pause] {
                want += c.len_utf8();
            }
            check(n == want, 7, || format!("source {:?}, a pause after {} characters: tokens of {} bytes", src.text(), pause, n));
            for _ in 0..3 {
                check(l.next().is_none(), 8, || format!("source {:?}, a pause after {} characters: a token after the end", src.text(), pause));
            }
        }
    });
}

const NEVER: usize = !0;
/// A source with hints of some style, which claims to be at an end once.
struct Uneven {
    v: Vec<char>,
    i: usize,
    pause: usize,
    style: u32,
}
impl Iterator for Uneven {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.i == self.pause {
            self.pause = NEVER;
            return None;
        }
        let c = self.v.get(self.i).copied();
        self.i += 1;
        c
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len().saturating_sub(self.i);
        match self.style {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n.min(1), None),
            _ => (n / 2, Some(n + 3)),
        }
    }
}

const KINDS: [K; 44] = {
    use K::*;
    [
        Newline, ParenOpen, ParenClose, CurlyOpen, CurlyClose, SquareOpen, SquareClose, Bang, Tilde, Pound, Star, Question, Backslash,
        Percent, Dash, Equals, Plus, Colon, At, Caret, Slash, Comma, SingleQuote, DoubleQuote, Backtick, Semi, Amp, Pipe, AndIf, OrIf,
        DSemi, Less, Great, DLess, DGreat, GreatAnd, LessAnd, DLessDash, Clobber, LessGreat, Dollar, Ws, Literal, Name,
    ]
};
const TEXT: &Set = &[(9, 9), (11, 127), (NONE, NONE)];
/// An arbitrary token (payloads up to three characters, none a newline).
fn any_token() -> T {
    let k = choice(45);
    if k == 44 {
        let d = choice(10);
        let mut s = String::from("$");
        s.push((b'0' + d as u8) as char);
        return T { k: K::Positional, s, pos: start_pos() };
    }
    let k = KINDS[k as usize];
    let mut s = String::new();
    match k {
        K::Ws | K::Literal | K::Name => {
            let src = Src::new("①②③", if choice(2) == 0 { &[TEXT, TEXT, TEXT] } else { &[UNI, TEXT, UNI] }, &[]);
            for c in src.all() {
                s.push(c);
            }
        }
        k => s.push_str(text_of(k)),
    }
    T { k, s, pos: start_pos() }
}

/// C23, tokens and positions.
#[no_mangle]
pub extern "C" fn h_token() {
    declare(2);
    let w = any_token();
    let t = to_token(&w);
    let text = &w.s[..];
    let mut shown = String::new();
    let _ = write!(shown, "{}", t);
    observe(shown.as_bytes());
    check(t.as_str() == text && shown == text, 1, || format!("{:?} is {:?}, prints {:?}", t, t.as_str(), shown));
    check(t.len() == text.len() && t.is_empty() == text.is_empty(), 2, || format!("{:?}: length {}", t, t.len()));
    check(t.is_word_delimiter() == delimits(w.k), 3, || format!("{:?}: delimits a word: {}", t, t.is_word_delimiter()));
    check(t.clone() == t, 4, || format!("{:?} is not equal to its clone", t));
    let (b, l, c) = (any_u32(0, 1 << 30) as usize, any_u32(1, 1 << 30) as usize, any_u32(1, 1 << 30) as usize);
    let mut p = SourcePos { byte: b, line: l, col: c };
    p.advance(&t);
    let want = if w.k == K::Newline {
        SourcePos { byte: b + 1, line: l + 1, col: 1 }
    } else {
        SourcePos { byte: b + text.len(), line: l, col: c + text.len() }
    };
    check(p == want, 5, || format!("{:?} advances {}:{}:{} to {:?}", t, b, l, c, p));
    let n = SourcePos::new();
    check(n == SourcePos { byte: 0, line: 1, col: 1 } && n == SourcePos::default(), 6, || format!("parsing starts at {:?}", n));
    cover(0);
    let n = any_u32(0, 255) as u8;
    let k = Positional::from_num(n);
    let ok = match k {
        None => n > 9,
        Some(k) => n <= 9 && k.as_num() == n && pnum(k) == n && Into::<u8>::into(k) == n,
    };
    check(ok, 7, || format!("{} converts to {:?}", n, k));
    cover(1);
}

fn has(s: &str, part: &str) -> bool {
    find(s, part).is_some()
}

fn find(s: &str, part: &str) -> Option<usize> {
    let (s, p) = (s.as_bytes(), part.as_bytes());
    let mut i = 0;
    while i + p.len() <= s.len() {
        if &s[i..i + p.len()] == p {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// The places `line:column` a message names, in order.
fn places(s: &str) -> Vec<(usize, usize)> {
    let b = s.as_bytes();
    let num = |mut i: usize| {
        let (from, mut n) = (i, 0usize);
        while i < b.len() && b[i] >= b'0' && b[i] <= b'9' && i - from < 9 {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        (i, n)
    };
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let (j, line) = num(i);
        if j == i {
            i += 1;
            continue;
        }
        i = j;
        if i < b.len() && b[i] == b':' {
            let (j, col) = num(i + 1);
            if j > i + 1 {
                out.push((line, col));
                i = j;
            }
        }
    }
    out
}

fn some_pos() -> SourcePos {
    const N: [usize; 5] = [1, 9, 10, 123, 65536];
    let (line, col) = (N[choice(5) as usize], N[choice(5) as usize]);
    SourcePos { byte: line * 7 + col, line, col }
}

/// C23, errors.
#[no_mangle]
pub extern "C" fn h_errors() {
    declare(8);
    let k = choice(8);
    let p = if k < 6 { some_pos() } else { start_pos() };
    let at = |p: SourcePos| format!("{}:{}", p.line, p.col);
    let mut parts: Vec<String> = vec![at(p)];
    let mut named = vec![(p.line, p.col)];
    let mut shown = String::new();
    let tok = || {
        let w = any_token();
        // a newline is spelt out
        (to_token(&w), w)
    };
    let e: ParseError<Show> = match k {
        0 => {
            let q = some_pos();
            parts.push(at(q));
            named.push((q.line, q.col));
            ParseError::BadFd(p, q)
        }
        1 => {
            let s = Src::new("①②", &[LETTER, TEXT], &[]).text_all();
            parts.push(s.clone());
            ParseError::BadIdent(s, p)
        }
        2 => {
            let (t, w) = tok();
            parts.push(w.s);
            ParseError::BadSubst(t, p)
        }
        3 => {
            let (t, w) = tok();
            parts.push(w.s);
            ParseError::Unmatched(t, p)
        }
        4 => {
            let q = some_pos();
            parts.push(at(q));
            named.push((q.line, q.col));
            const C: [&str; 6] = ["if", "while", "for", "case", "do", "until"];
            const W: [&str; 6] = ["fi", "do", "in", "esac", "done", "then"];
            let (a, b) = (C[choice(6) as usize], W[choice(6) as usize]);
            parts.push(a.to_owned());
            parts.push(b.to_owned());
            ParseError::IncompleteCmd(a, p, b, q)
        }
        5 => {
            let (t, w) = tok();
            parts.push(if w.k == K::Newline { "\\n".to_owned() } else { w.s });
            ParseError::Unexpected(t, p)
        }
        6 => {
            parts = vec!["end of input".to_owned()];
            ParseError::UnexpectedEOF
        }
        _ => {
            parts = vec!["boom 7".to_owned()];
            ParseError::from(Show)
        }
    };
    let _ = write!(shown, "{}", e);
    observe(shown.as_bytes());
    // only an error of the builder has a cause: that very error
    let because = std::error::Error::cause(&e).map(|c| c.to_string());
    check(because == if k == 7 { Some("boom 7".to_owned()) } else { None }, 3, || format!("{:?} is caused by {:?}", e, because));
    let new = SourcePos::new();
    check(new == SourcePos::default() && (new.byte, new.line, new.col) == (0, 1, 1), 4, || format!("positions start at {:?}", new));
    for x in &parts {
        check(has(&shown, x), 1, || format!("{:?} prints {:?}, without {:?}", e, shown, x));
    }
    let mut told = places(&shown);
    let ok = match k {
        // between the first place and the second
        0 => told == named,
        // each place comes in the order of the words it belongs to
        4 => {
            if let ParseError::IncompleteCmd(a, _, b, _) = e {
                if a != b && find(&shown, &format!("`{}`", b)) < find(&shown, &format!("`{}`", a)) {
                    named.reverse();
                    told == named
                } else {
                    told.sort();
                    named.sort();
                    told == named
                }
            } else {
                false
            }
        }
        1 | 2 | 3 | 5 => told.contains(&named[0]),
        _ => true,
    };
    check(ok, 2, || format!("{:?} prints {:?}, which does not name the places {:?}", e, shown, named));
    cover(k);
}
#[derive(Debug)]
struct Show;
impl std::fmt::Display for Show {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("boom 7")
    }
}
impl std::error::Error for Show {}

/// C24: a parameter printed and read back.
#[no_mangle]
pub extern "C" fn h_paramfmt() {
    declare(10);
    let k = choice(10);
    let p: Parameter<String> = match k {
        0 => Parameter::At,
        1 => Parameter::Star,
        2 => Parameter::Pound,
        3 => Parameter::Question,
        4 => Parameter::Dash,
        5 => Parameter::Dollar,
        6 => Parameter::Bang,
        7 => Parameter::Positional(choice(112)),
        8 => {
            const N: [u32; 24] = [
                0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535, 65536, 99999, 100000, 999999, 1000000, 9999999, 10000000, 99999999, 100000000,
                999999999, 1000000000, 2147483648, 4294967294, 4294967295,
            ];
            Parameter::Positional(N[choice(24) as usize])
        }
        _ => {
            let s = match choice(3) {
                0 => Src::new("①②③④", &[LETTER, ALNUM0, ALNUM0, ALNUM0], &[]),
                1 => Src::new("①é②", &[LETTER, ALNUM], &[]),
                _ => Src::new("Ⓐ", &[], &[&["PATH", "_", "__", "é", "if", "while", "x0123456789", "aVeryLongVariableNameOfMoreThanThirtyTwoCharacters_0", "λx", "xλ", "Ж_1", "ß", "ǅ", "ʰ", "שלום", "مرحبا", "हa", "あ", "日本", "中1", "한글", "ｆ", "𝐀", "𠀀b", "é1é"]]),
            };
            Parameter::Var(s.text_all())
        }
    };
    let mut shown = String::new();
    let _ = write!(shown, "{}", p);
    const BEFORE: [&str; 5] = ["", "a", "9", "é", "-"];
    const AFTER: [&str; 16] = ["", "a", "0", "1", "}", "{", "-", "=", "#", "_", "é", "@", "%", "+", "/", "^"];
    let (pre, post) = (BEFORE[choice(5) as usize], AFTER[choice(16) as usize]);
    let quoted = choice(2) == 1;
    let mut s = String::new();
    let mut want: Vec<u8> = b"w(".to_vec();
    if quoted {
        s.push('"');
        tr::w(&mut want, "\"(");
    }
    s.push_str(pre);
    s.push_str(&shown);
    s.push_str(post);
    if quoted {
        s.push('"');
    }
    let text = |o: &mut Vec<u8>, s: &str| {
        if !s.is_empty() {
            tr::w(o, "L");
            tr::lit(o, s);
        }
    };
    text(&mut want, pre);
    tr::w(&mut want, "$");
    tr::param(&mut want, &p);
    text(&mut want, post);
    if quoted {
        tr::w(&mut want, ")");
    }
    tr::w(&mut want, ")");
    let mut parser = conch_parser::parse::Parser::with_builder(Lexer::new(s.chars()), tr::Tr::new());
    let got = parser.word();
    let rest = parser.complete_command();
    let ok = match (&got, &rest) {
        (Ok(Some(w)), Ok(None)) => *w == want,
        _ => false,
    };
    observe(s.as_bytes());
    check(ok, 1, || format!("{:?} prints {:?}; {:?} reads as {:?}", p, shown, s, got.map(|o| o.map(|w| crate::run::show(&w)))));
    let _: Option<Boom> = None;
    cover(k);
}
