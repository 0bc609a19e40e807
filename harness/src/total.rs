//! Parsing ends, without a panic, whatever is parsed.
use crate::ops::*;
use crate::gen::derived;
use crate::rt::*;
use crate::big::over_huge;
use crate::run::*;
use crate::scripts::*;
use crate::sets::*;
use crate::src::*;
use crate::tr::Tr;
use conch_parser::lexer::Lexer;
use conch_parser::parse::Parser;
use conch_parser::token::{Positional, Token};
use std::cell::RefCell;
use std::rc::Rc;

/// Calls the parser again and again, also after errors; it must get to the end.
fn drain<I: Iterator<Item = Token>>(p: &mut Parser<I, Tr>, most: usize, what: &dyn Fn() -> String) {
    let mut calls = 0;
    let mut told = 0;
    loop {
        match p.complete_command() {
            Ok(None) => break,
            Ok(Some(c)) => told += c.len(),
            Err(_) => told += 1,
        }
        calls += 1;
        check(calls <= most, 1, || format!("{}: no end after {} calls", what(), calls));
    }
    // and then it stays there
    for _ in 0..2 {
        let end = match p.complete_command() {
            Ok(None) => true,
            _ => false,
        };
        check(end, 2, || format!("{}: there is something after the end", what()));
    }
    observe(&[calls as u8, told as u8, p.pos().byte as u8]);
}

const PIECES: &[&str] = &[
    "a", " ", "\n", ";", "&", "|", "(", ")", "{", "}", "<", ">", "<<", "$", "`", "\"", "'", "\\", "#", "!", "$(", "${", "$((", "))", "if ", "then ", "fi ", "for ", "in ", "do ",
    "done ", "case ", "esac ", ";;", "function ", "x=", "1", "-", ":", "%", "*", "?", "~", "[", "<<-", "<<E\n", "E\n", "=", "+", "é", ",", "^", "@", "&&", "||", ">&", "<&", ">|", "<>", "$1", "while ", "else ",
];
static SOUP: &[Case] = &[
    case!("ⒶⒶⒶ", [], [PIECES]),
    case!("①②③", [ASCII, ASCII0, ASCII0]),
    case!("Ⓐ①②", [ASCII, ASCII0], [PIECES]),
    case!("$Ⓐ①②", [ASCII, ASCII0], [&["(", "((", "{", "{x", "{#", "{x%", "{x:"]]),
    case!("a <<Ⓐ①②", [ASCII, ASCII0], [&["E\n", "E ", "-E\n\t", "'", "\"", "`", "\\", "$(", "(", ""]]),
    case!("Ⓐ①②", [ASCII, ASCII0], [&["\"", "`", "'", "`\\", "\"`", "\"$(", "`\"", "\"${", "${x-`", "$(\"`"]]),
    case!("①②", [UNI, UNI]),
    case!("a①=②", [UNI, UNI]),
    deep!("ⒶⒶⒶⒶ", [], [PIECES]),
    deep!("①②③④", [ASCII, ASCII, ASCII0, ASCII0]),
    deep!("ⒶⒶ①②", [ASCII, ASCII0], [PIECES]),
];
#[no_mangle]
pub extern "C" fn h_total() {
    over_huge(SOUP, |src| {
        drain(&mut parser(src), 400, &|| format!("source {:?}", src.text()));
    });
}
#[no_mangle]
pub extern "C" fn h_total_scripts() {
    let src = mutated(SCRIPTS);
    drain(&mut parser(&src), 300, &|| format!("source {:?}", src.text()));
}

// ---------------------------------------------------------------- arbitrary tokens
fn any_token(k: u32) -> Token {
    let s = |s: &str| s.to_owned();
    match k {
        0 => Token::Newline, 1 => Token::ParenOpen, 2 => Token::ParenClose, 3 => Token::CurlyOpen, 4 => Token::CurlyClose,
        5 => Token::SquareOpen, 6 => Token::SquareClose, 7 => Token::Bang, 8 => Token::Tilde, 9 => Token::Pound, 10 => Token::Star,
        11 => Token::Question, 12 => Token::Backslash, 13 => Token::Percent, 14 => Token::Dash, 15 => Token::Equals, 16 => Token::Plus,
        17 => Token::Colon, 18 => Token::At, 19 => Token::Caret, 20 => Token::Slash, 21 => Token::Comma, 22 => Token::SingleQuote,
        23 => Token::DoubleQuote, 24 => Token::Backtick, 25 => Token::Semi, 26 => Token::Amp, 27 => Token::Pipe, 28 => Token::AndIf,
        29 => Token::OrIf, 30 => Token::DSemi, 31 => Token::Less, 32 => Token::Great, 33 => Token::DLess, 34 => Token::DGreat,
        35 => Token::GreatAnd, 36 => Token::LessAnd, 37 => Token::DLessDash, 38 => Token::Clobber, 39 => Token::LessGreat,
        40 => Token::Dollar, 41 => Token::ParamPositional(Positional::Zero), 42 => Token::ParamPositional(Positional::Nine),
        43 => Token::Whitespace(s("")), 44 => Token::Whitespace(s(" ")), 45 => Token::Whitespace(s("\t\t")), 46 => Token::Whitespace(s("\n")),
        47 => Token::Whitespace(s("a")), 48 => Token::Literal(s("")), 49 => Token::Literal(s("1")), 50 => Token::Literal(s("99999999999999999999")),
        51 => Token::Literal(s("\n")), 52 => Token::Literal(s("é\u{1F600}")), 53 => Token::Literal(s("if")), 54 => Token::Literal(s("a b\nE\n")), 55 => Token::Literal(s("0x")),
        56 => Token::Literal(s("E\r")), 57 => Token::Name(s("")), 58 => Token::Name(s("E")), 59 => Token::Name(s("1")), 60 => Token::Name(s("if")), 61 => Token::Name(s("then")),
        62 => Token::Name(s("fi")), 63 => Token::Name(s("for")), 64 => Token::Name(s("in")), 65 => Token::Name(s("do")), 66 => Token::Name(s("done")),
        67 => Token::Name(s("case")), 68 => Token::Name(s("esac")), 69 => Token::Name(s("function")), 70 => Token::Name(s("a\nb")), 71 => Token::Name(s("while")),
        _ => Token::Name(s("else")),
    }
}
const TOKENS: u32 = 73;
struct Toks(Rc<RefCell<Vec<Token>>>, std::vec::IntoIter<Token>, u32, std::vec::IntoIter<Token>);
impl Iterator for Toks {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        let t = match self.1.next() {
            Some(t) => t,
            None if self.2 == 0 => match self.3.next() {
                Some(t) => t,
                None => return None,
            },
            None => {
                self.2 -= 1;
                any_token(choice(TOKENS))
            }
        };
        self.0.borrow_mut().push(t.clone());
        Some(t)
    }
}
fn lexed(s: &str) -> std::vec::IntoIter<Token> {
    Lexer::new(s.chars()).collect::<Vec<_>>().into_iter()
}
const CONTEXTS: &[(&str, &str)] = &[
    ("", ""), ("${x", "} a"), ("${", "}"), ("${x-", "}"), ("${#", "}"), ("a <<E\n", "\nE\n"), ("a <<", "\nE\n"), ("a <<-E\n", "E\n"), ("a <<'E'\n", ""), ("case a in", " esac"), ("case a in b) c", " esac"), ("case ", " in esac"),
    ("$((", "))"), ("$((x", "))"), ("`", "`"), ("`\\", "`"), ("\"", "\""), ("\"\\", "\""), ("\"$", "\""), ("f (", ") { a; }"), ("f() ", ""), ("function ", " { a; }"), ("function f ", ""), ("for x", " do a; done"), ("for ", " in a; do b; done"), ("for x in ", "; do a; done"),
    ("if ", "; then a; fi"), ("if a; then b; ", " fi"), ("{ ", "; }"), ("(", ")"), ("$(", ")"), ("a |", ""), ("! ", ""), ("a >", ""), ("a >&", " b"), ("a 1", "1"), ("x=", " a"), ("{ a; } ", " >f"), ("while a; do ", " done"), ("a #", "\nb"), ("'", "'"), ("a && ", " b"), ("\\", "a"), ("$", "a"), ("$$", ""),
];
/// Sequences of tokens which no lexer would produce, too.
#[no_mangle]
pub extern "C" fn h_total_tokens() {
    if param(9) == 1 {
        note(&format!("family: any three tokens (thorough: four) of {} kinds (payloads empty, odd or with newlines among them); any two tokens (thorough: three) within each of {:?}", TOKENS, CONTEXTS));
        return;
    }
    let n = CONTEXTS.len() as u32;
    declare(n);
    let only = param(1);
    let c = if only >= 1 && only <= n { only - 1 } else { choice(n) };
    let deep = if param(0) > 0 { 1 } else { 0 };
    let said = Rc::new(RefCell::new(Vec::new()));
    let (pre, post) = CONTEXTS[c as usize];
    let it = Toks(said.clone(), lexed(pre), if c == 0 { 3 + deep } else { 2 + deep }, lexed(post));
    drain(&mut Parser::with_builder(it, Tr::new()), 64, &|| format!("tokens {:?}", said.borrow()));
    cover(c);
}
/// Every operation, again and again, on anything.
#[no_mangle]
pub extern "C" fn h_total_ops() {
    if param(9) == 1 {
        note(&format!("family: every public operation three times over, and then commands to the end, on any three of {:?}, and on any two tokens of any kind", PIECES));
        return;
    }
    declare(OPS);
    let k = choice(OPS);
    let deep = if param(0) > 0 { 1 } else { 0 };
    if choice(2) == 0 {
        let src = Src::new(if deep > 0 { "ⒶⒶⒶ" } else { "ⒶⒶ" }, &[], &[PIECES]);
        let mut p = parser(&src);
        for _ in 0..3 {
            let _ = real_op(&mut p, k);
        }
        drain(&mut p, 64, &|| format!("source {:?}, operation {}", src.text(), k));
    } else {
        let said = Rc::new(RefCell::new(Vec::new()));
        let it = Toks(said.clone(), lexed(""), 2, lexed(if choice(2) == 0 { "" } else { " a" }));
        let mut p = Parser::with_builder(it, Tr::new());
        for _ in 0..3 {
            let _ = real_op(&mut p, k);
        }
        drain(&mut p, 64, &|| format!("tokens {:?}, operation {}", said.borrow(), k));
    }
    cover(k);
}
derived!(h_total_in, ANYTHING, |src| {
    drain(&mut parser(src), 300, &|| format!("source {:?}", src.text()));
});

/// A source of tokens which says it has ended, and then has more to say.
struct Again {
    toks: Vec<Token>,
    i: usize,
    ended: bool,
}
impl Iterator for Again {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        const MORE: usize = 6;
        if self.i < self.toks.len() {
            self.i += 1;
            return Some(self.toks[self.i - 1].clone());
        }
        if !self.ended {
            self.ended = true;
            // what there is after the end
            let (b, w) = (|| Token::Name("b".to_owned()), || Token::Whitespace(" ".to_owned()));
            self.toks = match choice(MORE as u32) {
                0 => vec![b()],
                1 => vec![Token::Newline, b()],
                2 => vec![w(), b()],
                3 => vec![Token::SingleQuote, b()],
                4 => vec![Token::ParenClose],
                _ => vec![w(), Token::Name("done".to_owned()), Token::Semi, b()],
            };
            self.i = 0;
            return None;
        }
        None
    }
}
fn to_end<I: Iterator<Item = Token>>(toks: I, ask: bool) -> Vec<Vec<u8>> {
    let mut p = Parser::with_builder(toks, Tr::new());
    let mut out = Vec::new();
    let mut ends = 0;
    while ends < 2 && out.len() < 60 {
        if ask {
            p.peek_reserved_word(&["z"]);
            p.peek_reserved_token(&[Token::Bang]);
        }
        let mut o = match p.complete_command() {
            Ok(None) => {
                ends += 1;
                b"end".to_vec()
            }
            Ok(Some(c)) => c,
            Err(e) => format!("{:?}", e).into_bytes(),
        };
        let at = p.pos();
        o.extend_from_slice(&[at.byte as u8, at.line as u8, at.col as u8]);
        out.push(o);
    }
    out
}
/// C25: an end is an end, whatever the source of the tokens says when asked again.
#[no_mangle]
pub extern "C" fn h_ended() {
    if param(9) == 1 {
        note("family: every prefix of every script (the end of which is followed by six kinds of further tokens)");
        return;
    }
    declare(2);
    let s = SCRIPTS[choice(SCRIPTS.len() as u32) as usize];
    let i = choice(s.len() as u32 + 1) as usize;
    assume(s.is_char_boundary(i));
    let toks: Vec<Token> = Lexer::new(s[..i].chars()).collect();
    let ask = choice(2) == 1;
    let plain = to_end(toks.clone().into_iter(), false);
    let got = to_end(Again { toks, i: 0, ended: false }, ask);
    let show = |v: &Vec<Vec<u8>>| v.iter().map(|o| show(o)).collect::<Vec<_>>();
    check(got == plain, 1, || format!("{:?} from a source which goes on after its end, is {:?}, it should be {:?}", &s[..i], show(&got), show(&plain)));
    observe(&[got.len() as u8]);
    cover(ask as u32);
}
