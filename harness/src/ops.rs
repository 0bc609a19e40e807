//! Every public operation of the parser, next to the reference's.
use crate::gen::{derive_text, over_gen, root, Root};
use crate::rt::*;
use crate::run::*;
use crate::scripts::*;
use crate::sets::*;
use crate::spec::{self, Delims, P};
use crate::src::*;
use crate::tok::*;
use crate::tr::{self, w, Boom, Tr, B};
use conch_parser::ast::builder::*;
use conch_parser::ast::builder::ComplexWordKind::Single;
use conch_parser::ast::builder::WordKind::Simple;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{CommandGroupDelimiters, ParseError, Parser};
use conch_parser::token::Token;

type E = ParseError<Boom>;
type R<X> = Result<X, E>;

pub const OPS: u32 = 36;
const WORDS: &[&str] = &["if", "then", "do", "done", "}", "a", "function", "in"];
const DONE: &[&str] = &["done", "fi", "x"];
fn tokens() -> Vec<Token> {
    vec![Token::CurlyOpen, Token::CurlyClose, Token::Bang, Token::Dash, Token::Semi, Token::Name("a".to_owned())]
}

fn word(w: Option<B>) -> B {
    match w {
        Some(w) => w,
        None => b"none".to_vec(),
    }
}
fn grp(g: CommandGroup<B>) -> B {
    let mut o = Vec::new();
    tr::group(&mut o, &g);
    o
}
fn redir(r: Option<Result<B, B>>) -> B {
    match r {
        None => b"none".to_vec(),
        Some(Ok(r)) => r,
        Some(Err(r)) => {
            let mut o = b"word ".to_vec();
            o.extend_from_slice(&r);
            o
        }
    }
}
fn list(v: Vec<B>) -> B {
    let mut o = b"list".to_vec();
    for x in v {
        o.extend_from_slice(&x);
        w(&mut o, ",");
    }
    o
}
fn nls(v: Vec<Newline>) -> B {
    let mut o = Vec::new();
    tr::nls(&mut o, &v);
    o
}
fn built(r: Result<B, Boom>) -> B {
    match r {
        Ok(x) => x,
        Err(_) => die(9),
    }
}
fn arith(a: conch_parser::ast::DefaultArithmetic) -> B {
    let mut o = Vec::new();
    tr::arith(&mut o, &a);
    o
}
fn said(s: Option<&str>) -> B {
    match s {
        Some(s) => s.as_bytes().to_vec(),
        None => b"no".to_vec(),
    }
}
fn is_tok(t: Option<&Token>) -> B {
    let mut o = Vec::new();
    match t {
        Some(t) => tr::tok(&mut o, t),
        None => w(&mut o, "no"),
    }
    o
}

/// The parser does `k`.
pub fn real_op<I: Iterator<Item = Token>>(p: &mut Parser<I, Tr>, k: u32) -> R<B> {
    let group = |g| Ok(grp(g));
    let mut t = Tr::new();
    match k {
        0 => p.complete_command().map(word),
        1 => p.and_or_list(),
        2 => p.pipeline(),
        3 => p.command(),
        4 => p.simple_command(),
        5 => p.redirect_list().map(list),
        6 => p.redirect().map(redir),
        7 => p.redirect_heredoc(None),
        8 => p.redirect_heredoc(Some(3)),
        9 => p.word().map(word),
        10 => p.word_preserve_trailing_whitespace().map(word),
        11 => p.backticked_command_substitution(),
        12 => p.parameter(),
        13 => p.do_group().and_then(group),
        14 => p.brace_group().and_then(group),
        15 => p.subshell().and_then(group),
        16 => p.compound_command(),
        17 => p.loop_command().map(|(k, g)| built(t.loop_command(k, g, vec![]))),
        18 => p.if_command().map(|f| built(t.if_command(f, vec![]))),
        19 => p.for_command().map(|f| built(t.for_command(f, vec![]))),
        20 => p.case_command().map(|f| built(t.case_command(f, vec![]))),
        21 => p.maybe_function_declaration().map(word),
        22 => p.function_declaration(),
        23 => {
            p.skip_whitespace();
            Ok(Vec::new())
        }
        24 => Ok(nls(p.linebreak())),
        25 => {
            let mut o = Vec::new();
            tr::onl(&mut o, &p.newline());
            Ok(o)
        }
        26 => Ok(is_tok(p.peek_reserved_token(&tokens()))),
        27 => Ok(said(p.peek_reserved_word(WORDS))),
        28 => p.reserved_token(&tokens()).map(|t| is_tok(Some(&t))),
        29 => Ok(said(p.reserved_word(WORDS).ok())),
        30 => p.command_group(CommandGroupDelimiters { reserved_words: DONE, ..Default::default() }).and_then(group),
        31 => p.arithmetic_substitution().map(arith),
        32 => p.command_group(Default::default()).and_then(group),
        33 => p.command_group(CommandGroupDelimiters { reserved_tokens: &[Token::CurlyClose], ..Default::default() }).and_then(group),
        34 => p.command_group(CommandGroupDelimiters { exact_tokens: &[Token::ParenClose, Token::DSemi], ..Default::default() }).and_then(group),
        _ => p
            .command_group(CommandGroupDelimiters { reserved_words: DONE, reserved_tokens: &[Token::Dash, Token::CurlyClose], exact_tokens: &[Token::DSemi] })
            .and_then(group),
    }
}
/// The reference does `k`.
pub fn spec_op(p: &mut P, k: u32) -> R<B> {
    let mut t = Tr::new();
    macro_rules! starts {
        ($($w:expr),*) => {
            if p.reserved(&[$($w),*]).is_none() {
                return Err(p.unexpected());
            }
        };
    }
    fn some(p: &mut P, d: Delims<'_>) -> R<B> {
        let g = p.commands(d)?;
        if g.commands.is_empty() { Err(p.unexpected()) } else { Ok(grp(g)) }
    }
    let token = |p: &mut P| -> Option<Token> {
        for t in tokens() {
            p.blanks();
            if p.peek() == Some(kind_of(&t)) && p.t[p.i].s == t.as_str() && p.reserved_tok(kind_of(&t)) {
                return Some(t);
            }
        }
        None
    };
    match k {
        0 => p.complete_command().map(word),
        1 => p.and_or(),
        2 => p.pipeline(),
        3 => p.command(),
        4 => p.simple_command(),
        5 => p.redirect_list().map(list),
        6 => p.redirect().map(redir),
        7 => p.heredoc(None),
        8 => p.heredoc(Some(3)),
        9 => p.word().map(word),
        10 => {
            p.blanks();
            if p.is(K::Pound) {
                return Ok(word(None));
            }
            match p.word_here()? {
                Some(x) => Ok(p.b.word(x)?),
                None => Ok(word(None)),
            }
        }
        11 => {
            let x = p.backtick()?;
            Ok(p.b.word(Single(Simple(x)))?)
        }
        12 => {
            let x = p.dollar()?;
            Ok(p.b.word(Single(Simple(x)))?)
        }
        13 => p.do_group().map(grp),
        14 => p.brace().map(grp),
        15 => p.subshell(false).map(grp),
        16 => p.compound(),
        17 => {
            starts!("while", "until");
            let start = p.pos();
            let until = p.reserved(&["until"]).is_some();
            p.i += 1;
            let guard = p.some_commands(&["do"], &[])?;
            if p.reserved(&["do"]).is_none() {
                return Err(ParseError::IncompleteCmd(if until { "until" } else { "while" }, start, "do", p.pos()));
            }
            let body = p.do_group()?;
            Ok(built(t.loop_command(if until { LoopKind::Until } else { LoopKind::While }, GuardBodyPairGroup { guard, body }, vec![])))
        }
        18 => {
            starts!("if");
            p.if_().map(|f| built(t.if_command(f, vec![])))
        }
        19 => {
            starts!("for");
            p.for_().map(|f| built(t.for_command(f, vec![])))
        }
        20 => {
            starts!("case");
            p.case().map(|f| built(t.case_command(f, vec![])))
        }
        21 => {
            let mut f = p.reserved(&["function"]).is_some();
            if !f && p.is(K::Name) {
                let here = p.i;
                p.i += 1;
                if p.is(K::Ws) {
                    p.blanks();
                }
                f = p.is(K::ParenOpen);
                p.i = here;
            }
            if f { p.function() } else { Ok(word(None)) }
        }
        22 => p.function(),
        23 => {
            p.blanks();
            Ok(Vec::new())
        }
        24 => Ok(nls(p.linebreak())),
        25 => {
            let mut o = Vec::new();
            tr::onl(&mut o, &p.newline());
            Ok(o)
        }
        26 => Ok(is_tok(token(p).as_ref())),
        27 => Ok(said(p.reserved(WORDS))),
        28 => match token(p) {
            Some(t) => {
                p.i += 1;
                Ok(is_tok(Some(&t)))
            }
            None => {
                // the culprit is what comes after the token asked for, if that one is there
                if !p.eof() && tokens().iter().any(|t| p.peek() == Some(kind_of(t)) && p.t[p.i].s == t.as_str()) {
                    p.i += 1;
                }
                Err(p.unexpected())
            }
        },
        29 => Ok(said(p.eat_reserved(WORDS))),
        30 => some(p, Delims { exact: &[], words: DONE, token: &[] }),
        31 => p.arith().map(arith),
        32 => some(p, Delims { exact: &[], words: &[], token: &[] }),
        33 => some(p, Delims { exact: &[], words: &[], token: &[K::CurlyClose] }),
        34 => some(p, Delims { exact: &[K::ParenClose, K::DSemi], words: &[], token: &[] }),
        _ => some(p, Delims { exact: &[K::DSemi], words: DONE, token: &[K::Dash, K::CurlyClose] }),
    }
}
fn outcome(r: R<B>, flags: u32) -> (B, bool) {
    match r {
        Ok(x) => {
            let mut o = b"ok ".to_vec();
            o.extend_from_slice(&x);
            (o, true)
        }
        Err(e) => (tr::err(&e, flags), false),
    }
}
/// Both do `k` at the same place, and go on from there.
fn each(src: &Src, p: &mut Parser<Lexer<Chars>, Tr>, q: &mut P, k: u32) {
    // (a construct asked for at a blank may be said to start there)
    let i = q.i;
    q.blanks();
    let flags = if q.i > i { ERRORS } else { POSITIONS };
    q.i = i;
    let (mut a, go) = outcome(real_op(p, k), flags);
    let (mut b, _) = outcome(spec_op(q, k), flags);
    check(a == b, 1, || format!("source {:?}\n  operation {} says {}\n  it should say {}", src.text(), k, show(&a), show(&b)));
    if go {
        let (x, y) = (p.pos(), q.pos());
        check(x == y, 2, || format!("source {:?}\n  operation {} said {} and ended at {}, not at {}", src.text(), k, show(&a), x, y));
        a.append(&mut rest(p, POSITIONS));
        b.append(&mut spec_rest(q, POSITIONS));
        check(a == b, 3, || format!("source {:?}\n  operation {} and the rest: {}\n  it should be {}", src.text(), k, show(&a), show(&b)));
    }
    observe(&a);
}
fn both(src: &Src) -> (Parser<Lexer<Chars>, Tr>, P) {
    (parser(src), P::new(src, Tr::new()))
}

const AFTER: &[&str] = &["", " b", ";c", "\nd", ")", "}", "e", "'f'", " done", "\\\n g", " #h\ni", "|j", ">k", "`"];
const BEFORE: &[&str] = &["", " ", "\\\n\t", "x", "\n", "#"];
const F_CMD: &[&str] = &["a b", "! a|b", "a && b || c", "x=1", "x=1 y a=b", ">f a <g", "a;", "a &", "a\n", "{ a; }", "(a)", "(a) >f", "if a; then b; fi <g", "f() { a; }", "a <<E\nh\nE\n", "#c\n a", "\n\na|\nb", "! ! a", "a | ! b", "function f (a) >g", "for x do a; done 2>f", "case a in esac >&2", "while a; do b; done | c", "12 a", "=", "a|", "a &&", "fi", "then"];
const F_REDIR: &[&str] = &[">f", "2>f", "<f <g", ">>a 3>&1 <&-", ">|a<>b", "<<E\nh\nE\n", "4<<-E\n\th\n\tE\n", "a", ">f a", "12", ">&a", "<&1a", "70000>f", ">", "<<", "<<'E' >f\n$x\nE\n", ">$(a)", "2> \\\n f"];
const F_HERE: &[&str] = &["<<E\nh\nE\n", "<<-E\n\th\n\tE\n", "<<'E' b\n$x\nE\n", "<<E\n$x", "<< E\nE", ">f", "2<<E\nE\n", "<<E <<F\nE\nF\n", "<<\nE", "<<\"E F\" >g\n`x`\nE F\n"];
const F_WORD: &[&str] = &["a", "'a b'", "\"a $b\"", "a\\ b", "$a$1", "${a-b c}", "`a b`", "$(a;b)", "$((1+2))", "a'b'\"c\"d*?[~:", "#a", "a#b", "", "'a", "\"a", "\\", "é", "{a}", "a=b", "!a", "1", "-", "$", "$'a'", "\"\"", "a\\\nb", "$x/y", "%@+,^"];
const F_TICK: &[&str] = &["`a`", "``", "`a b;c`", "`a \\`b\\` c`", "`a", "a", "`a|`", "`#c`", "`a\n`", "`\"`\"", "`'\\`'`", "`$x \\$y \\\\`"];
const F_PARAM: &[&str] = &["$a", "$1", "$10", "$$1", "$@", "$*", "$#", "$?", "$-", "$$", "$!", "$", "$é", "${a}", "${a-b}", "${a:+$b}", "${#a}", "${a%%b}", "${a#b c}", "$(a)", "$(a;)", "$((a))", "$(( ))", "$'a'", "${", "${a", "a", "", "${!}", "${a!}", "$()", "$(a", "$ a", "$a'b'"];
const F_GROUP: &[&str] = &["do a; done", "do\na\ndone", "do a; b & done", "do done", "do; a; done", "do a", "doa; done", "do a done", "{ a; }", "{ a }", "{ }", "{a; }", "{ a; b & }", "{\n#c\na #d\n}", "{ a;}", "(a)", "( a;b )", "()", "( )", "(a", "((a))", "(#c\na\n)", "(a;#d\n)", "do a; done >f", "{ a; } >f", "(a)>f", "{ {a;}; }", "{ a; }}"];
const F_COMP: &[&str] = &["while a; do b; done", "until a\ndo b\ndone", "while a do b; done", "while do b; done", "if a; then b; fi", "if a; then b; elif c; then d; else e; fi", "if a; then b; else fi", "if a; b; fi", "for x in a b; do c; done", "for x; do c; done", "for x\ndo c; done", "for x in; do c; done", "for x in a do c; done", "for 1 in a; do b; done", "for", "case a in b) c;; esac", "case a in (b|c) d\nesac", "case a in esac", "case a esac", "case in", "while a; do b; done >f", "if a; then b; fi 2>&1 <g", "for x in a; do c; done <<E\nh\nE\n", "case a in esac <g", "a", "'if' a; then b; fi", "{ a; } >f", "(a) <g", "for x #c\n#d\nin y #e\n#f\ndo z; done", "case x #c\nin #d\n#e\na) #f\nb;; #g\nesac"];
const F_FN: &[&str] = &["f() { a; }", "f ( ) (a) >g", "function f { a; }", "function f() { a; }", "function f (a)", "function f ()\n(a)", "f a", "f", "f()", "f() a", "function 1() { a; }", "1() { a; }", "function f\n#c\n{ a; }", "f()\n\n{ a; }", "f\\\n() { a; }", "f \\\n () { a; }", "function", "function f", "function f (#c\n) { a; }", "f() if a; then b; fi", "'f'() { a; }"];
const F_SEP: &[&str] = &["\n", "\n\n", " \n #c\n\n#d\n", "#c", "# c \\\n", "", ";", "\\\n", "\\a", "\t \\\n\\\n ", "{ ", "}", "{a", "a", "a b", "a'b'", "if ", "ifx", "if", "'if'", "in;", "function\n", "!", "! a", "-", "-1", "- 1", ";;", "; "];
const F_ARITH: &[&str] = &["1", "x", "$x", "1+2*3", "x=1,y", "-x", "x++", "++ x", "(1)", "1)", "", ")", "x ? y : z", "x?y", "1 2", "x**2**3", "x<<-1", "x<=y", "x!y", "!x==~y", "a b", "08", "0x1F", "x,", "x||y&&z", "'x'", "\\\n x \\\n + y", "x += 3", "x =", "$$x = 1", "1++", "99999999999999999999"];
const F_BODY: &[&str] = &["a; done", "a\nfi", "a; }", "a)", "a;;", "a; b; x", "a done", "done", "}", "", "#c\n", "a; #c\ndone", "a; #c\n", "a -", "a; - ", "a; done}", "a; }}", "a; 'done'; done", "a; done)", "a & }", "a;; b", "a\n\n;;", "a; b)c", "xa; x"];

fn forms(k: u32) -> &'static [&'static [&'static str]] {
    match k {
        0 | 1 | 2 | 3 | 4 => &[F_CMD, AFTER, BEFORE],
        5 | 6 => &[F_REDIR, AFTER, BEFORE],
        7 | 8 => &[F_HERE, AFTER, BEFORE],
        9 | 10 => &[F_WORD, AFTER, BEFORE],
        11 => &[F_TICK, AFTER, BEFORE],
        12 => &[F_PARAM, AFTER, BEFORE],
        13 | 14 | 15 => &[F_GROUP, AFTER, BEFORE],
        16 => &[F_COMP, AFTER, BEFORE],
        17 | 18 | 19 | 20 => &[F_COMP, AFTER, BEFORE],
        21 | 22 => &[F_FN, AFTER, BEFORE],
        31 => &[F_ARITH, AFTER, BEFORE],
        30 | 32 | 33 | 34 | 35 => &[F_BODY, AFTER, BEFORE],
        _ => &[F_SEP, AFTER, BEFORE],
    }
}
/// C27: every operation, on its own forms, with anything before and after.
#[no_mangle]
pub extern "C" fn h_ops() {
    if param(9) == 1 {
        for k in 0..OPS {
            note(&format!("family: operation {} on BEFORE FORM AFTER, FORM one of {:?}, BEFORE one of {:?}, AFTER one of {:?}", k, forms(k)[0], BEFORE, AFTER));
        }
        return;
    }
    declare(OPS);
    let k = choice(OPS);
    let src = Src::new("ⒸⒶⒷ", &[], forms(k));
    let (mut p, mut q) = both(&src);
    each(&src, &mut p, &mut q, k);
    cover(k);
}
/// Every operation on arbitrary short texts and on arbitrary ends of scripts.
#[no_mangle]
pub extern "C" fn h_ops_any() {
    if param(9) == 1 {
        for s in SCRIPTS {
            note(&format!("family: every operation on every end of {:?}", s));
        }
        for t in ANY {
            note(&format!("family: every operation on {:?}, ① and so on any ASCII characters", t));
        }
        return;
    }
    declare(OPS);
    let k = choice(OPS);
    let src = match choice(2) {
        0 => {
            let s = SCRIPTS[choice(SCRIPTS.len() as u32) as usize];
            let i = choice(s.len() as u32 + 1) as usize;
            assume(s.is_char_boundary(i));
            Src::parts(&[&s.as_bytes()[i..]], &[], &[])
        }
        _ => {
            let t = ANY[choice(if param(0) > 0 { ANY.len() as u32 } else { 4 }) as usize];
            Src::new(t, &[ASCII, ASCII0, ASCII0, ASCII0], &[])
        }
    };
    let (mut p, mut q) = both(&src);
    each(&src, &mut p, &mut q, k);
    cover(k);
}
/// Every operation on everything derived.
#[no_mangle]
pub extern "C" fn h_ops_in() {
    static ROOTS: &[Root] = &[root!(1, 2, "Ⓛ"), root!(1, 1, " ⓁⓈⓁ"), root!(1, 2, "Ⓦ"), root!(1, 1, "ⓌⒶ"), root!(1, 2, "Ⓐ"), root!(1, 2, "Ⓡ"), root!(1, 2, "${ⒾⓄⓅ}"), root!(1, 2, "\"Ⓓ\""), root!(1, 1, "<<EⓇⓈⓁ\nⒽ\nE\nⓁ"), root!(1, 2, "ⓃⓁⓈ}"), root!(1, 2, "do ⓁⓈdoneⓇ"), root!(1, 2, "fⓉ(Ⓣ)ⓃⓁ"), root!(1, 1, "for Ⓦ"), root!(1, 1, "for Ⓦ inⓂ;"), root!(1, 1, "case Ⓦ in Ⓔ"), root!(1, 1, "function Ⓦ"), root!(1, 2, "if ⓁⓈthen Ⓛ"), root!(1, 1, "if a;then b;ⒻⒻ"), root!(1, 2, "while ⓁⓈdo Ⓛ"), root!(2, 2, "`ⒷⒷ"), root!(2, 2, "<<ⒷⒷ\n"), root!(1, 1, "$((Ⓐ"), root!(1, 1, "aⓀbⓀc"), root!(1, 2, "ⒼⒼw"), root!(1, 2, "ⓇⓇ")];
    over_gen(ROOTS, |src| {
        if param(9) == 1 {
            return;
        }
        let k = choice(OPS);
        let (mut p, mut q) = both(src);
        each(src, &mut p, &mut q, k);
    });
}
/// Two operations one after the other.
#[no_mangle]
pub extern "C" fn h_ops_two() {
    if param(9) == 1 {
        note("family: any two operations on FORM SEPARATOR FORM, each FORM one of those of its operation");
        return;
    }
    declare(OPS);
    let n = if param(0) > 0 { 14 } else { 5 };
    let form = |k: u32| {
        let f = forms(k)[0];
        // (those at the front say most)
        let l = f.len() as u32;
        f[choice(if l < n { l } else { n }) as usize].as_bytes()
    };
    let j = choice(OPS);
    let k = choice(OPS);
    let one = form(j);
    let gap = GAPS[choice(GAPS.len() as u32) as usize].as_bytes();
    let src = Src::parts(&[one, gap, form(k)], &[], &[]);
    let (mut p, mut q) = both(&src);
    let (a, go) = outcome(real_op(&mut p, j), ERRORS);
    let (b, _) = outcome(spec_op(&mut q, j), ERRORS);
    check(a == b, 1, || format!("source {:?}\n  operation {} says {}\n  it should say {}", src.text(), j, show(&a), show(&b)));
    if go {
        each(&src, &mut p, &mut q, k);
    }
    cover(k);
}
const GAPS: &[&str] = &["", " ", "\n", ";"];
static ANY: &[&str] = &["①②", "a①b", " ①a", "①a;b", "①②③", "a①②", "①a②"];

// ---------------------------------------------------------------- C25
const LISTS: &[&[&str]] = &[&[], &["a"], &["if", "for", "case"], &["b", "a", "do"], &["then", "fi", "done", "in", "function"], &["é", "1", ""], &["{", "}", "!", "esac", "x"], &["case", "elif", "else", "until", "while", "z", "in", "then", "esac", "fi", "for", "if", "done", "do", "b", "x", "é", "1", "a"]];
fn token_lists(k: u32) -> Vec<Token> {
    match k {
        0 => vec![],
        1 => vec![Token::CurlyOpen],
        2 => vec![Token::CurlyClose, Token::Dash],
        3 => vec![Token::Bang, Token::Name("a".to_owned()), Token::Literal("1".to_owned())],
        4 => vec![Token::Semi, Token::Newline, Token::Amp, Token::Pipe],
        5 => vec![Token::Whitespace(" ".to_owned())],
        6 => vec![Token::Dollar, Token::Whitespace(" ".to_owned()), Token::CurlyOpen],
        7 => vec![Token::Name("a".to_owned()), Token::Backslash, Token::Pound],
        _ => vec![
            Token::Comma, Token::At, Token::Caret, Token::Slash, Token::OrIf, Token::AndIf, Token::DSemi, Token::Less, Token::DGreat, Token::ParenClose, Token::Backtick,
            Token::Amp, Token::Pipe, Token::Semi, Token::Newline, Token::Bang, Token::CurlyClose, Token::CurlyOpen, Token::Dash, Token::Dollar, Token::Name("done".to_owned()),
        ],
    }
}
/// Does one of the tokens come next (and after blanks)?
fn spec_token(q: &mut P, l: &[Token]) -> Option<Token> {
    if l.is_empty() {
        return None;
    }
    let mut blanks = false;
    for t in l {
        if kind_of(t) == K::Ws {
            blanks = true;
        }
    }
    for round in 0..2 {
        if round == 1 || !blanks {
            q.blanks();
        }
        for t in l {
            let k = kind_of(t);
            if q.peek() == Some(k) && q.t[q.i].s == t.as_str() && q.at(q.i + 1).map_or(true, delimits) {
                return Some(t.clone());
            }
        }
    }
    None
}
const GAP: &[&str] = &["", " ", "\t \\\n", "\\\n"];
const THING: &[&str] = &["a", "if", "{", "}", "!", "-", "1", "é", "done", "$", ";", "\n", "&", "|", "\\", "#c", "'a'", "\"", "`", "b", "x", "do", "$1", "(", "<<"];
const NEXT: &[&str] = &["", " ", ";", "\n", "a", "'q'", "\\\n", "}", "(", ">", "#", "$x", "|b", ")"];
/// Questions and requests, at places of all kinds.
#[no_mangle]
pub extern "C" fn h_peeks() {
    if param(9) == 1 {
        note(&format!("family \"ⒶⒷⒸ d\" Ⓐ: {:?} Ⓑ: {:?} Ⓒ: {:?}, at the start and after \"x \", \"y\\n\", \"`z` \"", GAP, THING, NEXT));
        note("family: every end of every script; every end (quick: those after up to 7 characters of the first) of everything derived from \"Ⓛ\", \"Ⓦ\" and \"aⓇ b\" with one of the letters standing for something else than by default (see C06)");
        return;
    }
    declare(6);
    let place = choice(6);
    let vocab: &'static [&'static [&'static str]] = &[GAP, THING, NEXT];
    let src = match place {
        0 => Src::new("ⒶⒷⒸ d; e", &[], vocab),
        1 => Src::new("xⒶⒷⒸ d", &[], vocab),
        2 => Src::new("y\nⒶⒷⒸ d\n", &[], vocab),
        3 => Src::new("`z`ⒶⒷⒸ \"d\"", &[], vocab),
        5 => {
            let t = derive_text(["Ⓛ", "Ⓦ", "aⓇ b"][choice(if param(0) > 0 { 3 } else { 1 }) as usize], 1, true, false);
            let i = choice(if param(0) > 0 { 64 } else { 8 }) as usize;
            assume(i <= t.v.len());
            Src::chars(&t.v[i..])
        }
        _ => {
            let s = SCRIPTS[choice(SCRIPTS.len() as u32) as usize];
            let i = choice(s.len() as u32 + 1) as usize;
            assume(s.is_char_boundary(i));
            Src::parts(&[&s.as_bytes()[i..]], &[], &[])
        }
    };
    let (mut p, mut q) = both(&src);
    let mut twin = parser(&src);
    // go to the place
    let walk = match place {
        1 => 10,
        2 => 0,
        3 => 11,
        _ => 23,
    };
    if place > 0 && place < 4 {
        let ok = real_op(&mut p, walk).is_ok();
        assume(ok && real_op(&mut twin, walk).is_ok() && spec_op(&mut q, walk).is_ok());
    }
    // without blanks skipped, a blank could be asked for
    let raw = choice(2) == 0;
    if raw {
        real_op(&mut p, 23).ok();
        real_op(&mut twin, 23).ok();
        q.blanks();
    }
    let words = choice(2) == 0;
    let (yes, said, expected);
    let n = choice(if words { LISTS.len() as u32 } else { 9 });
    let toks = token_lists(if words { 0 } else { n });
    if words {
        let l = LISTS[n as usize];
        let a = p.peek_reserved_word(l);
        check(a == p.peek_reserved_word(l), 11, || format!("source {:?}: asked twice for {:?}, two answers", src.text(), l));
        // other questions change nothing
        p.peek_reserved_token(&[Token::CurlyOpen, Token::Bang]);
        p.peek_reserved_word(&["z"]);
        check(a == p.peek_reserved_word(l), 12, || format!("source {:?}: asked again for {:?}, another answer", src.text(), l));
        yes = a.is_some();
        said = said_(a);
        expected = said_(q.reserved(l));
    } else {
        let a = p.peek_reserved_token(&toks).cloned();
        let again = p.peek_reserved_token(&toks).cloned();
        check(a == again, 11, || format!("source {:?}: asked twice for {:?}, two answers", src.text(), toks));
        yes = a.is_some();
        said = is_tok(a.as_ref());
        expected = is_tok(spec_token(&mut q, &toks).as_ref());
        if !yes {
            p.peek_reserved_word(&["z"]);
        }
    }
    check(said == expected, 13, || format!("source {:?}: asked for one of {:?} {:?}, the answer is {:?}, it should be {:?}", src.text(), if words { LISTS[n as usize] } else { &[] }, toks, show(&said), show(&expected)));
    observe(&said);
    cover(if yes { 0 } else { 1 });
    // a request
    let mut after = None;
    let ask = choice(3);
    if ask == 0 {
        let (got, fails) = if words {
            match p.reserved_word(LISTS[n as usize]) {
                Ok(s) => (said_(Some(s)), false),
                Err(()) => (said_(None), true),
            }
        } else {
            match p.reserved_token(&toks) {
                Ok(t) => (is_tok(Some(&t)), false),
                Err(_) => (is_tok(None), true),
            }
        };
        cover(if fails { 2 } else { 3 });
        check(got == said, 14, || format!("source {:?}: the answer was {}, the request gave {}", src.text(), show(&said), show(&got)));
        if fails && !words {
            return;
        }
        if !fails {
            q.i += 1;
            after = Some(());
            let at = q.pos();
            check(p.pos() == at, 16, || format!("source {:?}: after the token requested the position is {}, it should be {}", src.text(), p.pos(), at));
        }
    } else if ask == 1 && !yes && !words {
        // a question for the start of a function consumes nothing either
        let is = p.maybe_function_declaration();
        let none = match &is {
            Ok(None) => true,
            _ => false,
        };
        assume(none);
        cover(4);
    }
    // everything goes on as if nothing had been asked
    if after.is_none() {
        p.skip_whitespace();
        q.blanks();
        twin.skip_whitespace();
        check(p.pos() == twin.pos(), 15, || format!("source {:?}: questions moved the parser to {}", src.text(), p.pos()));
        let a = rest(&mut p, POSITIONS);
        want(&src, "without questions", &a, &rest(&mut twin, POSITIONS));
        observe(&a);
        cover(5);
    } else {
        let a = rest(&mut p, POSITIONS);
        want(&src, "after the token", &a, &spec_rest(&mut q, POSITIONS));
        observe(&a);
    }
}
fn said_(s: Option<&str>) -> B {
    said(s)
}
