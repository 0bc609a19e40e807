//! The parser and other lexers: how blanks and literals are cut into tokens does not matter.
use crate::gen::{over_text, root, Root};
use crate::rt::*;
use crate::run::*;
use crate::sets::*;
use crate::src::*;
use crate::ser::Ser;
use crate::tr::{Fault, Tr, B};
use conch_parser::ast::builder::{Builder, StringBuilder};
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser};
use conch_parser::token::Token;

const MARK: char = '¦';

/// The tokens of `v`, those with a mark in `cut` within them in pieces.
fn cut(v: &[char], cuts: &[usize], literal: bool) -> Vec<Token> {
    let mut out = Vec::new();
    let mut at = 0;
    for t in Lexer::new(v.iter().cloned()) {
        let text: Vec<char> = t.as_str().chars().collect();
        let end = at + text.len();
        let mut pieces: Vec<String> = Vec::new();
        let mut piece = String::new();
        for i in 0..text.len() {
            let mut here = false;
            for &c in cuts {
                here |= c == at + i;
            }
            if here && i > 0 {
                pieces.push(piece);
                piece = String::new();
            }
            piece.push(text[i]);
        }
        at = end;
        if pieces.is_empty() {
            out.push(t);
            continue;
        }
        pieces.push(piece);
        match t {
            Token::Whitespace(_) => out.extend(pieces.into_iter().map(Token::Whitespace)),
            Token::Name(_) if !literal => out.extend(pieces.into_iter().map(Token::Name)),
            Token::Name(_) | Token::Literal(_) => out.extend(pieces.into_iter().map(Token::Literal)),
            t => out.push(t),
        }
    }
    out
}

/// Marks where the pieces of a token may end. The trees must be the same.
static CUT: &[Case] = &[
    case!("fo¦o b¦ar¦ ¦ b\u{E9}¦z", []),
    case!("a ¦ b¦c ¦ ; ¦ d¦e ¦ & ¦ f", []),
    case!("a ¦ | ¦ ! ¦ ; b", []),
    case!("a¦b ¦ && ¦ c¦d ¦ || ¦ ! ¦ e ¦ | ¦ f", []),
    case!("x=a¦b ¦ y='c ¦ d' ¦ z=$e ¦ g", []),
    case!("a 1¦2¦3>b¦c ¦ 4¦5<& ¦ 6¦7 ¦ >>d ¦ 8¦>|e", []),
    case!(">& ¦ 1¦a", []),
    case!("a ①¦②¦③>b", [DIGIT, DIGIT, DIGIT]),
    case!("a ①¦Ⓐ¦②Ⓑ", [DIGIT, DIGIT], [&["0", "00", "000", "01", "010", ""], &[">b", "<<b", ">&1", " >b", "<&-"]]),
    case!("a 6¦5¦5¦3Ⓐ¦x>f", [], [&["5", "6", "60"]]),
    case!("a 'b¦c ¦ d' \"e¦f ¦ $g ¦ \\$i¦j\" k\"l¦m\"n¦o", []),
    case!("a *b¦c?d¦e[f¦g]~h¦i:j¦k=l¦m-n¦o%p¦q", []),
    case!("a \\b¦c¦d \\\u{E9}¦e", []),
    case!("a Ⓐb¦cⒶ ¦ Ⓐ ¦ d¦e", [], [&["'", "\"", "", "`", "\\"]]),
    case!("a ¦①¦b ¦ c ¦① ¦ d", [ASCII]),
    deep!("a ¦①¦② ¦ b①", [ASCII, ASCII0]),
    case!("a b¦①②③¦c", [ALNUM, ALNUM0, ALNUM0]),
    case!("${a-b¦c ¦ d¦e} ${f:= ¦ g¦h} ${i%%j¦k ¦ } ${l##m¦*} \"${n+ ¦ o¦p ¦ }\"", []),
    case!("${a-\"b¦c ¦ d\"'e ¦ f¦g'\\h¦i$(j ¦ k¦l)} ${m?n¦o # ¦ p¦q}", []),
    case!("$(a¦b ¦ c ¦ ; ¦ d¦e ¦ ) `f¦g ¦ h ¦ ; i¦j` \"`k¦l ¦ m`\"", []),
    case!("`a¦b \\$c¦ ¦ \\\\d¦e ¦ \\`f¦g ¦ h\\` i¦j`", []),
    case!("$( ¦ ( ¦ a ¦ ) ¦ ) $(( ¦ 1 ¦ + ¦ x ¦ * ¦ ( ¦ $y ¦ ) ¦ ** ¦ 2 ¦ )) ¦ b", []),
    case!("$((x ¦ = ¦ y ¦ ? ¦ ++ ¦ z ¦ : ¦ w ¦ -- ¦ , ¦ v ¦ << ¦ - ¦ 2 ¦ ))", []),
    case!("$((x ¦ Ⓐ= ¦ ! ¦ $y ¦ Ⓐ ¦ ~ ¦ - ¦ z ¦ ))", [], [&["+", "<<", "&", "=", ""]]),
    case!("a <<E¦F ¦ b¦c ¦ ; ¦ d\nf¦g ¦ $h\nE¦F\nj", []),
    case!("a <<'E¦ ¦ F' ¦ <<-\"G¦H\"\ni ¦ ¦ j¦k $l\nE¦ ¦ F\n\t¦\tm¦n ¦ o\n\t¦\tG¦H\np", []),
    case!("a <<-E¦F\n\t¦\t¦ a ¦ \t¦\tb\n\t¦\tⒶ¦Ⓐ\nE¦F", [], [&["E", "F", "x", "\t", ""]]),
    case!("a <<-\\E¦F\n\t¦ \t¦ \t¦E\n\t¦\tE¦F", []),
    case!("a <<`E¦F` <<$G¦H <<\\I¦J\nk\n`E¦F`\nl\n$G¦H\nI¦J\n", []),
    case!("{ ¦ a¦b ¦ ; ¦ } ¦ >c¦d ¦ 2> ¦ & ¦ 3 ; ( ¦ e¦f ¦ ) ¦ | ¦ g", []),
    case!("if ¦ a¦b ¦ ; ¦ then ¦ c¦d ¦ ; ¦ elif ¦ e¦f\n ¦ then ¦ g ¦ ; ¦ else ¦ h ¦ ; ¦ fi ¦ >i", []),
    case!("while ¦ a¦b ¦ ; ¦ do ¦ c¦d ¦ \n ¦ done ¦ & ¦ until ¦ e ¦ ; ¦ do ¦ f ¦ ; ¦ done", []),
    case!("for ¦ x ¦ in ¦ a¦b ¦ 'c¦d' ¦ e¦f ¦ ; ¦ do ¦ g¦h ¦ ; ¦ done ¦ | ¦ i", []),
    case!("for ¦ x ¦ \n ¦ do ¦ a ¦ ; ¦ done ; for ¦ y ¦ ; ¦ do ¦ b ¦ ; ¦ done", []),
    case!("case ¦ a¦b ¦ in ¦ c¦d ¦ | ¦ e¦f ¦ ) ¦ g¦h ¦ ;; ¦ ( ¦ i¦j ¦ ) ¦ k ¦ \n ¦ esac ¦ > ¦ l", []),
    case!("f ¦ ( ¦ ) ¦ { ¦ a¦b ¦ ; ¦ } ¦ ; ¦ function ¦ g ¦ { ¦ c¦d ¦ ; ¦ } ; function ¦ h ¦ ( ¦ ) ¦ ( ¦ i ¦ )", []),
    case!("function ¦ f ¦ ( ¦ a ¦ ) ¦ > ¦ b ; f( ¦ ) ¦ \n ¦ ( ¦ c ¦ )", []),
    case!("Ⓐ ¦ \\\n ¦ Ⓑ¦c ¦ \\\n¦ ¦ d", [], [&["a", "x=", ">", "a >", "a |", "a &&", "a 2>", "! ", "{ a; } >", "a;", "a&"], &["b", "'b", "{ b; }", "(b)", "x=", "2>", "<<b", "#b", ")", "", "$((", "$("]]),
    case!("x ¦ Ⓑ ¦ Ⓐ ¦ Ⓑ ¦ y ¦\n ¦ z", [], [&["", "'", "\"", "$(", "${a-", "`", "#"], &[";", "|", "&&", ">", "2>&", "<<y\n", "\\\n", ")", "}", "'", "\"", "#"]]),
];
/// Marks only in comments and blanks; builders must be told the same.
static CUT_QUIET: &[Case] = &[
    case!("#a¦b ¦ c\n ¦ #d¦e ¦ \n ¦ f ¦ #g¦h ¦ i\n\n ¦ j ¦ ; ¦ #k¦l", []),
    case!("{ ¦ #a¦b ¦ \n ¦ c ¦ #d¦e\n #f¦g\n ¦ } ¦ #h", []),
    case!("if ¦ #a¦b\n c ¦ \n ¦ then ¦ #d¦ ¦ \n e; ¦ else #f¦g\n h ¦ \n #i¦j\n fi ¦ #k", []),
    case!("case a ¦ #b¦c\n ¦ in ¦ #d¦e\n ¦ #f¦g\n h ¦ ) ¦ #i¦j\n k ¦ ;; ¦ #l¦m\n #n¦o\n ¦ esac #p¦q", []),
    case!("for x ¦ #a¦b\n #c¦d\n in e ¦ ; ¦ #f¦g\n #h¦i\n do #j¦k\n l; done ¦ ", []),
    case!("a ¦ | ¦ #b¦c\n ¦ d ¦ && ¦ #e¦f\n ¦ #g\n ¦ h ¦ & ¦ #i¦j ¦ ", []),
    case!("f() ¦ #a¦b\n ¦ \n ¦ { c; } ¦ $( #d¦e\n f ¦ ) ¦ `g #h¦i\n`", []),
    case!("a <<E ¦ #b¦c '¦ ¦ d\nh\nE\n ¦ #e¦①", [NOT_NL0]),
    case!("#¦①¦② ¦\n ¦ Ⓐ ¦ #¦x", [NOT_NL0, NOT_NL0], [&["", "a", "a;", "a&", "a|", "{", "a;;", "a)", "\\", "\\\n"]]),
];
/// `src` without its marks, and its tokens cut at all the marks, or at some.
fn pieces(src: &Src) -> (Src, Vec<Token>) {
    let quick = param(0) == 0;
    let (mut v, mut marks) = (Vec::new(), Vec::new());
    for c in src.all() {
        if c == MARK {
            marks.push(v.len());
        } else {
            v.push(c);
        }
    }
    let n = marks.len() as u32;
    let cuts: Vec<usize> = match choice(if quick { 2 } else { 3 }) {
        0 => marks,
        1 => vec![marks[choice(n) as usize]],
        _ => {
            let (i, j) = (choice(n), choice(n));
            assume(i < j);
            vec![marks[i as usize], marks[j as usize]]
        }
    };
    let toks = cut(&v, &cuts, choice(2) == 0);
    (Src::chars(&v), toks)
}
/// What the parser answers, but for the text of a word or blank that an error names.
fn answers<X: Builder>(toks: impl Iterator<Item = Token>, b: X) -> B
where
    X::Command: Ser,
    X::Error: Fault,
{
    let mut p = Parser::with_builder(toks, b);
    let mut o = Vec::new();
    let name = |t: Token| match t {
        Token::Name(_) | Token::Literal(_) => Token::Name(String::new()),
        Token::Whitespace(_) => Token::Whitespace(String::new()),
        t => t,
    };
    loop {
        let r = match p.complete_command() {
            Err(ParseError::Unexpected(t, p)) => Err(ParseError::Unexpected(name(t), p)),
            Err(ParseError::BadSubst(t, p)) => Err(ParseError::BadSubst(name(t), p)),
            Err(e) => Err(e),
            Ok(c) => Ok(c.map(|c| {
                let mut o = Vec::new();
                c.ser(&mut o);
                o
            })),
        };
        if !step(&mut o, POSITIONS, r, p.pos()) {
            return o;
        }
    }
}
#[no_mangle]
pub extern "C" fn h_cuts() {
    over_all(&[CUT, CUT_QUIET], |src| {
        let (what, toks) = pieces(src);
        let a = answers(Lexer::new(what.iter()), StringBuilder::new());
        let b = answers(toks.clone().into_iter(), StringBuilder::new());
        observe(&a);
        check(a == b, 1, || format!("source {:?}: {}\n  tokens {:?}: {}", what.text(), show(&a), toks, show(&b)));
    });
}
#[no_mangle]
pub extern "C" fn h_cuts_told() {
    over_all(&[CUT_QUIET], |src| {
        let (what, toks) = pieces(src);
        let a = answers(Lexer::new(what.iter()), Tr::new());
        let b = answers(toks.into_iter(), Tr::new());
        want(&what, "with its tokens in pieces", &a, &b);
    });
}

/// Where a backslash and any one token go; the token must be as good as a literal with its text.
static ESCAPED: &[Case] = &[
    case!("¦", []),
    case!("¦ a", []),
    case!("a¦b c", []),
    case!("a Ⓐ¦Ⓑ c", [], [&["", "b", "$x", "'b'", "\"\"", "1", "*", "x=", "~", "{", "#", "$"], &["", "b", "$x", "'b'", "\"\"", ">1", "*", "=", "}", "#", ";", "("]]),
    case!("x=¦ y=a¦b z", []),
    case!("¦=a b", []),
    case!("a <<¦\nb\n&&\n||\n;;\n<<\n>>\n>&\n<&\n<<-\n>|\n<>\n$1\n\t \nab\n", []),
    case!("a <<b¦\nc $d\nb<<-\nb&&\nb$1\nb$\nbab\n", []),
    case!("a <<b ¦c; d\ne\nb\nf", []),
    case!("a >¦ b 2>&¦ <<<c", []),
    case!("a >&1¦ 2>>b¦c", []),
    case!("${a-¦} ${b:=c¦d} ${e+¦ ¦}", []),
    case!("${a%¦} ${b##¦c} ${c?d¦}", []),
    case!("${¦} ${#¦} ${a¦}", []),
    case!("$(¦) $(a ¦; b¦)", []),
    case!("( ¦a ) ; { ¦ ; } | ¦ && ! ¦ || a¦ &", []),
    case!("if ¦; then a ¦; elif ¦b; then c; else ¦; fi >¦", []),
    case!("while ¦; do ¦; done; until a¦; do b; ¦; done", []),
    case!("for x in ¦ a¦ b; do ¦; done", []),
    case!("case ¦ in ¦) a;; b¦ | ¦c) ¦;; esac", []),
    case!("case a¦b in (¦) ;; esac", []),
    case!("f() { ¦; }; ¦() { a; }", []),
    case!("function ¦ { a; }", []),
    case!("for ¦ in a; do b; done", []),
    case!("a Ⓐ ¦ Ⓑ", [], [&["|", "&&", ";", "&", "\n", "#", "b", "!", "{", "<", "<<b"], &["|", "&&", ";", "b", "\n", "#b", "}", ">c", ")"]]),
    case!("$((¦)) $((x + ¦))", []),
];
/// The same within double quotes and heredocs, for tokens that a backslash does not quote there.
static QUOTED: &[Case] = &[
    case!("a \"¦\" \"b¦c\"", []),
    case!("a \"${b-¦}\" \"${b-c¦ ¦d}\" \"$(e ¦)¦\"", []),
    case!("\"${a-b\"¦\"c}\" d", []),
    case!("a <<b\n¦\n c¦d\n¦b\nb\n", []),
    case!("a <<b <<-c\n${d+¦ e}\nb\n\t¦\n\t$f¦\n¦\tc\n\tc\n", []),
    case!("a <<\"b¦\" <<'c'\nd\nb\n¦\nc¦\nc\nb\\\\\nb\\ab\n", []),
    case!("a #d¦e\nf", []),
];
#[no_mangle]
pub extern "C" fn h_escaped() {
    escaped(ESCAPED, false)
}
#[no_mangle]
pub extern "C" fn h_escaped_quoted() {
    escaped(QUOTED, true)
}
fn escaped(cases: &'static [Case], quoted: bool) {
    let v = ["\n", "(", ")", "{", "}", "[", "]", "!", "~", "#", "*", "?", "\\", "%", "-", "=", "+", ":", "@", "^", "/", ",", "'", "\"", "`", ";", "&", "|", "&&", "||", ";;", "<", ">", "<<", ">>", ">&", "<&", "<<-", ">|", "<>", "$", "$1", "$0"];
    over(cases, |src| {
        let all = src.all();
        let mut places = 0;
        for &c in &all {
            places += (c == MARK) as u32;
        }
        let place = choice(places);
        let k = choice(v.len() as u32 + 3) as usize;
        assume(k > 0);
        let text = |sets: &[&Set]| -> String { sets.iter().map(|&s| any_char(s)).collect() };
        let x = match k.wrapping_sub(v.len()) {
            0 => Token::Whitespace(text(&[BL, BL])),
            1 => Token::Name(text(&[LETTER, ALNUM])),
            2 => Token::Literal(text(&[UNI, UNI])),
            _ => Lexer::new(v[k].chars()).next().unwrap(),
        };
        assume(!quoted || !matches!(x, Token::Dollar | Token::Backtick | Token::DoubleQuote | Token::Backslash | Token::ParamPositional(_)));
        let lit = Token::Literal(x.as_str().to_owned());
        let (mut a, mut b) = (Vec::new(), Vec::new());
        let mut part = Vec::new();
        let mut n = 0;
        for i in 0..all.len() + 1 {
            if i < all.len() && all[i] != MARK {
                part.push(all[i]);
                continue;
            }
            for t in Lexer::new(part.drain(..)) {
                a.push(t.clone());
                b.push(t);
            }
            if i < all.len() && n == place {
                a.push(Token::Backslash);
                a.push(x.clone());
                b.push(Token::Backslash);
                b.push(lit.clone());
            }
            n += 1;
        }
        let said = answers(a.clone().into_iter(), Tr::new());
        let meant = answers(b.into_iter(), Tr::new());
        observe(&said);
        check(said == meant, 1, || format!("tokens {:?}: {}\n  with a literal instead: {}", a, show(&said), show(&meant)));
    });
}
/// Everything derived, with its blanks and words in pieces.
#[no_mangle]
pub extern "C" fn h_cuts_in() {
    static ROOTS: &[Root] = &[root!(2, 2, "Ⓛ"), root!(1, 2, "ⓁⓈⓁ"), root!(1, 2, "c Ⓦ Ⓦ"), root!(1, 2, "c \"Ⓓ\" Ⓦ"), root!(1, 2, "c ${xⓄⓅⓅ}"), root!(1, 2, "c $((Ⓐ))"), root!(1, 2, "aⓇⓇ b"), root!(1, 2, "c <<E⓪ⓇⓈⓁ\nⓁ")];
    over_text(ROOTS, true, true, |t| {
        // (names are whole)
        let cuts: Vec<usize> = t.halves.iter().cloned().filter(|&h| {
            let name = |c: char| c == '_' || c.is_ascii_alphanumeric();
            let mut i = h;
            while i > 0 && name(t.v[i - 1]) {
                i -= 1;
            }
            i == h || i == 0 || t.v[i - 1] != '$' && t.v[i - 1] != '{' && !(i > 1 && t.v[i - 1] == '#' && t.v[i - 2] == '{')
        }).collect();
        let toks = cut(&t.v, &cuts, choice(2) == 0);
        let a = answers(Lexer::new(t.v.iter().cloned()), StringBuilder::new());
        let b = answers(toks.clone().into_iter(), StringBuilder::new());
        observe(&a);
        check(a == b, 1, || format!("source {:?}: {}\n  tokens {:?}: {}", t.v.iter().collect::<String>(), show(&a), toks, show(&b)));
    });
}
