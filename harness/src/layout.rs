//! Positions, comments, blanks, laziness and truncation.
use crate::gen::{derived, over_text, root, Root};
use crate::rt::*;
use crate::big::over_huge;
use crate::run::*;
use crate::scripts::*;
use crate::sets::*;
use crate::spec::P;
use crate::src::*;
use crate::tok::start_pos;
use crate::tr::{self, Tr, B};
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser, SourcePos};
use conch_parser::token::Token;

// ---------------------------------------------------------------- C05
/// Pieces which move the position in every way.
const MOVES: &[&str] = &[
    "a", "'b\nc'", "\"d\ne$x\n\"", "$(f\ng)", "`h\ni`", "`j \\`k\n\\` \\\\\n`", "${x-l\nm}", "\\\n", " #n o\n", " <<E\np\nE\n", " <<-E\n\tq\n\t\tE\n", " <<'E' r <<F\ns\n\nE\nt\nF\n",
    " <<E\n\\\n`u\nv`$x\nE\n", "é", "漢字", "$$1", "$1", "&& ", ">>w", "|", "\t \t", ";", "\n", "\r\n", "$((1 +\n2))", "$((x<<-1))", "{ y; }", "\"\\\n\"", "\\é", "<<E\n\nE\n", "\n\n\n", " # ü\n", "${x:+\"\n\"}", "\u{1F600}",
];
/// Ends which say where they are.
const SHOUTS: &[&str] = &["", ")", ";;", "'x", "\"x\n", "`x", "$(x", "${x", "${x!}", "${ö1}", "if x", "{ x", "(x", "x >&a b", "for 1", "\nx |", "${x-", "$((", "x\" $(", "<<E\n${!", "case x", "`\"`", "`${x`", "x >&'a\nb' c", "\n!!", "function 1", "$((x 1", "`x\n)`"];
static POSITIONS_: &[Case] = &[
    case!("ⒶⒶⒷ", [], [MOVES, SHOUTS]),
    case!("`ⒶⒶⒶⒷ", [], [&["'a\\$b'", "\"c\\$d\"", "'\\`'", "\\$x", "\\\\", "\\e", "'\\\\'", "\"\\`f\\`\"", " ", "\\\n", "#\\$\n", "${x-'\\$'}"], &[")", "`)", "${x!}", "` )", "'", "\"", "\n)`"]]),
    case!("①②③)", [ASCII, ASCII0, ASCII0]),
    case!("`'①\\②' Ⓐ", [ASCII0, ASCII], [&[")`", "`)", "${!a!}"]]),
    case!("`\"①\\②\" Ⓐ", [ASCII0, ASCII], [&[")`", "`)", "${!a!}"]]),
    case!("a①②Ⓑ", [ASCII, ASCII0], [MOVES, SHOUTS]),
    case!("①Ⓐ②)", [UNI, UNI], [&["", "'", "\"", "#", "\\", "$", "`"]]),
    case!("$(Ⓐ`Ⓐ`Ⓑ)", [], [MOVES, SHOUTS]),
    case!("\"${x-Ⓐ}Ⓑ", [], [MOVES, SHOUTS]),
    case!("x <<E; y Ⓑ\nⒶ\nE\nⒶ)", [], [MOVES, &["", "<<F", ")", "'\n'", "#"]]),
    case!("`Ⓐ$(Ⓐ`Ⓑ", [], [MOVES, SHOUTS]),
    case!("x <<-E\n①②ⒶⒷ\nE\n)", [BL0, BL0], [MOVES, SHOUTS]),
    case!("x <<-E\na$y\n①②③ⒷE\n)", [BL0, BL0, BL0], [&["", "a", "'"], &["", "${!}", "$(x", "`x", "\\\n\t${!}", "\\\n\t\t${!}\n", "${x-\n\t${!}", "${x", "$x\n\t \t${!}\n", "é\n\t\té\t${!}\n", "\n\n\t${!}\n"]]),
    case!("x <<ⒶE <<ⒶF\n\t \t$x\n①E\n\t①ⒷE\nF\n)", [BL0, BL0], [&["", "-"], &["${!}", "$(x\n", "`x\\$(\n\t`", "\tF\n", "${x-\n\t${!}"]]),
    case!("if Ⓐ; then Ⓐ\nⒷ", [], [MOVES, SHOUTS]),
    case!("$((Ⓐ + ⒶⒷ", [], [&["x", "1", "\n", " ", "\\\n", "-", "<<-", "x++", "$x", "é", "(", ")", "))", "'", "=", "?", "1a"], SHOUTS]),
    case!("{ ⒶⒷ} >f ⒶⒷ", [], [&["a;", "\n", "a\n", "#b\n", "'c\n'\n", "é;", "$x;", "\\\n"], &["", ")", "&1", ">&b", "\"", "`"]]),
    case!("case Ⓐ in Ⓐ)Ⓐ;; Ⓑ", [], [&["a", "'b\nc'", "é", " #d\n", "$x", "\\\n"], SHOUTS]),
    case!("for Ⓐ in Ⓐ; do Ⓐ; Ⓑ", [], [&["a", "'b\nc'", "é", " #d\n", "\n", "\\\n"], SHOUTS]),
    case!("f() ⒶⒷ", [], [&["{ a; }", "\n", "(b\nc) >d ", "#e\n{ f; } ", "{ g\n} <<E\nh\nE\n"], SHOUTS]),
    deep!("ⒶⒶⒶⒷ", [], [MOVES, SHOUTS]),
    deep!("①②③④)", [ASCII, ASCII0, ASCII0, ASCII0]),
    deep!("\"ⒶⒶⒷ", [], [MOVES, SHOUTS]),
    deep!("`ⒶⒶⒷ`)", [], [MOVES, SHOUTS]),
];
#[no_mangle]
pub extern "C" fn h_positions() {
    over_huge(POSITIONS_, |src| {
        agree(src, POSITIONS);
    });
}
#[no_mangle]
pub extern "C" fn h_positions_scripts() {
    agree(&mutated(SCRIPTS), POSITIONS);
}

// ---------------------------------------------------------------- C16
const CMT: &[&str] = &["", "\n", " #c\n", "#", " # d '\"`$( e\\\n", "\n\n #f\n#g\n", "\t\n", "\\\n #h\n", " #\n"];
static COMMENTS: &[Case] = &[
    case!("Ⓐa;Ⓐb&Ⓐc|Ⓐd&&Ⓐe||ⒶfⒶ", [], [&["", "\n", " #c\n", "#d\n\n"]]),
    case!("a Ⓐ\n b ⒶⒶ", [], [CMT]),
    case!("{Ⓐ a;ⒶbⒶ;} ⒶⒶ", [], [CMT]),
    case!("(Ⓐa;ⒶbⒶ)ⒶⒶ", [], [CMT]),
    case!("ifⒶ a;Ⓐthen Ⓐb; Ⓐfi", [], [CMT]),
    case!("if a; then b; elifⒶ c;Ⓐthen Ⓐd;Ⓐfi", [], [CMT]),
    case!("if a; then b; elseⒶ c;Ⓐfi Ⓐ", [], [CMT]),
    case!("whileⒶ a;Ⓐ do Ⓐb; Ⓐdone", [], [CMT]),
    case!("for x Ⓐ in a Ⓐ Ⓐdo Ⓐb; done", [], [CMT]),
    case!("for xⒶ;Ⓐdo a; done Ⓐ", [], [CMT]),
    case!("for x in a; Ⓐdo Ⓐa;Ⓐdone Ⓐ", [], [CMT]),
    case!("case a Ⓐ in Ⓐb) Ⓐ c;;Ⓐesac", [], [CMT]),
    case!("case a in b) Ⓐ;;Ⓐ c) d Ⓐ;;Ⓐ esac Ⓐ", [], [CMT]),
    case!("case a in b) c;Ⓐ esac;Ⓐ", [], [CMT]),
    case!("f() Ⓐ{ Ⓐa; } Ⓐ", [], [CMT]),
    case!("function f Ⓐ{ a; }ⒶⒶ", [], [CMT]),
    case!("function f ()Ⓐ(a)Ⓐ", [], [CMT]),
    case!("function f (Ⓐ)Ⓐ(a)", [], [CMT]),
    case!("$(Ⓐa;ⒶbⒶ) x Ⓐ", [], [CMT]),
    case!("`Ⓐa;ⒶbⒶ` x Ⓐ", [], [CMT]),
    case!("a <<E Ⓐ\n#b\nE\nⒶ", [], [CMT]),
    case!("#①②③", [ASCII0, ASCII0, ASCII0]),
    case!("a①#②\n③", [ASCII0, ASCII0, ASCII0]),
    case!("①#②", [UNI, UNI]),
    case!("a ⒶⒷ", [], [&["'#'", "\"#\"", "\\#", "b#", "$#", "${#x}", "${x#y}", "${x-#}", "$((#))", "$x#", "#", "''#", "`#`", "$(#\n)", "*#", "\"\\\n\"#", "\\\n#", ">#f", "> #f\n", "x=#", "=#", "1#", "(#", "~#", "#'"], &["", "\n", "b", " #c", "'"]]),
    case!("xⒶ#b\nc", [], [&["", " ", ";", "&", "|", "&&", "<", ">", "(", ")", "\\\n", "\t", "{", "}", "!", "=", "\n", "'q'", "\"q\"", "`q`", "$", ":", "-", "\\ ", "\\;"]]),
    case!("Ⓑ#bⒶ", [], [&["\n", "", "\nc", "\\\nc", "\r\nd"], &["if ", "then ", "{ ", "! ", "for ", "for x ", "for x in ", "case ", "case x ", "case x in ", "case x in y", "case x in (", "case x in y|", "function ", "function f", "function f ", "f(", "f (", "f()", "x >", "x >&", "x <<", "$((", "x=", "while ", "esac ", ""]]),
    deep!("{Ⓐ a;ⒶbⒶ;Ⓐ} ⒶⒶ", [], [CMT]),
    deep!("ifⒶ a;Ⓐthen Ⓐb; ⒶelifⒶ c;Ⓐthen d; else Ⓐ e; fi", [], [&["", "\n", " #c\n", "#d\n\n"]]),
    deep!("case a Ⓐ in Ⓐb) Ⓐ c;;Ⓐ(d|e) Ⓐf;; esac Ⓐ", [], [&["", "\n", " #c\n", "#d\n\n"]]),
    deep!("a①②#③④\n", [ASCII0, ASCII0, ASCII0, ASCII0]),
];
/// All that the builder is told, comments outside of commands included.
fn told(src: &Src, level: u32) -> B {
    let mut t = Tr::new();
    let mut a = rest(&mut Parser::with_builder(Lexer::new(src.iter()), &mut t), level);
    tr::w(&mut a, " loose ");
    a.extend_from_slice(&t.loose);
    a
}
fn comments_agree(src: &Src) {
    let a = told(src, TREE);
    let mut p = P::new(src, Tr::new());
    let mut b = spec_rest(&mut p, TREE);
    tr::w(&mut b, " loose ");
    b.extend_from_slice(&p.b.loose);
    observe(&a);
    want(src, "expected", &a, &b);
}
#[no_mangle]
pub extern "C" fn h_comments() {
    over_huge(COMMENTS, comments_agree);
}
#[no_mangle]
pub extern "C" fn h_comments_scripts() {
    let src = if param(0) == 0 { mutated_with(SCRIPTS, &[HASHES]) } else { mutated(SCRIPTS) };
    comments_agree(&src);
}
const HASHES: &Set = &[(10, 10), (32, 32), (34, 35), (39, 39), (59, 59), (92, 92), (96, 96), (120, 120), (NONE, NONE)];

/// Places for comments: `¤` needs a newline or nothing (a blank then), `»` is a `;` or a newline.
const PLACES: &[&str] = &[
    "¤a»b &¤c|¤d&&¤e||¤f»¤",
    "{¤a»b»¤}»c",
    "(¤a»b»¤)»c >f»",
    "if¤a»then¤b»elif¤c»then¤d»else¤e»fi»g",
    "while¤a»do¤b»done»until¤c»do¤d»done»",
    "for x¤in a b»do¤c»done»d",
    "for x»do¤c»d»done|¤e",
    "case a¤in¤b|c)¤d;;¤(e)¤f»g;;¤esac»h",
    "case a in¤b)¤;;¤c)¤d»esac»",
    "f()¤{¤a»}»function g¤(¤b»c»)»d",
    "function h ()¤(a)»f ()¤if a»then b»fi»",
    "x $(¤a»b») \"${y:-$(¤c»)}\" \"$(¤d»¤)\"»",
    "x \"`¤c»`\" `¤{¤d»}»`»",
    "a <<E 'x #y' b#c \"#\" ${#z} ${z##q} \\# $#»",
    "! a|¤{¤b»}&&¤(¤c»)||¤! d»¤",
];
/// Every comment placed arrives, once, in order, unaltered; and nothing else does.
#[no_mangle]
pub extern "C" fn h_conserved() {
    let n = PLACES.len() as u32;
    if param(9) == 1 {
        for t in PLACES {
            note(&format!("family {:?}: at ¤ nothing, at » a separator, or one of {:?} (with a number and a character for ①) at up to two places", t, FILL));
        }
        return;
    }
    declare(n);
    let k = choice(n);
    let t = PLACES[k as usize];
    let mut slots = 0;
    for c in t.chars() {
        if c == '¤' || c == '»' {
            slots += 1;
        }
    }
    let i = choice(slots);
    let j = choice(slots);
    assume(i <= j);
    let all = choice(2) == 1;
    assume(param(0) > 0 || !all || i == j);
    let (fi, fj) = (FILL[choice(FILL.len() as u32) as usize], FILL[choice(if i == j { 1 } else { FILL.len() as u32 }) as usize]);
    // (quotes and brackets count within backquotes, in comments as well)
    let back = t.contains('`');
    // (the line after a heredoc's belongs to its body)
    let lines = |f: &str| f.matches('\n').count() > 1;
    assume(!t.contains("<<E") || !lines(fi) && !lines(fj));
    assume(!back || !fi.contains('$') && !fj.contains('$'));
    let odd = any_char(if back { &[(33, 33), (35, 35), (42, 95), (97, 122), (124, 124), (126, 126)] } else { &[(33, 126)] });
    assume(!back || odd != '\\');
    let mut v: Vec<char> = Vec::new();
    let mut expected: Vec<Vec<char>> = Vec::new();
    let mut s = 0;
    for c in t.chars() {
        if c != '¤' && c != '»' {
            v.push(c);
            continue;
        }
        let fill = if s == i { fi } else if s == j { fj } else if all { FILL[0] } else { "" };
        if fill.is_empty() {
            if c == '»' {
                v.push('\n');
            } else {
                v.push(' ');
            }
        } else {
            let mut cm: Option<Vec<char>> = None;
            if fill.starts_with('#') && v.last().map_or(false, |l| !";&|()\n ".contains(*l)) {
                v.push(' ');
            }
            for f in fill.chars() {
                if f == '#' && cm.is_none() {
                    cm = Some(Vec::new());
                }
                let mut one = |x: char| {
                    if x == '\n' {
                        if let Some(m) = cm.take() {
                            expected.push(m);
                        }
                    }
                    if let Some(m) = &mut cm {
                        m.push(x);
                    }
                    v.push(x);
                };
                match f {
                    '①' => one(odd),
                    '0' => {
                        one((b'A' + s as u8) as char);
                    }
                    f => one(f),
                }
            }
        }
        s += 1;
    }
    // a heredoc, if there is one
    if t.contains("<<E") {
        for c in "#h\nE\n".chars() {
            v.push(c);
        }
    }
    let src = Src::chars(&v);
    let a = told(&src, ERRORS);
    observe(&a);
    // what arrived (in order; comments outside of commands come last)
    let mut got: Vec<Vec<u8>> = Vec::new();
    let mut open: Option<Vec<u8>> = None;
    let mut depth = 0;
    for &c in &a {
        match c {
            1 => depth += 1,
            2 => depth -= 1,
            3 => open = Some(Vec::new()),
            4 => {
                if let Some(c) = open.take() {
                    got.push(c);
                }
            }
            c => {
                if let Some(o) = &mut open {
                    o.push(c);
                }
            }
        }
    }
    check(depth == 0, 4, || format!("source {:?}: {}", src.text(), show(&a)));
    // (comments outside of commands come last: each has the letter of its place)
    got.sort_by_key(|c| if c.len() > 1 && c[0] == b'#' { c[1] } else { 0 });
    let mut same = got.len() == expected.len();
    if same {
        for x in 0..got.len() {
            same &= got[x].len() == expected[x].len();
            if same {
                for y in 0..got[x].len() {
                    same &= got[x][y] as u32 == expected[x][y] as u32;
                }
            }
        }
    }
    check(same, 3, || format!("source {:?}\n  comments which arrived: {:?}\n  comments placed: {:?}", src.text(), got.iter().map(|x| show(x)).collect::<Vec<_>>(), expected));
    cover(k);
}
const FILL: &[&str] = &[" #0①\n", "\n", "\n\n", "#0\n", " #0 ① 'x\" `$(\\\n\n #0b\n", "\t\n#0①#\n", " \\\n #0\n"];

// ---------------------------------------------------------------- C17
/// `·` is a blank, `¬` a place next to an operator where a blank may be.
const GAPS: &[&str] = &[
    "¬a·b·c¬;¬d¬&¬e·f¬",
    "¬a·b¬|¬c¬&&¬d¬||¬!·e¬\n¬f¬",
    "¬x=1·y=·z='2'·a·>¬f·2>&¬1·<¬g¬\n",
    "a¬>>¬f¬>|¬g¬<>¬h¬<&¬-¬>&¬2¬\n",
    "¬{·a¬;¬b¬;¬}·>¬f¬;¬(¬c¬;¬d¬)¬2>¬g¬\n",
    "¬if·a¬;¬then·b¬;¬elif·c¬;¬then·d¬;¬else·e¬;¬fi·>¬f¬\n",
    "¬while·a¬;¬do·b¬;¬done¬;¬until·c¬\n¬do·d¬\n¬done¬",
    "¬for·x·in·a·b·$c¬;¬do·d¬;¬done¬|¬e¬\n",
    "for·x¬\n¬do·a¬;¬done¬\n¬for·y¬\n¬in·z¬\n¬do·b¬;¬done",
    "for·x¬;¬do·a¬;¬done",
    "¬case·$a·in·b¬|¬c¬)¬d¬;;¬(¬e¬)¬f¬\n¬;;¬*¬)¬esac·>¬f¬",
    "case·a·#b\n¬in·#c\n¬d¬)¬#e\n¬f¬;;¬#g\n¬esac·#h\n",
    "¬f¬(¬)¬{·a¬;¬}¬\n¬g¬(¬)¬\n¬(¬b¬)¬>¬c¬\n",
    "function·f·{·a¬;¬}¬;¬function·g¬(¬)¬(¬b¬)¬\n¬function·h·(¬c¬)¬",
    "a·<<¬E·b¬\nc $d\nE\n¬e¬",
    "a·<<-¬'E'·<<¬F¬\n\tb\n\tE\nd\nF\n",
    "a·$(¬b·$(¬c¬)¬)·\"$(¬d¬;¬e¬)\"·`¬f·g¬`¬",
    "a·$((¬1¬+¬x¬*¬2¬**¬y¬)¬)·$((¬x¬=¬y¬?¬z¬:¬010¬,¬w¬)¬)",
    "a·$((¬-¬x¬--¬<<¬(¬0xF¬&¬!¬~¬y¬)¬||¬1¬<=¬2¬)¬)¬",
    "$((¬x¬+=¬1¬,¬y¬<<=¬$z¬==¬3¬^¬4¬)¬)·$((¬)¬)",
    "!·{·a¬;¬}¬|¬(¬b¬)¬&¬\n¬#c\n¬d¬",
    "a¬&&¬\n¬b¬||¬#c\n¬d¬|¬\n¬e",
    "${x-y}·\"$z\"·'w'·\\v·u\\ t¬>¬${s}",
    // malformed
    "a¬|¬", "a·>¬", "if·a¬;", "{·a¬;¬", "(¬a¬", "!·!·a", "for·1·in", "a¬;;", "case·a¬", "f¬(¬)·a", "x·>&¬a·b", "$((¬1¬+¬", "a¬)¬b", "$((¬1·2¬))", "fi·a", "¬;¬", "case·a·in·b·c", "function·f·a", "for·x·a",
];
const BLANKS: &[&str] = &[" ", "\t", "  ", " \\\n", "\t\\\n ", " \\\n\\\n", " \t\\\n \\\n\t ", "\u{b}", "\u{3000} \\\n"];
#[no_mangle]
pub extern "C" fn h_blanks() {
    let n = GAPS.len() as u32;
    if param(9) == 1 {
        for t in GAPS {
            note(&format!("family {:?}: at · one of {:?}, at ¬ one of them or nothing, at any two places (the others: nothing, or a blank)", t, BLANKS));
        }
        return;
    }
    declare(n);
    let only = param(1);
    let k = if only >= 1 && only <= n { only - 1 } else { choice(n) };
    let t = GAPS[k as usize];
    let mut slots = 0;
    for c in t.chars() {
        if c == '·' || c == '¬' {
            slots += 1;
        }
    }
    // all optional blanks there, or none
    let wide = choice(2) == 1;
    let i = choice(slots);
    let near = param(0) == 0;
    let j = choice(if near { 4 } else { slots });
    let j = if near { i + j } else { j };
    assume(i <= j && j < slots);
    let a = choice(BLANKS.len() as u32 + 1);
    let b = if i == j { 0 } else { choice(BLANKS.len() as u32 + 1) };
    assume(i == j || a != 0 && b != 0 || wide);
    let (mut v, mut canon) = (Vec::new(), Vec::new());
    let mut s = 0;
    for c in t.chars() {
        if c != '·' && c != '¬' {
            v.push(c);
            canon.push(c);
            continue;
        }
        if c == '·' {
            canon.push(' ');
        }
        let f = if s == i { Some(a) } else if s == j { Some(b) } else { None };
        match f {
            Some(0) => {
                if c == '·' {
                    v.push(' ');
                }
            }
            Some(f) => v.extend(BLANKS[f as usize - 1].chars()),
            None => {
                if c == '·' || wide {
                    v.push(' ');
                }
            }
        }
        s += 1;
    }
    let src = Src::chars(&v);
    let x = told(&src, ERRORS);
    let canon = Src::chars(&canon);
    let y = told(&canon, ERRORS);
    observe(&x);
    want(&src, "with single blanks", &x, &y);
    cover(k);
}
/// The same characters where they matter.
const INQ: &[&str] = &["'", "\"", "`", "", "${x-", "\"${x:-", "$(", "<<E\n", "<<'E'\n", "<<-E\n", "$((", "\\", "#", "x="];
static QUOTED: &[Case] = &[
    case!("a Ⓐ①②③", [&[(9, 9), (32, 32), (92, 92), (10, 10), (34, 34), (39, 39), (97, 97), (NONE, NONE)], &[(9, 9), (32, 32), (92, 92), (10, 10), (34, 34), (39, 39), (97, 97), (NONE, NONE)], ASCII0], [INQ]),
    case!("a Ⓐ①②b\nE\n\"'`}", [&[(9, 9), (32, 32), (92, 92), (10, 10), (NONE, NONE)], &[(9, 9), (32, 32), (92, 92), (10, 10), (NONE, NONE)]], [INQ]),
    case!("ⒷⒶⒷⒶⒷ", [], [&["a", "'b c'", "\"d\\\ne\"", ";", "|", "f=", "\\\\", "12>g", "if", "{", "!", "#h"], &["", " ", "\\\n", " \\\n", "\\\n "]]),
    deep!("a Ⓐ①①①①", [&[(9, 9), (32, 32), (92, 92), (10, 10), (34, 34), (39, 39), (97, 97), (NONE, NONE)]], [INQ]),
];
#[no_mangle]
pub extern "C" fn h_blanks_kept() {
    over(QUOTED, |src| {
        agree(src, ERRORS);
    });
}

// ---------------------------------------------------------------- C20
const LINES: &[&str] = &[
    "a", "a b ", "a;b", "a&", "a & b;", "a | b", "a &&\nb", "! a", "#c\na", "\n\na #d", "x=1", "a >f", "'b\nc'", "\"d\ne\" f", "$(g\nh)", "`i\nj`", "${k-l\nm}", "$((1\n))", "{ a; }", "{ a; } >f", "(a\nb)", "(a) | b",
    "if a; then b; fi", "if a\nthen b\nfi | c", "while a; do b; done; c", "for x in a\ndo b\ndone", "for x do a; done >f", "case a in\nb) c;;\nesac", "f() { a; }", "f()\n{ a; } <g", "function f (a)", "a <<E\nb\nE", "a <<E; c <<F\nb\nE\nd\nF", "{ a <<E; }\nb\nE", "a <<-'E' | b\n\tc\n\tE", "$(a <<E\nb\nE\n)", "a\\\nb", "a \\\n b", "a; b #c", "é", "if a; then b; fi;", "(a);", "a;;", "$x", "\"$y\"", "a <<E #x\nE", "fi", "a |", "{ a", "2>&1",
];
/// The commands of a text after which another one may begin at once, with the end of the line at which each of them ends.
fn complete(v: &[char]) -> Option<Vec<(B, usize)>> {
    let mut res = Vec::new();
    let alone = Src::chars(v);
    let mut q = P::new(&alone, Tr::new());
    let mut last;
    loop {
        match q.complete_command() {
            Ok(Some(c)) => {
                let mut end = q.looked_at();
                while end < v.len() && (end == 0 || v[end - 1] != '\n' || end > 1 && v[end - 2] == '\\') {
                    end += 1;
                }
                res.push((c, if end > v.len() { v.len() } else { end }));
            }
            Ok(None) => break,
            Err(_) => return None,
        }
    }
    // the line has ended, and another command is a command of its own
    if v.len() > 1 && v[v.len() - 2] == '\\' {
        return None;
    }
    let mut w: Vec<char> = v.to_vec();
    w.push('z');
    let more = Src::chars(&w);
    let mut q = P::new(&more, Tr::new());
    for (c, _) in &res {
        last = q.complete_command();
        match &last {
            Ok(Some(d)) if d == c => {}
            _ => return None,
        }
    }
    match q.complete_command() {
        Ok(Some(_)) => {}
        _ => return None,
    }
    match q.complete_command() {
        Ok(None) => Some(res),
        _ => None,
    }
}
/// Delivers what is complete, and asks for nothing beyond.
#[no_mangle]
pub extern "C" fn h_lazy() {
    if param(9) == 1 {
        note(&format!("family: one or two (thorough: three) of the lines {:?} or a character, then a newline, then a source which is not there yet", LINES));
        return;
    }
    declare(3);
    let deep = param(0) > 0;
    let kind = choice(3);
    let first = match kind {
        0 => Src::new(if deep { "Ⓐ\nⒶ\n" } else { "Ⓐ\n" }, &[], &[LINES]),
        1 => Src::new("Ⓐ\nⒶ\n", &[], &[LINES]),
        _ => Src::new(if deep { "①②③\n" } else { "①②\n" }, &[ASCII, ASCII0, ASCII0], &[]),
    };
    let v = first.all();
    let expected = match complete(&v) {
        Some(e) => e,
        None => {
            assume(false);
            return;
        }
    };
    lazily(&v, expected);
    cover(kind);
}
/// Everything derived, delivered as soon as its line ends.
#[no_mangle]
pub extern "C" fn h_lazy_in() {
    static ROOTS: &[Root] = &[root!(2, 2, "Ⓛ\n"), root!(1, 2, "ⓁⓈⓁ\n"), root!(2, 2, "c Ⓦ\n"), root!(1, 2, "c ${xⓄⓅⓅ} \"Ⓓ\"\n"), root!(1, 2, "c $((Ⓐ))\n"), root!(1, 2, "c <<EⓇ Ⓦ\nⒽ\nE\nⓁ\n")];
    over_text(ROOTS, false, false, |t| match complete(&t.v) {
        Some(e) => lazily(&t.v, e),
        None => assume(false),
    });
}
fn lazily(v: &[char], expected: Vec<(B, usize)>) {
    let src = Src::after(v, "①", &[ASCII], &[]);
    // (the source counts what it has been asked for beyond `v` only)
    let it = Counted { src: src.clone(), i: 0, most: std::rc::Rc::new(std::cell::Cell::new(0)) };
    let most = it.most.clone();
    let mut p = Parser::with_builder(Lexer::new(it), Tr::new());
    let n = expected.len();
    for (i, (c, end)) in expected.into_iter().enumerate() {
        let got = match p.complete_command() {
            Ok(Some(c)) => c,
            _ => b"nothing".to_vec(),
        };
        check(got == c, 1, || format!("source {:?}: command {} is {}, it should be {}", src.text(), i, show(&got), show(&c)));
        check(most.get() <= end, 2, || format!("source {:?}: {} characters were requested for command {} of {}, which ends after {}", src.text(), most.get(), i + 1, n, end));
    }
    check(most.get() <= v.len(), 3, || format!("source {:?}: more requested than the {} characters of the commands", src.text(), v.len()));
    observe(&[n as u8, most.get() as u8]);
}
/// Remembers the number of characters which were requested.
#[derive(Clone)]
struct Counted {
    src: Src,
    i: usize,
    most: std::rc::Rc<std::cell::Cell<usize>>,
}
impl Iterator for Counted {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.most.get() < self.i + 1 {
            self.most.set(self.i + 1);
        }
        let c = self.src.get(self.i);
        if c.is_some() {
            self.i += 1;
        }
        c
    }
}
/// The commands of two parts are those of the first and those of the second.
#[no_mangle]
pub extern "C" fn h_parts() {
    if param(9) == 1 {
        note(&format!("family: A newline B, A one of {:?} (or two arbitrary characters), B one of them or two arbitrary characters", LINES));
        return;
    }
    declare(3);
    let kind = choice(3);
    let a = if kind == 1 { Src::new("①②\n", &[ASCII, ASCII0], &[]) } else { Src::new("Ⓐ\n", &[], &[LINES]) };
    let b = match kind {
        0 => Src::new("Ⓐ", &[], &[LINES]),
        1 => Src::new("Ⓐ", &[], &[&["a", "", ")", "'b", "#c\nd", "E\n\"", "fi", "\n;"]]),
        _ => Src::new(if param(0) > 0 { "①②③" } else { "①②" }, &[ASCII, ASCII0, ASCII0], &[]),
    };
    let mut v = a.all();
    assume(complete(&v).is_some());
    let mut t = Tr::new();
    let mut one = rest(&mut Parser::with_builder(Lexer::new(a.iter()), &mut t), ERRORS);
    assume(t.loose.is_empty());
    one.pop(); // the end
    let mut two = real(&b, ERRORS);
    one.append(&mut two);
    v.extend(b.all());
    let both = Src::chars(&v);
    let all = real(&both, ERRORS);
    observe(&all);
    want(&both, "one part after the other", &all, &one);
    cover(kind);
}

// ---------------------------------------------------------------- C26
/// What a truncated source is told.
#[derive(Clone, Copy)]
enum Lack {
    Close(fn() -> Token),
    Word(&'static str, &'static str),
    Operand,
}
struct Open {
    t: &'static str,
    /// Where, in `t`, the construct begins.
    at: usize,
    lack: Lack,
    /// 0: commands follow, 1: words, 2: text in double quotes, 3: nothing more (a quote), 4: an operand, no operators
    inside: u32,
    /// 0: a command, 1: a word, 2: possible in double quotes as well
    kind: u32,
}
const fn open(t: &'static str, at: usize, lack: Lack, inside: u32, kind: u32) -> Open {
    Open { t, at, lack, inside, kind }
}
fn sq() -> Token { Token::SingleQuote }
fn dq() -> Token { Token::DoubleQuote }
fn bt() -> Token { Token::Backtick }
fn po() -> Token { Token::ParenOpen }
fn co() -> Token { Token::CurlyOpen }
static OPENS: &[Open] = &[
    open("'", 0, Lack::Close(sq), 3, 1),
    open("\"", 0, Lack::Close(dq), 2, 1),
    open("`", 0, Lack::Close(bt), 3, 2),
    open("$(", 1, Lack::Close(po), 0, 2),
    open("${x", 1, Lack::Close(co), 3, 2),
    open("${x-", 1, Lack::Close(co), 1, 2),
    open("${x:+é", 1, Lack::Close(co), 1, 2),
    open("${10%%", 1, Lack::Close(co), 1, 2),
    open("${##", 1, Lack::Close(co), 1, 2),
    open("$((", 0, Lack::Operand, 4, 2),
    open("$((1+", 0, Lack::Operand, 4, 2),
    open("$((x", 0, Lack::Operand, 4, 2),
    open("$((x)", 0, Lack::Operand, 4, 2),
    open("(", 0, Lack::Close(po), 0, 0),
    open("(a;", 0, Lack::Close(po), 0, 0),
    open("(a #c\n", 0, Lack::Close(po), 0, 0),
    open("{ a; ", 0, Lack::Close(co), 0, 0),
    open("{\n\na\n", 0, Lack::Close(co), 0, 0),
    open("if a;", 0, Lack::Word("if", "then"), 0, 0),
    open("if a; then b;", 0, Lack::Word("if", "fi"), 0, 0),
    open("if a\nthen b\nelif c;", 0, Lack::Word("if", "then"), 0, 0),
    open("if a; then b; elif c; then d\n", 0, Lack::Word("if", "fi"), 0, 0),
    open("if a; then b; else c;", 0, Lack::Word("if", "fi"), 0, 0),
    open("while a;", 0, Lack::Word("while", "do"), 0, 0),
    open("until a\n", 0, Lack::Word("until", "do"), 0, 0),
    open("while a; do b;", 9, Lack::Word("do", "done"), 0, 0),
    open("for x in a; do b;", 12, Lack::Word("do", "done"), 0, 0),
    open("for x; do b\n", 7, Lack::Word("do", "done"), 0, 0),
    open("for x in ", 0, Lack::Operand, 1, 0),
    open("for x in a;", 0, Lack::Word("for", "do"), 3, 0),
    open("for x ", 0, Lack::Word("for", "in"), 3, 0),
    open("for x;", 0, Lack::Word("for", "do"), 3, 0),
    open("for ", 0, Lack::Operand, 3, 0),
    open("case ", 0, Lack::Operand, 3, 0),
    open("case a ", 0, Lack::Word("case", "in"), 3, 0),
    open("case a in ", 0, Lack::Word("case", "esac"), 3, 0),
    open("case a in b", 0, Lack::Word("case", "esac"), 3, 0),
    open("case a in (b|c)", 0, Lack::Word("case", "esac"), 0, 0),
    open("case a in b)", 0, Lack::Word("case", "esac"), 0, 0),
    open("case a in b) c;; d) e;", 0, Lack::Word("case", "esac"), 0, 0),
    open("case a in b) c;; ", 0, Lack::Word("case", "esac"), 3, 0),
    open("case a in b|", 0, Lack::Operand, 3, 0),
    open("f() ", 0, Lack::Operand, 3, 0),
    open("f(", 0, Lack::Operand, 3, 0),
    open("function ", 0, Lack::Operand, 3, 0),
    open("function f ", 0, Lack::Operand, 3, 0),
    open("function f (a;", 11, Lack::Close(po), 0, 0),
    open("a | ", 0, Lack::Operand, 3, 0),
    open("a && ", 0, Lack::Operand, 3, 0),
    open("a ||\n#c\n", 0, Lack::Operand, 3, 0),
    open("! ", 0, Lack::Operand, 3, 0),
    open("a >", 0, Lack::Operand, 3, 0),
    open("a 2>&", 0, Lack::Operand, 3, 0),
    open("a <<", 0, Lack::Operand, 3, 0),
    open("{ ", 0, Lack::Operand, 3, 0),
    open("if ", 0, Lack::Operand, 3, 0),
    open("if a; then ", 0, Lack::Operand, 3, 0),
    open("if a; then b; else ", 0, Lack::Operand, 3, 0),
    open("while ", 0, Lack::Operand, 3, 0),
    open("while a; do ", 0, Lack::Operand, 3, 0),
];
/// Constructs open one inside the other: the innermost one is reported.
#[no_mangle]
pub extern "C" fn h_unclosed() {
    let n = OPENS.len() as u32;
    if param(9) == 1 {
        note("family: OPEN1 OPEN2 OPEN3 (thorough: OPEN4) and a character, where each may stand inside the one before");
        for o in OPENS {
            note(&format!("family: OPEN {:?}", o.t));
        }
        return;
    }
    declare(n);
    let most = if param(0) > 0 { 4 } else { 3 };
    let mut text: Vec<char> = Vec::new();
    // what was opened: where, and what it lacks; the outermost backquote hides everything inside
    let mut last: Option<(usize, Lack)> = None;
    let mut inside = 0;
    let mut hidden = false;
    let mut k = 0;
    for c in ["", "a ", "x;\n", "é\n\n", "'q\n' ", "y <<E\n\nE\n", "z \\\n"][choice(7) as usize].chars() {
        text.push(c);
    }
    let start = text.len();
    for d in 0..most {
        if d > 0 && (inside >= 3 || choice(2) == 0) {
            break;
        }
        k = choice(n);
        let o = &OPENS[k as usize];
        // (not an arithmetic expansion which it seems to be)
        assume(!(d > 0 && text.ends_with(&['$', '(']) && o.t.starts_with('(')));
        // may it stand here?
        assume(match inside {
            0 => o.kind <= 2 && (o.kind > 0 || d > 0 || start == 0 || text[start - 1] == '\n' && text[start - 2] != '\\'),
            1 => o.kind == 1 || o.kind == 2,
            _ => o.kind == 2,
        });
        if !hidden {
            last = Some((text.len() + o.at, o.lack));
        }
        for c in o.t.chars() {
            text.push(c);
        }
        inside = o.inside;
        if let Lack::Close(f) = o.lack {
            if f() == Token::Backtick {
                hidden = true;
            }
        }
    }
    // a little more inside
    if inside == 0 || inside == 2 || (inside == 3 && hidden) {
        match choice(3) {
            0 => {}
            1 => text.push('w'),
            _ => {
                text.push('w');
                text.push('\n');
            }
        }
    }
    let src = Src::chars(&text);
    let place = |i: usize| {
        let mut p = start_pos();
        for &c in &text[..i] {
            p.byte += c.len_utf8();
            if c == '\n' {
                p.line += 1;
                p.col = 1;
            } else {
                p.col += c.len_utf8();
            }
        }
        p
    };
    let (at, lack) = last.unwrap();
    let end: SourcePos = place(text.len());
    let expected: ParseError<tr::Boom> = match lack {
        Lack::Close(t) => ParseError::Unmatched(t(), place(at)),
        Lack::Word(c, w) => ParseError::IncompleteCmd(c, place(at), w, end),
        Lack::Operand => ParseError::UnexpectedEOF,
    };
    let mut p = parser(&src);
    let got = loop {
        match p.complete_command() {
            Ok(Some(_)) => {}
            Ok(None) => break None,
            Err(e) => break Some(e),
        }
    };
    let got = match &got {
        Some(e) => tr::err(e, POSITIONS),
        None => b"no error".to_vec(),
    };
    observe(&got);
    check(got == tr::err(&expected, POSITIONS), 1, || format!("source {:?}\n  parser: {}\n  expected: {:?}", src.text(), show(&got), expected));
    cover(k);
}
/// Scripts cut at every point.
#[no_mangle]
pub extern "C" fn h_cut() {
    if param(9) == 1 {
        for s in SCRIPTS {
            note(&format!("family: every prefix of {:?}, and an arbitrary character", s));
        }
        return;
    }
    declare(1);
    let s = SCRIPTS[choice(SCRIPTS.len() as u32) as usize];
    let i = choice(s.len() as u32 + 1) as usize;
    assume(s.is_char_boundary(i));
    let src = Src::parts(&[&s.as_bytes()[..i], if param(0) > 0 { "①②" } else { "①" }.as_bytes()], &[ASCII0, ASCII0], &[]);
    agree(&src, POSITIONS);
    cover(0);
}
/// Everything derived, cut anywhere.
#[no_mangle]
pub extern "C" fn h_cut_in() {
    static ROOTS: &[Root] = &[root!(2, 2, "Ⓛ"), root!(1, 2, "c Ⓦ"), root!(1, 2, "c \"Ⓓ\"Ⓦ"), root!(1, 2, "c ${ⒾⓄⓅⓅ}"), root!(1, 2, "c $((Ⓐ))"), root!(1, 1, "aⓇⓇ b"), root!(1, 1, "c <<E⓪ⓇⓈⓁ\nⓁ"), root!(1, 2, "f() Ⓛ")];
    over_text(ROOTS, true, false, |t| {
        let i = choice(t.v.len() as u32 + 1) as usize;
        let src = if param(0) > 0 { Src::after(&t.v[..i], "①", &[ASCII0], &[]) } else { Src::chars(&t.v[..i]) };
        agree(&src, POSITIONS);
    });
}
/// Everything derived, with another blank somewhere.
#[no_mangle]
pub extern "C" fn h_blanks_in() {
    static ROOTS: &[Root] = &[root!(2, 2, "Ⓛ"), root!(1, 2, "ⓁⓈⓁ"), root!(1, 2, "c Ⓦ Ⓦ"), root!(1, 2, "c \"Ⓓ\" Ⓦ"), root!(1, 2, "c ${xⓄⓅⓅ}"), root!(1, 2, "c $((Ⓐ))"), root!(1, 2, "aⓇⓇ b"), root!(1, 2, "c <<E⓪ⓇⓈⓁ\nⓁ")];
    over_text(ROOTS, true, false, |t| {
        let src = Src::chars(&t.v);
        let n = t.blanks.len() as u32;
        let g = choice(n + t.gaps.len() as u32 + 1);
        assume(g < n + t.gaps.len() as u32);
        let at = if g < n { t.blanks[g as usize] } else { t.gaps[(g - n) as usize] };
        let b = BLANKS[choice(if param(0) > 0 { BLANKS.len() as u32 } else { 4 }) as usize];
        let mut v = t.v[..at].to_vec();
        v.extend(b.chars());
        v.extend_from_slice(&t.v[if g < n { at + 1 } else { at }..]);
        let other = Src::chars(&v);
        let a = real(&other, ERRORS);
        observe(&a);
        want(&other, "with one blank or none", &a, &real(&src, ERRORS));
    });
}
derived!(h_unclosed_in, SCANNED, |src| {
    agree(src, POSITIONS);
});
derived!(h_positions_in, ANYTHING, |src| {
    agree(src, POSITIONS);
});
derived!(h_comments_in, ANYTHING, comments_agree);
