//! The parser against the reference, family by family.
use crate::big;
use crate::gen::{derived, root};
use crate::run::*;
use crate::sets::*;

// ---------------------------------------------------------------- words and quoting
const PIECES: &[&str] = &[
    "a", "B2", "_", "7", "\\①", "'①'", "\"①\"", "\"$x①\"", "$x", "$1", "${x}", "$(c)", "`c`", "*", "?", "[", "]", "~", ":",
    "=", "#", "{", "}", "!", "-", "%", "@", "^", "/", ",", "+", "$", "é", "\\\n", "''", "\"\"", ".",
];
const BITS: &[&str] = &[
    "a", "7", "\\x", "'q'", "\"q\"", "$x", "*", "?", "[", "]", "~", ":", "=", "#", "{", "}", "!", "-", "$", ".", "\\\n", "", " ",
    "%", ",", "\\",
];
static WORDS: &[Case] = &[
    case!("①②③", [ASCII, ASCII, ASCII]),
    case!("x ⒷⒶⒷ", [ASCII], [PIECES, BITS]),
    case!("x \"①②③\"y", [ASCII, ASCII0, ASCII0]),
    case!("x '①②③'y", [ASCII, ASCII0, ASCII0]),
    case!("x a\"b①②", [ASCII, ASCII]),
    case!("x \\①\\②z", [ASCII, ASCII]),
    case!("x \"\\①\\②\"", [ASCII, ASCII]),
    case!("x \"a$①\"'b②'\\③", [ASCII, ASCII, ASCII]),
    case!("x ①é②ü③", [UNI, UNI, ASCII]),
    case!("x \"ⒶⒶⒶ\"", [], [&["a", "'", "\\\"", "\\$", "\\a", "\\\n", "\n", "$x", "${x}", "`c`", "$(c)", " ", "#", "*", "~", "(", "$", "\\\\", "`c \\\"q\\\"`", "$(c \"q\")", "${x-\"q\"}"]]),
    deep!("①②③④", [ASCII, ASCII, ASCII, ASCII]),
    deep!("x ⒶⒷⒷⒷ", [ASCII], [PIECES, BITS]),
    deep!("x \"①②③④\"y", [ASCII, ASCII0, ASCII0, ASCII0]),
];
#[no_mangle]
pub extern "C" fn h_words() {
    over_all(&[WORDS, big::WORDS, big::huge::WORDS], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- parameters
const PARAM: &[&str] = &["x", "_y1", "1", "10", "0", "@", "*", "#", "?", "-", "$", "!", "=", "", "é", "4294967295", "4294967296", "1a", "x.", "%"];
const OP: &[&str] = &["", "-", ":-", "=", ":=", "?", ":?", "+", ":+", "%", "%%", "#", "##", ":", "::", "/", "###", "%%%", "-="];
const OPWORD: &[&str] = &["", "a", " ", "a b", "$y", "${z-w}", "'}'", "\"}\"", "\\}", "`c`", "$(c)", "#", "\n", "\\\n", "a\\\nb", "|(;", "x#y", "*", "~:"];
static PARAMS: &[Case] = &[
    case!("$①②", [ASCII, ASCII0]),
    case!("a$①②\"$①\"", [ASCII, ASCII0]),
    case!("${①②③", [ASCII, ASCII, ASCII0]),
    case!("${①②③}", [ASCII, ASCII0, ASCII0]),
    case!("${x①②③}", [ASCII, ASCII0, ASCII0]),
    case!("${#①②}", [ASCII, ASCII0]),
    case!("c ${ⒶⒷⒸ}d", [], [PARAM, OP, OPWORD]),
    case!("c \"${ⒶⒷⒸ}d\"", [], [&["x", "12", "#", "@", "?"], OP, OPWORD]),
    case!("c <<E\n${ⒶⒷⒸ}d\nE\n", [], [&["x", "1", "#"], &["", "-", ":-", "=", ":=", "?", ":?", "+", ":+", "%", "%%", "#", "##"], OPWORD]),
    case!("${xⒷ${ⒶⒷ①}}", [ASCII0], [&["y", "#", "2"], &["-", ":-", "=", "?", ":+", "%", "##"]]),
    case!("${①②③}", [DIGIT, DIGIT0, DIGIT0]),
    case!("${42949672①②}", [DIGIT, DIGIT]),
    case!("${①294967295}", [DIGIT0]),
    case!("$é ${①}", [UNI]),
    deep!("$①②③", [ASCII, ASCII0, ASCII0]),
    deep!("${①②③④}", [ASCII, ASCII0, ASCII0, ASCII0]),
    deep!("c ${ⒶⒷⒸⒸ}d", [], [PARAM, OP, OPWORD]),
];
#[no_mangle]
pub extern "C" fn h_params() {
    over_all(&[PARAMS, big::PARAMS, big::huge::PARAMS], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- command substitution
const INSIDE: &[&str] = &[
    "a", "a b", "", " ", "\n", "#c\n", "#c", ";", "&", "|b", "&&b", "(b)", "{ b; }", "$x", "\"q\"", "'q'", ">f", "if a; then b; fi", "!",
    "case a in b) c;; esac", "f() { a; }", "\"(\"", "')'", "\\)", "`d`", "$(d)", "${x}", "<<E\nh\nE\n",
];
const TICKED: &[&str] = &["a", " ", "\\\\", "\\`", "\\$", "\\\"", "\"", "'", "$x", "\\a", "\\", "#", "\n", ";", "(", ")", "$(", "${x}", "\\\\\\`", "é", "1", "&&", "<<E", "ab"];
static SUBSTS: &[Case] = &[
    case!("x $(①②③)", [ASCII, ASCII0, ASCII0]),
    case!("x `①②③`", [ASCII, ASCII0, ASCII0]),
    case!("x `①②", [ASCII, ASCII]),
    case!("x $(①②", [ASCII, ASCII]),
    case!("x $(ⒶⒶ)y", [], [INSIDE]),
    case!("x \"$(ⒶⒶ)\"y", [], [INSIDE]),
    case!("x `ⒶⒶ`y", [], [INSIDE]),
    case!("x `ⒶⒶⒶ`y", [], [TICKED]),
    case!("x \"`ⒶⒶ`\"y", [], [TICKED]),
    case!("x \"`①②`\"y", [ASCII, ASCII0]),
    case!("c <<E\n`ⒶⒶ`$(a)\nE\n", [], [TICKED]),
    case!("x $(Ⓐ $(Ⓐ))", [], [INSIDE]),
    case!("x `Ⓐ \\`Ⓐ\\``", [], [&["a", "\\\\\\\\", "\\\\\\`c\\\\\\`", "\\\\\\$x", "\\$x", "\"\\`\"", "'q'", "$(b)", ""]]),
    case!("`a`Ⓐ`b`", [], [BITS]),
    case!("x `ⒶⒷⒸⒷ d` y", [], [&["if", "f", "{", "!", "a", "1", "fi", "case", "(f", "", "x=", ">&", "for", "#", "f()"], &["\\\\", "\\$", "\\$x", "\\`", "\\\\\n", "\\\\\\$", "", " ", "("], &["", "a", "if", "()", "=", "1", ">", "-", "\n"]]),
    case!("x `\\\\①②③`", [ASCII, ASCII, ASCII0]),
    case!("x `a\\$①② \\`\\\\\\$③\\`)", [ASCII, ASCII0, ASCII0]),
    deep!("x $(①②③④)", [ASCII, ASCII0, ASCII0, ASCII0]),
    deep!("x `①②③④`", [ASCII, ASCII0, ASCII0, ASCII0]),
    deep!("x `ⒶⒶⒶⒶ`y", [], [TICKED]),
    deep!("x $(ⒶⒶⒶ)y", [], [INSIDE]),
];
#[no_mangle]
pub extern "C" fn h_substs() {
    over_all(&[SUBSTS, big::SUBSTS, big::huge::SUBSTS], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- arithmetic
const BIN: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||", "?b:", "?b,c:", ",",
    "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|=", "++", "--", "!", "~", "",
];
const OPD: &[&str] = &["x", "1", "$y", "-x", "+1", "!x", "~x", "++x", "--x", "x++", "x--", "(x)", "(x,y)", "", " x ", "\\\n1", "- -x", "-(x)", "1++", "${x}", "$(c)", "x y", "08", "0x1F", "x1a"];
static ARITH: &[Case] = &[
    case!("$((①②③))", [ASCII, ASCII0, ASCII0]),
    case!("$((x①②③y))", [ASCII, ASCII0, ASCII0]),
    case!("$((ⒷⒶⒷ))", [], [BIN, OPD]),
    case!("$((aⒶ1ⒶcⒶ4))", [], [BIN]),
    case!("$((a Ⓐ-b Ⓐ!c))", [], [BIN]),
    case!("$((xⒶ(yⒶz)Ⓐw))", [], [&["+", "-", "*", "/", "**", "<<", "<", "==", "&", "|", "&&", "||", "?b:", ",", "="]]),
    case!("$((xⒶyⒶzⒶwⒶv))", [], [&["+", "*", "**", "<<", "<", "==", "&", "^", "|", "&&", "||", "?b:", ",", "="]]),
    case!("$((①②③④))", [HEX0, HEX0, HEX0, HEX0]),
    case!("$((0①②③))", [HEX0, HEX0, HEX0]),
    case!("$((9223372036854775①②③))", [DIGIT, DIGIT, DIGIT]),
    case!("$((0x①②fffffffffffff③))", [HEX0, HEX0, HEX0]),
    case!("$((0①77777777777777777777②))", [DIGIT0, DIGIT]),
    case!("\"$((Ⓐ))\"", [], [OPD]),
    case!("$((xⒶ", [], [BIN]),
    case!("$((x①②", [ASCII, ASCII]),
    case!("$((x)①②", [ASCII, ASCII0]),
    case!("$((②x①Ⓐ③y②))", [BL0, BL0, BL0], [BIN]),
    deep!("$((①②③④))", [ASCII, ASCII0, ASCII0, ASCII0]),
    deep!("$((ⒷⒶⒷⒶⒷ))", [], [&["+", "-", "*", "**", "<<", "<", "==", "&", "|", "&&", "||", "?b:", ",", "=", "++"], &["x", "1", "-x", "!x", "++x", "x++", "(x)", ""]]),
];
#[no_mangle]
pub extern "C" fn h_arith() {
    over_all(&[ARITH, big::ARITH, big::huge::ARITH], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- redirections
const REDIR: &[&str] = &["<", ">", ">>", ">|", "<>", "<&", ">&"];
const TARGET: &[&str] = &["f", "1", "-", "", "10", "1a", "a1", "'1'", "\"2\"", "\"1a\"", "$x", "\"$x\"1", "`c`", "$(c)", "\\1", "\\a", "*", "-1", "-\n", "1$x", "${x}a", "~", "\"a$x\"", "1'a'", "''", "\\\n3", "#f", "+1"];
static REDIRS: &[Case] = &[
    case!("x ①ⒶⒷ", [DIGIT0], [REDIR, TARGET]),
    case!("ⒶⒷ②y", [BL0, BL0], [REDIR, TARGET]),
    case!("①②③④⑤>f", [DIGIT0, DIGIT0, DIGIT0, DIGIT0, DIGIT0]),
    case!("x 65①②③Ⓐf", [DIGIT, DIGIT, DIGIT0], [&["<", ">&1 "]]),
    case!("x ①②③>f", [ASCII, ASCII0, ASCII0]),
    case!("x >①②③", [ASCII, ASCII0, ASCII0]),
    case!("x >&①②③", [ASCII, ASCII0, ASCII0]),
    case!("x <&①②", [ASCII, ASCII0]),
    case!("x Ⓑ①Ⓐ1", [BL0], [REDIR, &["1", "'1'", "\"1\"", "\\1", "$x", "1\\\n", "a", "1a", "+1", "-", "0000001", "99999", "1\"\"", "é1", "1#"]]),
    case!("{ x; }①1Ⓐ②Ⓑ③y", [BL0, BL0, BL0], [REDIR, &["f", "1", "-", "a"]]),
    case!("(x)①Ⓐ②f 2>&1", [ASCII0, BL0], [REDIR]),
    case!("fⒶa 1ⒶbⒷ2Ⓐc", [], [REDIR, &[" ", "x", " x ", ";", "&", "\n", "1", "\\\n"]]),
    case!("if a; then b; fiⒶⒷⒶⒷ", [], [&[" >f", ">&2", " 3<g", " a", " 12", "<<E", "", ">"], &["", ";", " b", "|c"]]),
    case!("x >f①②g", [ASCII, ASCII0]),
    case!("x ①②Ⓐ E\nh\nE\n", [DIGIT0, DIGIT0], [&["<<", "<<-", "<<E 0<"]]),
    case!("x Ⓐ①Ⓑ②E\nh\nE\n", [BL0, BL0], [&["0", "1", "00", "65535", "65536", "\\0", "'0'", "0\\\n", "$x", "-0", "x0", "f 0>0 0"], &["<<", "<<-"]]),
    case!("{ x; }Ⓐ①Ⓐ②E\nh\nE\nh\nE\n", [DIGIT0, DIGIT0], [&["<<", "<<-", " ", "", ">f 0<<", "E 0<<"]]),
    deep!("x ①②③④>f", [ASCII, ASCII0, ASCII0, ASCII0]),
    deep!("x >&①②③④", [ASCII, ASCII0, ASCII0, ASCII0]),
];
#[no_mangle]
pub extern "C" fn h_redirs() {
    over_all(&[REDIRS, big::REDIRS, big::huge::REDIRS], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- heredocs
const DELIM: &[&str] = &["E", "'E'", "\"E\"", "\\E", "E'O'F", "E\"O\"F", "\"E F\"", "`E`", "$E", "${E}", "$(E)", "E\\ F", "'E", "''", "\"a\\\"b\"", "\"a\\b\"", "`a\\b`", "(E)", "E(a)", "\\\n", "1E", "E#", "#E", "*", "\"E\\\nF\"", "é"];
const CLOSED: &[&str] = &["E", "E", "E", "E", "EOF", "EOF", "E F", "`E`", "$E"];
const LINE: &[&str] = &["", "a", "E", "\tE", " E", "E ", "EE", "EOF", "$x", "\\$x", "`c`", "$(c)", "\"q\"", "\\\\", "\\", "a\tb", "\t\ta", "'", "${x}", "E\r", "`E`", "E F", "#", "é"];
static HEREDOCS: &[Case] = &[
    case!("c <<E\n①②③", [ASCII, ASCII0, ASCII0]),
    case!("c <<E\n①②\nE\nd", [ASCII, ASCII0]),
    case!("c <<'E'\n①②\nE\nd", [ASCII, ASCII0]),
    case!("c <<-E\n①②③E\n", [ASCII0, ASCII0, ASCII0]),
    case!("c <<①②\n③\nd", [ASCII, ASCII0, ASCII0]),
    case!("c <<Ⓐ\nⒷ\nE\nEOF\nd", [], [DELIM, LINE]),
    case!("c <<Ⓐ\na\nⒷ\nb\nd", [], [DELIM, &["E", "EOF", "E F", "`E`", "$E", "${E}", "$(E)", "a\"b", "a\\b", "`a\\b`", "(E)", "E(a)", "1E", "E#", "*", "é", "'E", "E\\ F"]]),
    case!("c <<-Ⓐ\nⒷ\nⒷ\n\tE\nd", [], [&["E", "'E'", "\\E"], LINE]),
    case!("c <<E <<F\nⒶ\nⒶ\nⒶ\nⒶ\nd", [], [&["E", "F", "a", "$x"]]),
    case!("c <<EⒶ\nh\nE\nⒷ", [], [&["", " a", ";d", "|d", "&& d", " #c", " # it's", "#q", " >f", " \"q\nE\n\"", " 'q\nr'", " $(d\ne)", " \\\n f", "&", " (", ")", " `", " \"", " #`\"", ";# '", " $(d)#'q'", " <<F", "; (d)#'", ";(d) #'", " \\\n#'", "\\\n#'", " >f#'", "&#\"", "|#`\n(d)", " $(d)\\\n#q", ";{ d;}#'", " $(d)#'q\nr'", " 'd'#\"\nE\n\"", " a#`e\nf`", " \\a#'\nE'", " $x#$(e\n)", " ${x}#'\n'", " \"d\"#\\\n'\n'", "\\ #'\n'"], &["", "e", "\n"]]),
    case!("c Ⓐ<<Ⓑ E\nh\nE\n", [], [&["", "1", "12", "a", "70000", "+1"], &["", "-", "<"]]),
    case!("x $(c <<E\nⒶ\nE\n) y", [], [LINE]),
    case!("x \"$(c <<E\nⒶ\nE\n)\" y", [], [LINE]),
    case!("x `c <<E\nⒶ\nE\n` y", [], [LINE]),
    case!("{ c <<E; d <<F; }\nⒶ\nⒷ\nF\ne", [], [LINE, &["E", "a"]]),
    case!("if a <<E; then\nⒶ\nE\nb; fi <<F\nⒶ\nF", [], [LINE]),
    case!("c <<E\nⒶⒶⒶ\nE", [], [&["a", "$x", "\\$", "\\`", "\\\"", "\\a", "\\\\", "\\\n", "\"", "'", "`c`", "${x-y}", "$((1+2))", "$", "#", "\n", "*", " "]]),
    case!("c <<-E\n①②a③b\n④E\nd", [BL0, BL0, BL0, BL0]),
    case!("c <<E\na\nE①\nE\nd", [ASCII0]),
    case!("c <<'E'\na\nE①②", [ASCII0, ASCII0]),
    case!("c <<①E\nE\n", [ASCII0]),
    deep!("c <<E\n①②③\nE\nd", [ASCII, ASCII0, ASCII0]),
    deep!("c <<-E\n①②③④E\n", [ASCII0, ASCII0, ASCII0, ASCII0]),
    deep!("c <<Ⓐ\nⒷ\nⒷ\nE\nEOF\nd", [], [DELIM, LINE]),
    deep!("c <<Ⓐ <<Ⓐ\nⒷ\nⒷ\nⒷ\nE\nd", [], [&["E", "'F'", "-E"], &["E", "F", "\tE", "a", "$x", "\\", ""]]),
];
#[no_mangle]
pub extern "C" fn h_heredocs() {
    over_all(&[HEREDOCS, big::HEREDOCS, big::huge::HEREDOCS], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- simple commands
const SIMPLE: &[&str] = &["a ", "x=1 ", "x= ", "x=", "=", "1=2 ", "x=y=z ", ">f ", "2>&1 ", "<g ", "\"x\"=1 ", "$x ", "x=$y ", "x='a b' ", "x=\\\n", "#c", "\\\n", "if ", "12 ", "x=#a ", "é=1 ", "x+=1 ", "-", "x=~ ", "x=<h "];
static SIMPLES: &[Case] = &[
    case!("ⒶⒶⒶ", [], [SIMPLE]),
    case!("①②=③", [ASCII, ASCII0, ASCII0]),
    case!("x=①②③", [ASCII, ASCII0, ASCII0]),
    case!("x=1①y=2②z=3", [ASCII0, ASCII0]),
    case!("a①x=②", [ASCII0, ASCII0]),
    case!(">f①x=②", [ASCII0, ASCII0]),
    case!("x=y>f z=w①u=v", [ASCII0]),
    case!("a Ⓐ", [], [&["if", "then", "do", "done", "{", "}", "!", "case", "esac", "in", "for", "function", "fi", "x=1", "a=", "{}", "!a", "{a", "}a", "while", "until", "else", "elif", "(", ")"]]),
    case!("①①①", [&[(32, 33), (34, 39), (40, 41), (59, 62), (97, 97), (92, 92), (10, 10), (124, 124)]]),
    deep!("ⒶⒶⒶⒶ", [], [SIMPLE]),
    deep!("①②③④", [ASCII, ASCII, ASCII, ASCII]),
];
#[no_mangle]
pub extern "C" fn h_simples() {
    over_all(&[SIMPLES, big::SIMPLES, big::huge::SIMPLES], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- lists, pipelines, separators
const LIST: &[&str] = &["a", "b ", "!", "! ", "|", "| ", "||", "&&", "&& ", ";", "&", "\n", "#c\n", "(", ")", "{ ", "}", "\\\n", " ", ";;", "x=1"];
static LISTS: &[Case] = &[
    case!("ⒶⒶⒶⒶ", [], [LIST]),
    case!("a①②③b", [ASCII, ASCII0, ASCII0]),
    case!("aⒶbⒶcⒶdⒶe", [], [&["|", "||", "&&", ";", "&", "\n", "| ! ", "&& ! ", "|\n#q\n", "&&\n\n"]]),
    case!("①a②|③b④", [BL0, BL0, BL0, BL0]),
    case!("aⒶⒷbⒶⒷc", [], [&["|", "||", "&&", ";", "&", ";;", "\n"], &["", "\n", " #c\n", "\n\n #c\n", "\\\n", " ", "#c", "!", "! "]]),
    case!("!①a②|③b", [BL0, ASCII0, ASCII0]),
    case!("! aⒶbⒶ! c", [], [&["|", "||", "&&", ";", "&"]]),
    case!("a & bⒶc &", [], [&["&", ";", "&&", "\n", "|"]]),
    deep!("ⒶⒶⒶⒶⒶ", [], [LIST]),
    deep!("a①②③④b", [ASCII, ASCII0, ASCII0, ASCII0]),
];
#[no_mangle]
pub extern "C" fn h_lists() {
    over_all(&[LISTS, big::LISTS, big::huge::LISTS], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- compound commands
const SEP: &[&str] = &["; ", "\n", " ", "&", " #c\n", ";\n", ""];
const KW: &[&str] = &["if ", "then ", "else ", "elif ", "fi ", "while ", "until ", "do ", "done ", "for ", "in ", "case ", "esac ", "{ ", "} ", "(", ")", ";", "\n", "a ", ";;", "x"];
static COMPOUND: &[Case] = &[
    case!("ⒶⒶⒶⒶ", [], [KW]),
    case!("if aⒶthen bⒶelif cⒶthen dⒶelse eⒶfi", [], [&["; ", "\n", " ", "&"]]),
    case!("ifⒶaⒶthenⒶbⒶfi", [], [SEP]),
    case!("if a; then b; ⒶⒶfi", [], [&["else c; ", "elif c; ", "elif c; then d; ", "else ", "then e; ", "", "elif ", "fi ", "else\n#c\ne\n"]]),
    case!("ⒶⒷaⒷdoⒷbⒷdone", [], [&["while", "until"], SEP]),
    case!("forⒶxⒷinⒷa bⒷdoⒷcⒷdone", [], [&[" ", "\n", "\\\n", "", " #c\n"], &["; ", "\n", " ", " #c\n"]]),
    case!("for xⒶⒶⒶ", [], [&["in ", "in", "a ", "; ", "\n", "#c\n", "do ", "do b; done", " ", "$y "]]),
    case!("for x①in②a③do b; done", [ASCII0, ASCII0, ASCII0]),
    case!("for ①② in a; do b; done", [ASCII, ASCII0]),
    case!("caseⒶaⒷinⒷⒸesac", [], [&[" ", "\n", "", "\\\n"], &[" ", "\n", " #c\n", ";", ""], &["", "a) b;; ", "a|b) c;; ", "(a) b;; ", "a) ;; ", "a) b; ", "a) b\n", "a) #c\nb #d\n;; #e\n", "#c\n", "a) b ", "a) b;; c) d;; ", "a|b|c) d;; ", "a|) b;; ", "|a) b;; ", "() b;; ", "a b) c;; ", "esac) a;; ", "(esac) a;; ", "a) ;;;; ", "a) b;; #c\n\n#d\n"]]),
    case!("case x in ⒶⒶⒶⒶ", [], [&["a", "|", ")", "(", ";;", "b;", "\n", "esac", " ", "#c\n"]]),
    case!("case a in ①②③ esac", [ASCII, ASCII0, ASCII0]),
    case!("case a in b) ①②③ esac", [ASCII, ASCII0, ASCII0]),
    case!("{Ⓐa①②}", [ASCII0, ASCII0], [&[" ", "\n", "", "\\\n", "#c\n"]]),
    case!("(Ⓐa①②)", [ASCII0, ASCII0], [&[" ", "\n", "", "\\\n", "#c\n"]]),
    case!("{ ⒶⒶⒶ}", [], [&["a", "; ", "\n", "}", "{ ", "(b)", " #c\n", "&", ")", "}a", " "]]),
    case!("(ⒶⒶⒶ)", [], [&["a", "; ", "\n", ")", "(", "{ b; }", " #c\n", "&", "}", " "]]),
    case!("①②③ a; then b; fi", [&[(105, 105), (97, 97), (34, 34), (92, 92), (NONE_, NONE_)], &[(102, 102), (39, 39), (97, 97), (NONE_, NONE_)], ASCII0]),
    case!("Ⓐif a①then b; ②fi③", [ASCII0, ASCII0, ASCII0], [&["", "a; ", "x=1 "]]),
    case!("Ⓐ aⒷ", [], [&["\"if\"", "'if'", "\\if", "i\\f", "i'f'", "if", "$if", "IF", "iff", "if1", "{", "\\{", "\"{\"", "{}", "while", "wh\"ile\"", "case", "for", "function", "(", "\\("], &["; then b; fi", "; do b; done", "; }", " in esac", ")", ""]]),
    case!("if { a; Ⓐ then (b)Ⓑ while c; do d; doneⒷ fi", [], [&["} ;", "};", "}", "} | e;"], &[";", "\n", " | f;", " >g;", ""]]),
    deep!("ⒶⒶⒶⒶⒶ", [], [KW]),
    deep!("case x in ⒶⒶⒶⒶⒶ", [], [&["a", "|", ")", "(", ";;", "b;", "\n", "esac", " ", "#c\n"]]),
    deep!("if aⒶⒶⒶⒶfi", [], [&["; ", "\n", "then ", "else ", "elif ", "b", "fi"]]),
    deep!("{ ⒶⒶⒶⒶ}", [], [&["a", "; ", "\n", "}", "{ ", "(b)", " #c\n", "&", ")", "}a", " "]]),
];
const NONE_: u32 = crate::src::NONE;
#[no_mangle]
pub extern "C" fn h_compound() {
    over_all(&[COMPOUND, big::COMPOUND, big::huge::COMPOUND], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- functions
static FUNCS: &[Case] = &[
    case!("ⒶfⒷⒸⒹ", [], [
        &["", "function ", "function\\\n", "function\n", "function", "function  "],
        &["()", " ()", "( )", "(\\\n)", "", " ", "\n", "(", "()()", " (a)", "( a; )", " (#c\n)", " (\n)", "(\n)", " (#c\na)", " (a #c\n)", "\\\n()", "  ()", " ( )", "(#c\n)", " #c\n"],
        &["", " ", "\n", " #c\n", "\n\n", "\\\n", ";", "&"],
        &["{ a; }", "(a)", "{ a; } >g", "(a) >g 2>&1", "if a; then b; fi", "a", "", "while a; do b; done <g", "for x in y; do z; done", "case a in esac", "{a; }", "g() { b; }", ">g { a; }"]
    ]),
    case!("①②() { a; }", [ASCII, ASCII0]),
    case!("function ①② { a; }", [ASCII, ASCII0]),
    case!("function ①② (a)③", [LETTER, ASCII0, ASCII0]),
    case!("f①②③ { a; }", [ASCII0, ASCII0, ASCII0]),
    case!("function f①②③{ a; }", [ASCII0, ASCII0, ASCII0]),
    case!("function f①②③(a)", [ASCII0, ASCII0, ASCII0]),
    case!("Ⓐ() { b; }Ⓑ", [], [&["if", "x=1", "a b", "for", "function", "{", "é", "\"f\"", "$f", "1f", "f.g", "f-g", "_f", "then"], &["", ";c", "|c", " d", "\nc", " >g", "&& c", "&"]]),
    case!("if f() { a; }; then function g (b)Ⓐ fi", [], [&[";", "\n", " >h;", "| c;", ""]]),
    case!("f()①②(a)", [ASCII0, ASCII0]),
    deep!("f①②③④{ a; }", [ASCII0, ASCII0, ASCII0, ASCII0]),
    deep!("function f①②③④(a)", [ASCII0, ASCII0, ASCII0, ASCII0]),
];
#[no_mangle]
pub extern "C" fn h_funcs() {
    over_all(&[FUNCS, big::FUNCS, big::huge::FUNCS], |s| {
        agree(s, ERRORS);
    });
}

// ---------------------------------------------------------------- anything inside anything
derived!(h_words_in, [root!(2, 3, "c ⓌⓌⓌ"), root!(2, 3, "c \"ⒹⒹ\"Ⓦ"), root!(1, 2, "c ①Ⓦ①"), root!(1, 2, crate::gen::WORDS), root!(1, 2, crate::gen::QUOTED)], |s| {
    agree(s, ERRORS);
});
derived!(h_params_in, [root!(2, 3, "c ${ⒾⓄⓅⓅⓅⓅ}Ⓦ"), root!(2, 3, "c ${ⒾⓄp ⓅⓅ}"), root!(1, 2, "c ${ⒾⓄ$x'y' \"z\"ⓅⓅ}"), root!(1, 2, "c \"${ⒾⓄp `q`ⓅⓅ}\""), root!(2, 3, "c \"${ⒾⓄⓅⓅⓅ}Ⓓ\""), root!(2, 3, "c <<E\n${ⒾⓄⓅⓅ}Ⓗ\nE\n"), root!(2, 3, "c $ⒾⓌ"), root!(1, 2, crate::gen::SUBSTS)], |s| {
    agree(s, ERRORS);
});
derived!(h_substs_in, [root!(2, 3, "c $(Ⓛ)Ⓦ"), root!(2, 3, "c `Ⓛ`"), root!(2, 3, "c \"$(Ⓛ)`Ⓛ`\""), root!(2, 3, "c `ⒷⒷⒷⒷ` b")], |s| {
    agree(s, ERRORS);
});
derived!(h_arith_in, [root!(2, 3, "c $((Ⓐ))"), root!(2, 3, "c \"$((Ⓐ))\"Ⓦ"), root!(1, 2, crate::gen::OPERATORS)], |s| {
    agree(s, ERRORS);
});
derived!(h_redirs_in, [root!(2, 3, "aⓇⓇ b"), root!(2, 3, "{ a; }ⓇⓇ"), root!(2, 2, crate::gen::REDIRECTIONS)], |s| {
    agree(s, ERRORS);
});
derived!(h_heredocs_in, [root!(2, 3, "c <<EⓇ\nⒽⒽ\nE\nⓁ"), root!(2, 3, "c <<EⓈⓁ\nⒽ\nE\n"), root!(2, 3, "{ c <<-E; }Ⓡ\n\tⒽ\n\tE\n"), root!(2, 3, "c <<E Ⓦ\nⒽ\nE\n"), root!(1, 2, crate::gen::BODY), root!(2, 2, crate::gen::TABS), root!(2, 3, "c <<E ⒷⒷⒷ\nh\nE\n"), root!(2, 3, "c <<ⒷⒷⒷ\nh\n(((\na")], |s| {
    agree(s, ERRORS);
});
derived!(h_simples_in, [root!(2, 3, "x=ⓌⓇ Ⓦ Ⓦ"), root!(2, 3, "Ⓦ=ⓌⓇ Ⓦ"), root!(1, 2, crate::gen::PREFIXES), root!(1, 2, crate::gen::ARGUMENTS)], |s| {
    agree(s, ERRORS);
});
derived!(h_lists_in, [root!(2, 3, "ⓁⓈⓁ"), root!(2, 3, "Ⓛ|ⓃⓁ&&Ⓛ"), root!(2, 2, crate::gen::LISTS)], |s| {
    agree(s, ERRORS);
});
derived!(h_compound_in, [root!(2, 3, "Ⓛ"), root!(1, 2, crate::gen::GROUP), root!(1, 2, crate::gen::ARMS), root!(1, 2, crate::gen::BRANCHES), root!(2, 2, crate::gen::IF), root!(2, 2, crate::gen::LOOP), root!(2, 2, crate::gen::FOR), root!(2, 2, crate::gen::CASE)], |s| {
    agree(s, ERRORS);
});
derived!(h_funcs_in, [root!(2, 3, "f()Ⓝ ⓁⓇ"), root!(2, 3, "function fⓃ ⓁⓇ"), root!(2, 3, "ⓌⓉ(Ⓣ) { Ⓛ; }"), root!(2, 2, crate::gen::FUNCTION)], |s| {
    agree(s, ERRORS);
});
