//! Sources in which something occurs often, is long, or is deeply nested.
use crate::run::{case, over_all, Case};
use crate::sets::*;
use crate::src::Src;

/// Long tokens, and many of them.
pub static TOKENS: &[Case] = &[
    case!("Ⓐ①Ⓑ", [ASCII], [&[
        "×24⟨   ⟩", "×24⟨abc⟩", "×40⟨é7⟩", "×24⟨123⟩", "×33⟨\\\\⟩", "×33⟨\n⟩", "×33⟨<⟩", "×33⟨;⟩", "×33⟨$⟩", "×11⟨$1⟩", "×33⟨\t⟩\r", "×33⟨\u{a0}⟩", "×12⟨a ⟩", "_×40⟨4⟩",
    ], &["", "b", " ", "&", "\\c"]]),
    case!("a×99⟨bc⟩×99⟨de⟩①", [ASCII]),
    case!("×99⟨  ⟩×99⟨ \t⟩①", [ASCII]),
];
pub static WORDS: &[Case] = &[
    case!("x Ⓐ①Ⓑ", [ASCII], [&[
        "×24⟨abc⟩", "×20⟨a\"b\"'c'⟩", "×40⟨\\a⟩", "'×33⟨ab ⟩'", "\"×33⟨ab ⟩\"", "\"×12⟨a$b`c`⟩\"", "×08⟨*?[]~:⟩", "\"×33⟨\\$⟩\"", "×33⟨é⟩", "×20⟨''⟩", "×20⟨\"\"⟩", "×20⟨{}⟩", "×12⟨#!⟩", "'×12⟨a\n⟩'",
        "×12⟨$x⟩", "×12⟨`y`⟩",
    ], &["", "b", "'c'", "\"d\"", "*", "\\e"]]),
    case!("x×40⟨ y⟩①Ⓐ", [ASCII], [&["", "z", "*", "'q'"]]),
    case!("x×12⟨ 'y' \"z\" \\w⟩①", [ASCII]),
];
pub static PARAMS: &[Case] = &[
    case!("x ×12⟨$x${y}$1$@⟩①y", [ASCII]),
    case!("x \"×12⟨$x${y}$1$@⟩①y\"", [ASCII]),
    case!("x ${×24⟨abc⟩①}", [ASCII0]),
    case!("x ${xⒶ×20⟨a b;c|'}'⟩①}", [ASCII0], [&["-", ":=", "%%", "#"]]),
    case!("x ×09⟨${x:-a⟩①×09⟨}⟩y", [ASCII0]),
    case!("x ×09⟨\"${x%⟩①×09⟨}\"⟩y", [ASCII0]),
    case!("x ${①4294967Ⓐ}", [DIGIT0], [&["295", "296", "294", "2950", "29", "3000"]]),
    case!("x ${×20⟨0⟩①7}", [ASCII0]),
    case!("x ${×20⟨9⟩①}", [ASCII0]),
    case!("x ${#×20⟨a⟩①}", [ASCII0]),
];
pub static SUBSTS: &[Case] = &[
    case!("x ×08⟨$(a ⟩①×08⟨)⟩ y", [ASCII0]),
    case!("x ×08⟨\"$(a ⟩①×08⟨)\"⟩ y", [ASCII0]),
    case!("x ×08⟨$(a ${b-⟩①×08⟨})⟩ y", [ASCII0]),
    case!("x $(×24⟨a;⟩①b) y", [ASCII0]),
    case!("x `×24⟨a;⟩①b` y", [ASCII0]),
    case!("x `×24⟨a\\$b ⟩①b` y", [ASCII0]),
    case!("x×16⟨ $(a)`b`⟩①", [ASCII0]),
    case!("x ×08⟨$(case a in b) c;; esac;⟩①×08⟨)⟩", [ASCII0]),
    case!("x ×05⟨$(a `b ⟩①×05⟨`)⟩ y", [ASCII0]),
    case!("x ×08⟨$( (a) ; ⟩①×08⟨)⟩", [ASCII0]),
    case!("x ×08⟨$((1 + ⟩$(x①)×08⟨))⟩", [ASCII0]),
];
pub static ARITH: &[Case] = &[
    case!("x $((×20⟨(⟩1①×20⟨)⟩))", [ASCII0]),
    case!("x $((1×24⟨ⓐx⟩①2))", [ASCII0], [&["+", "-", "*", "/", "%", "<<", ">>", "<", "==", "&", "^", "|", "&&", "||", ",", "**"]]),
    case!("x $((×16⟨x=⟩①1))", [ASCII0]),
    case!("x $((×24⟨- ⟩①x))", [ASCII0]),
    case!("x $((×24⟨!~⟩①x))", [ASCII0]),
    case!("x $((×12⟨1?2:⟩①3))", [ASCII0]),
    case!("x $((×12⟨1?⟩①3×12⟨:2⟩))", [ASCII0]),
    case!("x $((×09⟨x+=(⟩①3×09⟨)⟩))", [ASCII0]),
    case!("x $((×12⟨ x++ + ⟩①y))", [ASCII0]),
    case!("x $((Ⓐ①))", [HEX0], [&["922337203685477580", "9223372036854775808", "0x7fffffffffffff", "0x7fffffffffffffff", "077777777777777777777", "0777777777777777777777", "0x×20⟨0⟩7", "0×30⟨0⟩7", "×20⟨9⟩", "0X×17⟨f⟩", "01×20⟨7⟩"]]),
    case!("x $((×24⟨abc⟩①))", [ASCII0]),
];
pub static REDIRS: &[Case] = &[
    case!("x×24⟨ 2>f⟩①", [ASCII0]),
    case!("x ①Ⓐ>f", [DIGIT0], [&["×20⟨0⟩2", "6553", "65535", "65536", "131072", "4294967297", "×20⟨9⟩", "1000", "18446744073709551617"]]),
    case!("x >&①Ⓐ", [ASCII0], [&["×20⟨0⟩2", "65536", "×20⟨9⟩", "×20⟨9⟩a", "×12⟨$x1⟩", "×12⟨'1'\"2\"⟩"]]),
    case!("{ a; }×24⟨ <f⟩①", [ASCII0]),
    case!("x >×12⟨a'b'$c⟩①", [ASCII0]),
    case!("×24⟨>f ⟩①x", [ASCII0]),
];
pub static HEREDOCS: &[Case] = &[
    case!("c ⒶⒷE Ⓒ\n①\th\n\t$x\n\tE\nd\nE\n", [BL0], [&["", "0", "3", "10", "12", "255", "65535", "65536"], &["<<", "<<-"], &["", "a", ">f", "<<-'E'"]]),
    case!("c×09⟨ <<E⟩①\n×09⟨b$x\nE\n⟩d", [ASCII0]),
    case!("c <<A <<B <<C <<D <<F <<G\n1\nA\n2\nB\nⒶ\nC\n4\nD\n5\nF\n6\nⒷ\nG\nh", [], [&["3", "A", "D", "$x", ""], &["6", "A", "F", "`y`", "G"]]),
    case!("c <<E\n×24⟨x$y\n⟩①E\nd", [ASCII0]),
    case!("c <<'E'\n×24⟨x$y\n⟩①E\nd", [ASCII0]),
    case!("c <<-E\n×12⟨\t\t\t\t\t\t\t\t\tx\n⟩①E\nd", [ASCII0]),
    case!("c <<-E\n\t\t\t\t\t①\t\tE\n\t\tE\nd", [BL0]),
    case!("c <<×24⟨abc⟩\n×24⟨abc⟩①\nh\n×24⟨abc⟩\nd", [ASCII0]),
    case!("c <<E\n×40⟨abc⟩①E\nE×40⟨ ⟩\nE\n", [ASCII0]),
    case!("c <<E×12⟨ a⟩①\nh\nE\nd", [ASCII0]),
    case!("c <<E | ×06⟨{ ⟩d <<F; ×06⟨};⟩\nh$x①\nE\ni\nF\n", [ASCII0]),
    case!("×06⟨c <<E;⟩①\n×06⟨h\nE\n⟩d", [ASCII0]),
    case!("×05⟨c <<E $(⟩d①×05⟨)⟩\n×05⟨h\nE\n⟩e", [ASCII0]),
    case!("c <<×06⟨'a'⟩×06⟨\\b⟩\nⒶ\n×06⟨a⟩×06⟨b⟩\nd", [], [&["$x", "×06⟨'a'⟩×06⟨\\b⟩", ""]]),
    case!("c <<E <<F <<G\nh\n①\nE\nF\n②\nG\nF\nG\n", [ASCII0, ASCII0]),
    case!("c <<E\n×30⟨\\$⟩×30⟨\\a⟩①\nE\n", [ASCII0]),
    case!("c <<E\n×20⟨\n⟩①\nE\n", [ASCII0]),
];
pub static SIMPLES: &[Case] = &[
    case!("×24⟨a=b ⟩①c=d e=f", [ASCII0]),
    case!("×24⟨a= ⟩①c=d e=f", [ASCII0]),
    case!("×12⟨a=b >f ⟩①c=d e=f", [ASCII0]),
    case!("×24⟨abc⟩①=d e=f", [ASCII0]),
    case!("a=×24⟨bc='d'⟩① e=f", [ASCII0]),
    case!("x×24⟨ a=b⟩①c", [ASCII0]),
    case!("x×12⟨ if { }⟩①then", [ASCII0]),
];
pub static LISTS: &[Case] = &[
    case!("a×20⟨ⓐb⟩①c", [ASCII0], [&["&&", "||", "|", ";", "&", "\n", " | \n", "&&\n\n", "|| #c\n"]]),
    case!("a×12⟨&&b||c|d⟩①e", [ASCII0]),
    case!("! a×12⟨|b⟩①e && ! f", [ASCII0]),
    case!("a×12⟨ && ! b⟩①e", [ASCII0]),
    case!("a |×20⟨\n⟩①b", [ASCII0]),
    case!("a &&×12⟨ #c\n⟩①b", [ASCII0]),
    case!("×20⟨a &\n⟩①b", [ASCII0]),
];
pub static COMPOUND: &[Case] = &[
    case!("×09⟨{ ⟩a①×09⟨;}⟩ b", [ASCII0]),
    case!("×09⟨(⟩a①×09⟨)⟩ b", [ASCII0]),
    case!("×06⟨if a; then ⟩b①×06⟨;fi⟩ c", [ASCII0]),
    case!("×06⟨while a; do ⟩b①×06⟨;done⟩ c", [ASCII0]),
    case!("×06⟨until ⟩b①×06⟨;do c;done⟩ c", [ASCII0]),
    case!("×06⟨for x in y; do ⟩b①×06⟨;done⟩ c", [ASCII0]),
    case!("×06⟨case x in y) ⟩b①×06⟨;; esac⟩ c", [ASCII0]),
    case!("case a in×16⟨ b|c) d;;⟩① esac", [ASCII0]),
    case!("case a in (×16⟨b|⟩①c) d; esac", [ASCII0]),
    case!("case a in b)×16⟨c;⟩① ;; d) esac", [ASCII0]),
    case!("if a; then b;×12⟨ elif c; then d;⟩① else e; fi f", [ASCII0]),
    case!("for x in×24⟨ y⟩①; do b; done", [ASCII0]),
    case!("for x in y;×12⟨\n⟩① do b;×12⟨ c;⟩ done", [ASCII0]),
    case!("while×09⟨ a;⟩ do×09⟨ b;⟩① done", [ASCII0]),
    case!("if×09⟨ a;⟩ then×09⟨ b;⟩① else×09⟨ c;⟩ fi", [ASCII0]),
    case!("{×24⟨ a;⟩①} >f", [ASCII0]),
    case!("{×12⟨ #c\n⟩a①\n×12⟨#d\n⟩}", [ASCII0]),
    case!("(×12⟨(a);⟩{ b;}①)", [ASCII0]),
    case!("×03⟨{ if a; then (while b; do ⟩c①×03⟨; done) fi; }⟩", [ASCII0]),
];
pub static FUNCS: &[Case] = &[
    case!("×06⟨f() { ⟩a①×06⟨;}⟩ b", [ASCII0]),
    case!("×06⟨function f { ⟩a①×06⟨;}⟩ b", [ASCII0]),
    case!("×06⟨f() ⟩{ a①; }", [ASCII0]),
    case!("×24⟨abc⟩①() { a; }", [ASCII0]),
    case!("function ×24⟨abc⟩① { a; }", [ASCII0]),
    case!("f()×12⟨\n⟩①{ a; }×12⟨ >f⟩", [ASCII0]),
    case!("f×12⟨ \t⟩①(×12⟨ ⟩)×12⟨ ⟩{ a; }", [ASCII0]),
    case!("function×12⟨ ⟩f×12⟨ \\\n⟩①(×12⟨a;⟩)", [ASCII0]),
    case!("×12⟨f() (a);⟩①g() (b)", [ASCII0]),
];
/// Comments, newlines and blanks.
pub static LAYOUT: &[Case] = &[
    case!("×20⟨#c\n⟩①a", [ASCII0]),
    case!("a #×24⟨bc ⟩①\nd", [ASCII0]),
    case!("a×20⟨\n⟩①b", [ASCII0]),
    case!("×12⟨a #b\n⟩①#c", [ASCII0]),
    case!("a×20⟨ \\\n⟩①b", [ASCII0]),
    case!("a×24⟨ \t⟩①b×20⟨\\\n⟩c", [ASCII0]),
    case!("×20⟨\n⟩①×20⟨ #x\n⟩", [ASCII0]),
];
pub static ALL: &[&[Case]] = &[TOKENS, WORDS, PARAMS, SUBSTS, ARITH, REDIRS, HEREDOCS, SIMPLES, LISTS, COMPOUND, FUNCS, LAYOUT];
/// More than 255 of something: counts which might be kept in a byte. One choice each, so that they cost little.
pub mod huge {
    use super::*;
    const END: &[&str] = &["", "b", " ", "\n", ";", "'", "\\"];
    pub static TOKENS: &[Case] = &[case!("ⒶⒷ", [], [&[
        "÷26⟨a⟩", "÷26⟨4⟩", "÷26⟨ ⟩", "÷26⟨é⟩", "÷26⟨\n⟩", "÷26⟨\\a⟩", "÷26⟨<⟩", "÷26⟨$⟩", "÷26⟨;⟩", "×64⟨    ⟩", "×64⟨abcd⟩", "×64⟨1234⟩", "×64⟨abcd⟩\n",
    ], END])];
    pub static WORDS: &[Case] = &[case!("x ⒶⒷ", [], [&[
        "÷26⟨a⟩", "'÷26⟨a⟩'", "\"÷26⟨a⟩\"", "÷26⟨\\a⟩", "÷26⟨*⟩", "÷26⟨'a'⟩", "÷26⟨y ⟩", "\"÷26⟨\\$⟩\"", "'÷26⟨\n⟩'", "÷26⟨''⟩", "÷26⟨{}⟩", "\"÷26⟨$x⟩\"",
    ], END])];
    pub static PARAMS: &[Case] = &[case!("x ⒶⒷ", [], [&["÷26⟨$x⟩", "${÷26⟨a⟩}", "${÷26⟨0⟩7}", "${÷26⟨9⟩}", "${x-÷26⟨a⟩}", "${x-÷26⟨a ⟩}", "${#÷26⟨a⟩}", "${x%÷26⟨\\}⟩}"], END])];
    pub static SUBSTS: &[Case] = &[case!("x ⒶⒷ", [], [&["$(÷26⟨a;⟩)", "`÷26⟨a ⟩`", "`÷26⟨\\$⟩`", "÷26⟨`a`⟩", "÷26⟨$(a)⟩", "$(a÷26⟨\n⟩)", "`a ÷26⟨\\\\⟩`", "$(x '÷26⟨)⟩')"], END])];
    pub static ARITH: &[Case] = &[case!("x $((Ⓐ))Ⓑ", [], [&["÷26⟨a⟩", "÷26⟨0⟩7", "0x÷26⟨0⟩7", "÷26⟨1⟩", "a÷26⟨+b⟩", "a÷26⟨-b⟩", "a÷26⟨*b⟩", "a÷26⟨,b⟩", "÷26⟨ ⟩a", "÷13⟨a=⟩b", "a÷13⟨&&b⟩"], END])];
    pub static REDIRS: &[Case] = &[
        case!("xⒶⒷ", [], [&["÷26⟨ >f⟩", " ÷26⟨0⟩2>f", " ÷26⟨2⟩>f", " >÷26⟨f⟩", " >&÷26⟨0⟩1", " <>'÷26⟨f⟩'"], END]),
        case!("Ⓐx", [], [&["÷26⟨>f ⟩", "÷26⟨a=b ⟩>f ", "{ y; }÷26⟨ >f⟩;"]]),
    ];
    pub static HEREDOCS: &[Case] = &[
        case!("c <<ⒶEⒷ\nⒸ\nE\nd", [], [&["", "-", "'F'", "-\"F\""], &["", " >f"], &["÷26⟨a\n⟩", "÷26⟨a⟩", "÷26⟨\t⟩b", "÷26⟨\n⟩", "÷26⟨$x⟩", "÷26⟨\\a⟩", "÷26⟨\ta\n⟩E\nFE"]]),
        case!("c <<÷26⟨a⟩\nh\nⒶ\n÷26⟨a⟩\nd", [], [&["÷25⟨a⟩", "÷27⟨a⟩", "x"]]),
    ];
    pub static SIMPLES: &[Case] = &[case!("ⒶⒷ", [], [&["÷26⟨a=b ⟩c", "÷26⟨a= ⟩c", "÷26⟨a⟩=c", "a=÷26⟨b⟩", "a÷26⟨ b=c⟩", "÷26⟨a=b ⟩"], END])];
    pub static LISTS: &[Case] = &[case!("ⒶⒷ", [], [&["a÷26⟨&&b⟩", "a÷26⟨||b⟩", "a÷26⟨|b⟩", "a÷26⟨;b⟩", "a÷26⟨&b⟩", "a÷26⟨\nb⟩", "a |÷26⟨\n⟩b", "a &&÷26⟨\n⟩b", "a÷13⟨ && ! b⟩"], END])];
    pub static COMPOUND: &[Case] = &[case!("ⒶⒷ", [], [&[
        "{÷26⟨ a;⟩}", "(÷26⟨ a;⟩)", "for x in÷26⟨ y⟩; do a; done", "for x in y; do÷26⟨ a;⟩ done", "while÷26⟨ a;⟩ do b; done", "until a; do÷26⟨ b;⟩ done", "if÷26⟨ a;⟩ then b; fi",
        "if a; then÷26⟨ b;⟩ else c; fi", "if a; then b;÷26⟨ elif c; then d;⟩ else e; fi", "case a in÷26⟨ b) c;;⟩ esac", "case a in ÷26⟨b|⟩c) d; esac", "case a in b)÷26⟨ c;⟩;; d) esac", "case x÷26⟨\n⟩in y) z; esac", "for x÷26⟨\n⟩in y; do z; done",
    ], &["", ";b", " >f", "\n"]])];
    pub static FUNCS: &[Case] = &[case!("ⒶⒷ", [], [&["÷26⟨f⟩() { a; }", "function ÷26⟨f⟩ { a; }", "f()÷26⟨\n⟩{ a; }", "f÷26⟨ ⟩() { a; }", "f(÷26⟨ ⟩) { a; }", "f() {÷26⟨ a;⟩ }", "f() { a; }÷26⟨ >g⟩", "f() (÷26⟨a;⟩)"], &["", ";b", " >f", "\n"]])];
    pub static LAYOUT: &[Case] = &[case!("ⒶⒷ", [], [&["÷26⟨#c\n⟩a", "a #÷26⟨b⟩", "a÷26⟨\n⟩b", "÷26⟨\n⟩", "a÷26⟨ ⟩b", "a÷26⟨ \\\n⟩b", "÷26⟨a #b\n⟩", "{ #÷26⟨b⟩\na; }", "'÷26⟨a\n⟩' )", "÷26⟨\n⟩)", "÷26⟨a⟩)", "÷26⟨é⟩ )"], END])];
    pub static ALL: &[&[Case]] = &[TOKENS, WORDS, PARAMS, SUBSTS, ARITH, REDIRS, HEREDOCS, SIMPLES, LISTS, COMPOUND, FUNCS, LAYOUT];
}
/// The given families, and all of these.
pub fn over_huge<F: FnOnce(&Src)>(cases: &'static [Case], f: F) {
    let mut l = vec![cases];
    l.extend_from_slice(ALL);
    l.extend_from_slice(huge::ALL);
    over_all(&l, f)
}
/// The given families, and all of these but the huge ones.
pub fn over_big<F: FnOnce(&Src)>(cases: &'static [Case], f: F) {
    let mut l = vec![cases];
    l.extend_from_slice(ALL);
    over_all(&l, f)
}
