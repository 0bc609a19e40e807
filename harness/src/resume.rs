//! After an error, the parser goes on in the same source.
use crate::big::over_big;
use crate::gen::derived;
use crate::rt::*;
use crate::run::*;
use crate::scripts::*;
use crate::sets::*;
use crate::spec::P;
use crate::src::*;
use crate::tr::{Tr, B};
use conch_parser::parse::ParseError;

/// Where the token an error names ends.
fn named<X>(e: &ParseError<X>) -> Option<usize> {
    match e {
        ParseError::Unexpected(t, p) | ParseError::BadSubst(t, p) => Some(p.byte + t.as_str().len()),
        ParseError::BadIdent(s, p) => Some(p.byte + s.len()),
        ParseError::IncompleteCmd(_, _, _, p) => Some(p.byte),
        ParseError::BadFd(_, p) => Some(p.byte),
        _ => None,
    }
}
/// C28: commands are asked for again and again, after errors too.
fn goes_on(src: &Src, errors: u32) {
    let mut p = parser(src);
    let mut q = P::new(src, Tr::new());
    let mut told: B = Vec::new();
    let mut left = errors;
    loop {
        let before = p.pos().byte;
        let a = p.complete_command();
        let b = q.complete_command();
        let (mut x, mut y) = (Vec::new(), Vec::new());
        let named = match &a {
            Err(e) => named(e),
            _ => None,
        };
        let failed = a.is_err();
        let more = step(&mut x, ERRORS, a, p.pos());
        step(&mut y, ERRORS, b, q.pos());
        let which = errors - left;
        check(x == y, 1, || format!("source {:?}\n  after {} errors at byte {}: {}\n  it should be: {}", src.text(), which, before, show(&x), show(&y)));
        told.append(&mut x);
        if failed {
            let now = p.pos().byte;
            check(now >= before, 2, || format!("source {:?}\n  after {} errors the parser went back from {} to {}", src.text(), which, before, now));
            if let (Some(n), false) = (named, q.nested) {
                let n = q.next_from(n);
                check(now <= n, 3, || format!("source {:?}\n  error {} is about what ends at {}, but the parser is at {}", src.text(), which, n, now));
            }
            q.nested = false;
            check(q.seek(now), 4, || format!("source {:?}\n  after {} errors the parser is at {}, in the middle of something", src.text(), which, now));
            if left == 0 {
                break;
            }
            left -= 1;
        } else if !more {
            break;
        }
    }
    observe(&told);
}

/// What is wrong by itself, and leaves something after it.
const WRONG: &[&str] = &[
    ")", ";;", "${!}", "${x!y}", "$((1 2))", "$((1+", "`)`", "`(`", "`${!}`", "`a|`", "`if`", ">&a", "> ;", "<<\n", "<<E\n${!} a\nE\n", "<<E\n`)` b\nE\n", "<<-E\n\ta\n\t${!}\n\tb\nE\n", "\"${!}\"", "\"`)`\"", "$(a;;)",
    "$(${!}", "'", "\"", "${x", "a &&", "| b", "&& c", "if ; then", "if a; fi", "if a; then fi", "while a; done", "for 1 in", "for x a", "case a b", "case a in )", "case a in b c", "{ }", "{ a )", "()", "(a;;", "f() g", "f(a", "function 1", "function f g", "! ;", "{a;} >f }", "(a) b", "x <<E | )\nh\nE\n", "${x-${!}}",
    "`a <<E\n${!}\nE\n`", "$(a <<E\n`)`\nE\n)", "$$1)", "$((a<<-${!}))", "\\", "\\\n)", "#)\n)",
];
const MORE: &[&str] = &["", "b", "\n", ";", " c 'd'", "\ne <<F\ng\nF\nh", "`i`", "}", "fi", "done", "\"", "\n#j\nk"];
static RESUMED: &[Case] = &[
    case!("ⒶⒷⒷ", [], [WRONG, MORE]),
    case!("ⒷⒶ\nⒷ\nx", [], [WRONG, MORE]),
    case!("ⒶⒷⒶ\nl $m", [], [WRONG, &["", " ", "\n", ";", "x", "x "]]),
    case!("①②③\na", [ASCII, ASCII0, ASCII0]),
    case!("`①②`a\nb", [ASCII, ASCII0]),
    case!("x <<E ①\n②③\nE\na <<F\nb\nF\n", [ASCII0, ASCII0, ASCII0]),
    case!("x <<E <<F Ⓐ\n$Ⓑ\nE\n`Ⓑ\nF\nc\nd", [], [&["", ";", ")", "b", ">"], &["{!}", "{a!}", "{a", "(", "(;;)", "((1 2))", "a", ")` x", "`", "a;;`"]]),
    case!("{ a <<E; ⒷⒶ; }\n$x\nE\n}\nb", [], [WRONG, &["", "c;", "'\nd'"]]),
    case!("$(Ⓐ) Ⓑ", [], [WRONG, MORE]),
    case!("`Ⓑ $(Ⓐ)` Ⓑ", [], [&[")", ";;", "${!}", "a", "a|", "\\`)\\`", "\\${!}", "\\\\a", "((1 2))"], MORE]),
    case!("\"aⒶb\" c\nd", [], [WRONG]),
    case!("if a; then ⒶⒷ; fi\nc", [], [WRONG, MORE]),
    case!("case Ⓐ in Ⓑ) c;; esac\nd", [], [WRONG, MORE]),
    case!("for x in Ⓐ; do Ⓑ; done >Ⓑ\nd", [], [WRONG, &["a", ")", "${!}", "$(;;"]]),
    case!("f() { Ⓐ; Ⓑ}\nd", [], [WRONG, MORE]),
    case!("$((Ⓐ Ⓑ))x\ny", [], [&["1", "x", "++", "1 2", "(", ")", "`)`", "${!}", "<<-", "08", "x=", "?", "1:"], MORE]),
    deep!("①②③④\na", [ASCII, ASCII0, ASCII0, ASCII0]),
    deep!("ⒶⒷⒶⒷ", [], [WRONG, MORE]),
    deep!("x <<E ①\n②③④\nE\na <<F\nb\nF\n", [ASCII0, ASCII0, ASCII0, ASCII0]),
];
#[no_mangle]
pub extern "C" fn h_resume() {
    over_big(RESUMED, |src| goes_on(src, if param(0) > 0 { 6 } else { 3 }));
}
#[no_mangle]
pub extern "C" fn h_resume_scripts() {
    goes_on(&mutated(SCRIPTS), if param(0) > 0 { 6 } else { 3 });
}
derived!(h_resume_in, ANYTHING, |src| goes_on(src, if param(0) > 0 { 6 } else { 3 }));
