//! Whole scripts, with a change somewhere.
use crate::rt::*;
use crate::run::list_script;
use crate::sets::*;
use crate::src::*;

/// Every construct, mixed.
pub static SCRIPTS: &[&str] = &[
    "a b; c\n",
    "a 'b c' \"d $e\"f\\ g # h\n i",
    "x=1 y= z='2' a >f 2>&1 <g\n",
    "a | b |\n c && ! d ||\n#e\n f & g",
    "{ a; b; } >f; (c; d) 2>g\n",
    "if a; then b; elif c; then d; else e; fi >f\n",
    "while a; do b; done; until c\ndo d\ndone",
    "for x in a b $c; do d; done | e\n",
    "for x do a; done\nfor y\ndo b; done",
    "case $a in b|c) d;; (e) f\n;; *) esac\n",
    "case a in #b\n c) #d\n e ;; #f\n esac #g",
    "f() { a; }\ng ()\n(b) >c\n",
    "function f { a; }; function g() (b)\nfunction h (c)",
    "a <<E b\nc $d\nE\ne",
    "a <<-'E' <<F\n\tb $c\n\tE\nd `e`\nF\n",
    "a $(b $(c) `d \\`e\\` f`) \"$(g \"h\")\"",
    "a ${b} ${c:-d} ${#e} \"${f%%*}\" ${1##\"}\"} $# $10 $$1",
    "a $((1 + x * 2 ** y)) $((x = y ? z : 010, ++w))",
    "a $((-x-- << (0xF & !~y) || 1 <= 2))\n",
    "! { a; } | (b) &\n\n#c\n\n d",
    "a \\\n b\\\nc;\\\n d # e\\\n f",
    "a* ~/b? [c-d]e: =f {g} }h %i @j",
    "if { a; } then (b) fi; { if a; then b; fi }",
    "case x in if) then;; esac; for in in in; do in; done",
    "a <<E; b <<F | c\n$(d)\nE\ne\\$\nF\n f",
    "x=$(a <<E\nb\nE\n) \"`c`\" y=`d`e",
    "a 'b\nc' \"d\ne\" `f\ng` $(h\ni)\nj",
    "éà=1 ü 'ö' \"$é\" #ñ\n漢字",
    "if a\n#b\nthen\n#c\nd\n#e\nfi #f\n",
    "{ a #b\n#c\n}\n( #d\ne; #f\n)\n",
    "a&&b||c|d;e&f<g>h>>i>|j<>k<&1>&-",
    "f () (a) >b; if f() { b; }; then c; fi",
];

/// A script with one character added, removed or replaced, or cut short.
pub fn mutated(scripts: &'static [&'static str]) -> Src {
    mutated_with(scripts, &[ASCII0])
}
/// Some characters which matter.
pub const FEW: &Set = &[(10, 10), (32, 32), (34, 34), (36, 36), (38, 38), (41, 41), (59, 60), (96, 96), (120, 120), (NONE, NONE)];
/// (The set contains the absence of a character.)
pub fn mutated_with(scripts: &'static [&'static str], set: &'static [&'static Set]) -> Src {
    declare(3);
    if param(9) == 1 {
        for s in scripts {
            list_script(s);
        }
        return Src::chars(&[]);
    }
    let only = param(1);
    let n = scripts.len() as u32;
    let k = if only >= 1 && only <= n { only - 1 } else { choice(n) };
    let s = scripts[k as usize];
    let b = s.as_bytes();
    let p = choice(b.len() as u32 + 1) as usize;
    assume(s.is_char_boundary(p));
    let how = choice(3);
    cover(how);
    match how {
        0 => Src::parts(&[&b[..p], "①".as_bytes(), &b[p..]], set, &[]),
        1 => {
            let mut q = p + 1;
            while q < b.len() && !s.is_char_boundary(q) {
                q += 1;
            }
            assume(q <= b.len());
            Src::parts(&[&b[..p], "①".as_bytes(), &b[q..]], set, &[])
        }
        _ => Src::parts(&[&b[..p]], &[], &[]),
    }
}
/// A script, cut at a place.
pub fn cut(scripts: &'static [&'static str]) -> Src {
    let s = scripts[choice(scripts.len() as u32) as usize];
    let p = choice(s.len() as u32 + 1) as usize;
    assume(s.is_char_boundary(p));
    Src::parts(&[&s.as_bytes()[..p]], &[], &[])
}
