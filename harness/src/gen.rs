//! Sources derived from a grammar: any construct inside any other.
use crate::rt::*;
use crate::sets::ASCII;
use crate::src::Src;

/// What a letter may stand for. The first is what it stands for by default; each of the others uses
/// up one unit of what is allowed. `①` is an arbitrary ASCII character; after a newline come the
/// bodies of the heredocs opened by `Ⓡ` (or by the root: `⓪`), or at the end.
const RULES: &[(char, &[&str])] = &[
    // commands
    ('Ⓛ', &[
        "a", "a Ⓦ", "Ⓦ", "Ⓦ Ⓦ", "x=Ⓦ", "x=ⓌⓇ Ⓦ", "ⓇⓉa", "aⓇ", "Ⓛ|ⓃⓁ", "Ⓛ&&ⓃⓁ", "Ⓛ||ⓃⓁ", "ⓁⓈⓁ", "! Ⓛ", "{ ⓃⓁⓈ}Ⓡ", "(ⓃⓁⓃ)Ⓡ",
        "if ⓁⓈthen ⓁⓈfiⓇ", "if ⓁⓈthen ⓁⓈelse ⓁⓈfi", "if ⓁⓈthen ⓁⓈelif ⓁⓈthen ⓁⓈfi", "while ⓁⓈdo ⓁⓈdoneⓇ", "until ⓁⓈdo ⓁⓈdone",
        "for xⓃ in Ⓦ ⓌⓈdo ⓁⓈdoneⓇ", "for xⓈdo ⓁⓈdone", "for x in;doⓃ ⓁⓈdone",
        "case Ⓦ in Ⓦ) Ⓛ;; esacⓇ", "case xⓃ inⓃ (Ⓦ|Ⓦ|Ⓦ) Ⓛ;;Ⓝ Ⓦ)Ⓝ esac", "case x in Ⓦ|b|c)Ⓝ;; Ⓦ) ⓁⓈesac", "case x in Ⓝesac",
        "f()Ⓝ { Ⓛ; }Ⓡ", "function fⓃ (Ⓛ)Ⓡ", "fⓉ() if Ⓛ; then Ⓛ; fi", "function f Ⓛ",
        "", "}", ")", "done", "esac", "then", "fi", "do", ";;", "①",
    ]),
    // words
    ('Ⓦ', &[
        "w", "ⓌⓌ", "'s'", "'s①'", "\"Ⓓ\"", "\\①", "$Ⓘ", "${Ⓘ}", "${ⒾⓄⓅ}", "${#Ⓘ}", "$(Ⓛ)", "`Ⓛ`", "$((Ⓐ))", "*", "?", "[", "]", "~", ":",
        "=", "x=y", "#b", "if", "{", "}", "!", "1", "1a", "$", "é", "''", "\"\"", "\\\n", "-", "①", "in", "esac",
    ]),
    // between double quotes
    ('Ⓓ', &[
        "d", "", "ⒹⒹ", "$Ⓘ", "${ⒾⓄⓅ}", "$(Ⓛ)", "`Ⓛ`", "$((Ⓐ))", "\\①", "①", "'", "\n", "#", "$", " ", "*", "~", "\\\n",
    ]),
    // the word of a substitution
    ('Ⓟ', &[
        "", "p", "ⓅⓅ", " ", "#", "\n", "'s}'", "\"Ⓓ\"", "\\}", "\\①", "$Ⓘ", "${ⒾⓄⓅ}", "$(Ⓛ)", "`Ⓛ`", "$((Ⓐ))", "*", "~", "①", "\\\n", "|", "(",
        ";", "1", "é", "$", "-", "{", ":", "#c", "%",
    ]),
    ('Ⓞ', &["-", ":-", "=", ":=", "?", ":?", "+", ":+", "%", "%%", "#", "##", ":", ""]),
    ('Ⓘ', &["x", "1", "@", "*", "#", "?", "-", "$", "!", "10", "_a1", "é", "0", "①"]),
    // arithmetic
    ('Ⓐ', &[
        "1", "x", "$Ⓘ", "Ⓐ+Ⓐ", "Ⓐ-Ⓐ", "Ⓐ*Ⓐ", "Ⓐ/Ⓐ", "Ⓐ%Ⓐ", "Ⓐ**Ⓐ", "Ⓐ<<Ⓐ", "Ⓐ>>Ⓐ", "Ⓐ<Ⓐ", "Ⓐ<=Ⓐ", "Ⓐ>Ⓐ", "Ⓐ>=Ⓐ", "Ⓐ==Ⓐ", "Ⓐ!=Ⓐ", "Ⓐ&Ⓐ",
        "Ⓐ^Ⓐ", "Ⓐ|Ⓐ", "Ⓐ&&Ⓐ", "Ⓐ||Ⓐ", "Ⓐ,Ⓐ", "Ⓐ?Ⓐ:Ⓐ", "Ⓐ?(Ⓐ,Ⓐ):Ⓐ", "x=Ⓐ", "x+=Ⓐ", "x-=Ⓐ", "x*=Ⓐ", "x/=Ⓐ", "x%=Ⓐ", "x<<=Ⓐ",
        "x>>=Ⓐ", "x&=Ⓐ", "x^=Ⓐ", "x|=Ⓐ", "(Ⓐ)", "-Ⓐ", "+Ⓐ", "!Ⓐ", "~Ⓐ", "++x", "--x", "x++", "x--", "$x", "07", "0x1F", "08", "", "①", " Ⓐ ",
        "\\\nⒶ", "\nⒶ",
    ]),
    // redirections
    ('Ⓡ', &[
        "", " >Ⓦ", "2>Ⓦ", " 2>Ⓦ", " <Ⓦ", ">>Ⓦ", " >|Ⓦ", "<>Ⓦ", " >&Ⓦ", " <&Ⓦ", " >&1", "<&-", " <<E", "<<-E", " 3<<'E'", "ⓇⓇ", " >", " a", " 12",
    ]),
    // newlines, or none
    ('Ⓝ', &["", "\n", "\n\n", " #c\n", "\\\n", "\n#c\n", " "]),
    // separators
    ('Ⓢ', &[";", "\n", "&", " #c\n", ";\n", "", " ;", "&\n#d\n", "\n #①\n", ";\n\n#e\n\n"]),
    // between commands
    ('Ⓚ', &["&&", "||", "|", "&&\n", "||\n\n", "|\n", " && #c\n", "|| #c\n\n#d\n", " | ", "\\\n&&", "&& ! ", "|\n\n\n", ";", "&", "\n"]),
    // before the command's name
    ('Ⓖ', &[
        "x=1 ", "y= ", "y=\n", ">f ", "2>f ", "3<&1 ", "x='a b' ", "x=$(y) ", "x==z ", "2 ", "1", "x=\\\n", "\\\n", "<<E ", "x=#c ", "#c\n", "x", "=",
        " x=①",
    ]),
    // after it
    ('Ⓜ', &[
        " w", "w", " 'q'", " >f", "2>f", " 2>f", " x=1", " \"d\"", "\\\n w", " \\\nw", " 1", " #c", " =", "\t$x", " {", "}", " !", " if", "#", "<<-E", " ①",
    ]),
    // arms of a case
    ('Ⓔ', &[
        "a) b;;", " (a|b) c;; ", "\na)\nb\n;;\n", "#c\n(a) ;;#d\n", "a|b|c)d;e;;", "\n\n\n", "*)b;;", "'a b') `c`;;", "a) b;", "a);;", "esac) b;;", "(esac) b;;",
        "a) b ;;\n\n#c\n", "a)#c\n\n#d\n;;", "①)b;;",
    ]),
    // branches of an if
    ('Ⓕ', &[
        "elif c;then d;", "elif c\n\nthen\nd\n", "elif c;e;then d;f;", "elif #c\nc;then #d\nd;", "else e;", "elif (c)then (d);", "elif c;d;", "then b;", "",
        "elif c&then d&#e\n\n", "fi;",
    ]),
    // operators
    ('Ⓥ', &[
        "+", "-", "*", "/", "%", "**", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||", ",", "?x:", "=", "++", "--", " + ", "\\\n-",
        "+-", "*!", "①",
    ]),
    // what is scanned for its end, unparsed
    ('Ⓑ', &[
        "(", "$(", "${x-", "'", "\"", "a", "'('", "\\(", "\"(\"", "(a)", "${b}", " ", "`", ")", "}", "$((", "\\`", "#", " #(\n", "\\\\", "'\"'", "\n", "{", "$", "$(b)", "\\'",
        "①",
    ]),
    // blanks
    ('Ⓣ', &["", " ", "\t", "\\\n"]),
    // heredocs
    ('Ⓗ', &["h", "", "ⒽⒽ", "$Ⓘ", "`Ⓛ`", "$(Ⓛ)", "${ⒾⓄⓅ}", "$((Ⓐ))", "E ", "\tE", "\\①", "①", "\"", "#", "\n", "\\\n", "\t"]),
];

pub struct Root {
    /// How many of the letters may stand for something else than by default, in the quick tier and in
    /// the thorough one.
    pub fuel: [u32; 2],
    pub t: &'static str,
}
macro_rules! root {
    ($q:expr, $d:expr, $t:expr) => { crate::gen::Root { fuel: [$q, $d], t: $t } };
}
/// A check of everything derived from some roots.
macro_rules! derived {
    ($name:ident, [$($r:expr),*], $f:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            static ROOTS: &[crate::gen::Root] = &[$($r),*];
            crate::gen::over_gen(ROOTS, $f);
        }
    };
    ($name:ident, $roots:ident, $f:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            crate::gen::over_gen(crate::gen::$roots, $f);
        }
    };
}
pub(crate) use {derived, root};

/// Where everything may go.
pub static ANYTHING: &[Root] = &[
    root!(2, 3, "Ⓛ"), root!(1, 2, "ⓁⓈⓁⓈⓁ"), root!(2, 2, "c Ⓦ"), root!(1, 2, "c ①Ⓦ①"), root!(2, 2, "c \"Ⓓ\"Ⓦ"), root!(2, 2, "c ${ⒾⓄⓅⓅ}"), root!(1, 2, "c \"${ⒾⓄⓅⓅ}\""),
    root!(2, 2, "c $((Ⓐ))"), root!(1, 2, "aⓇⓇ b"), root!(1, 2, "c <<EⓇⓈⓁ\nⒽ\nE\nⓁ"), root!(1, 2, "x=ⓌⓇ Ⓦ"), root!(1, 2, "`Ⓛ`\"`Ⓛ`\""),
    // sequences
    root!(1, 2, LISTS), root!(1, 2, GROUP), root!(1, 2, PREFIXES), root!(1, 2, ARGUMENTS), root!(1, 2, ARMS), root!(1, 2, BRANCHES),
    root!(1, 2, WORDS), root!(1, 2, QUOTED), root!(1, 2, SUBSTS), root!(1, 2, OPERATORS), root!(1, 2, REDIRECTIONS), root!(1, 2, BODY), root!(1, 2, TABS),
    root!(1, 2, IF), root!(2, 2, LOOP), root!(2, 2, FOR), root!(1, 2, CASE), root!(1, 2, FUNCTION),
];

/// Sequences of eight or more.
pub const LISTS: &str = "aⓀbⓀcⓀdⓀeⓀfⓀgⓀhⓀi";
pub const GROUP: &str = "{ aⓈbⓈcⓈdⓈeⓈfⓈgⓈhⓈ}";
pub const PREFIXES: &str = "ⒼⒼⒼⒼⒼⒼⒼⒼv=a w";
pub const ARGUMENTS: &str = "aⓂⓂⓂⓂⓂⓂⓂⓂ";
pub const ARMS: &str = "case x in ⒺⒺⒺⒺⒺⒺⒺⒺ esac";
pub const BRANCHES: &str = "if a;then b;ⒻⒻⒻⒻⒻⒻⒻⒻ fi";
pub const IF: &str = "if aⓈbⓈthen cⓈdⓈelse eⓈfⓈfiⓇ";
pub const LOOP: &str = "until aⓈbⓈcⓈdo dⓈeⓈfⓈdoneⓇⓇ";
pub const FOR: &str = "for xⓃin a bⓈdoⓃ cⓈdⓈdoneⓇⓇ";
pub const CASE: &str = "case xⓃinⓃ aⓉ|Ⓣb)Ⓝ cⓈdⓈ;;Ⓝ e)Ⓝ fⓈgⓈesacⓇⓇ";
pub const FUNCTION: &str = "fⓉ(Ⓣ)Ⓝ {Ⓝ (Ⓝ aⓈbⓈ$(cⓈdⓈ) `eⓈfⓈ`)ⓈgⓈ}ⓇⓇ";
pub const WORDS: &str = "Ⓦ*Ⓦ?Ⓦ*Ⓦ?Ⓦ*Ⓦ?Ⓦ*Ⓦ Ⓦ";
pub const QUOTED: &str = "\"Ⓓ$xⒹ$yⒹ$xⒹ$yⒹ$xⒹ$yⒹ$xⒹ\"";
pub const SUBSTS: &str = "${ⒾⓄⓅ*Ⓟ*Ⓟ*Ⓟ*Ⓟ*Ⓟ*Ⓟ}";
pub const OPERATORS: &str = "$((aⓋbⓋcⓋdⓋeⓋfⓋgⓋh))";
pub const REDIRECTIONS: &str = "aⓇⓇⓇⓇⓇⓇⓇⓇ";
pub const BODY: &str = "c <<E\nⒽ\nⒽ\nⒽ\nⒽ\nⒽ\nⒽ\nⒽ\nE\nⓁ";
pub const TABS: &str = "c <<-E\n\t\tⓉ\t\tⓉ\t${b;}\nE\n";

/// What is scanned for its end before it is parsed.
pub static SCANNED: &[Root] = &[
    root!(2, 3, "`ⒷⒷⒷⒷ"), root!(2, 3, "c \"`ⒷⒷⒷ`Ⓑ"), root!(3, 4, "c <<E ⒷⒷⒷ\nh\nE\n"), root!(2, 3, "c <<ⒷⒷⒷ\nh\n"), root!(2, 3, "{ c <<E (ⒷⒷ\nh\nE\nⒷⒷ"), root!(2, 3, "`c <<E ⒷⒷⒷ\nh\nE\nⒷ`"),
];

/// As above, for checks which take long.
pub static SOME: &[Root] = &[
    root!(2, 2, "Ⓛ"), root!(1, 2, "c Ⓦ"), root!(1, 2, "c \"Ⓓ\""), root!(1, 2, "c ${ⒾⓄⓅ}"), root!(1, 2, "c $((Ⓐ))"), root!(1, 2, "c <<EⓇⓈⓁ\nⒽ\nE\nⓁ"), root!(1, 2, "aⓇⓇ b"), root!(1, 2, LISTS), root!(1, 1, IF), root!(1, 1, LOOP), root!(1, 1, FOR), root!(1, 1, CASE), root!(1, 1, FUNCTION),
];

/// A derived text.
pub struct Text {
    pub v: Vec<char>,
    /// Blanks between words.
    pub blanks: Vec<usize>,
    /// Places next to an operator or newline where a blank may be added.
    pub gaps: Vec<usize>,
    /// The middle of blanks and words of two characters (only if asked for).
    pub halves: Vec<usize>,
}
/// Is it text in which blanks do nothing (`1`), or is it not (`0`), nor all that is in it (`2`)?
fn layer(rule: u32) -> u8 {
    match char::from_u32(rule) {
        Some('Ⓛ') | Some('Ⓡ') | Some('Ⓝ') | Some('Ⓢ') | Some('Ⓣ') | Some('Ⓐ') | Some('Ⓚ') | Some('Ⓖ') | Some('Ⓜ') | Some('Ⓔ') | Some('Ⓕ') => 1,
        Some('Ⓗ') => 2,
        _ => 0,
    }
}
fn operator(c: char) -> bool {
    match c {
        ';' | '|' | '&' | '<' | '>' | '(' | ')' | '=' => true,
        _ => false,
    }
}
/// An arbitrary derivation from `t`.
pub fn derive(t: &'static str, fuel: u32) -> Src {
    Src::chars(&derive_text(t, fuel, false, false).v)
}
/// An arbitrary derivation from `t`: without what could turn the text around it into something else
/// (`tame`: arbitrary characters, comments in words, nested backticks), with blanks and words of two
/// characters (`twice`).
pub fn derive_text(t: &'static str, mut fuel: u32, tame: bool, twice: bool) -> Text {
    let mut out: Vec<char> = Vec::new();
    let (mut blanks, mut gaps, mut halves) = (Vec::new(), Vec::new(), Vec::new());
    let mut todo: Vec<(&'static [u8], u8)> = vec![(t.as_bytes(), 1)];
    let mut pending = 0;
    let mut ticks = 0;
    let mut last = 0;
    loop {
        let n = todo.len();
        if n == 0 {
            if pending == 0 {
                break;
            }
            todo.push(("\n".as_bytes(), 1));
            continue;
        }
        let (b, kind) = todo[n - 1];
        if b.is_empty() {
            todo.pop();
            last = 0;
            continue;
        }
        let (c, len) = if b[0] < 0x80 {
            (b[0] as u32, 1)
        } else if b[0] < 0xE0 {
            ((b[0] as u32 & 0x1F) << 6 | (b[1] as u32 & 0x3F), 2)
        } else {
            ((b[0] as u32 & 0xF) << 12 | (b[1] as u32 & 0x3F) << 6 | (b[2] as u32 & 0x3F), 3)
        };
        todo[n - 1].0 = &b[len..];
        let next = if b.len() > len { b[len] } else { 0 };
        let before = last;
        last = c;
        if c == '①' as u32 {
            assume(!tame);
            out.push(any_char(ASCII));
            continue;
        }
        if c == '⓪' as u32 {
            pending += 1;
            continue;
        }
        let mut rule = RULES.len();
        if c >= 0x2460 && c <= 0x24FF {
            for (i, r) in RULES.iter().enumerate() {
                if r.0 as u32 == c {
                    rule = i;
                }
            }
        }
        if rule < RULES.len() {
            let forms = RULES[rule].1;
            let k = if fuel > 0 { choice(forms.len() as u32) } else { 0 };
            if k > 0 {
                fuel -= 1;
            }
            let form = forms[k as usize];
            if tame && k > 0 {
                let f = form.as_bytes();
                let mut wild = form == "#b" || form == "x=y" || form == "=";
                for i in 0..f.len() {
                    wild |= f[i] == 0xE2 && f[i + 1] == 0x91 && f[i + 2] == 0xA0;
                }
                assume(!wild);
            }
            if c == 'Ⓡ' as u32 && k >= 12 && k <= 14 || c == 'Ⓖ' as u32 && k == 13 || c == 'Ⓜ' as u32 && k == 19 {
                pending += 1;
            }
            todo.push((form.as_bytes(), if kind == 2 { 2 } else { layer(c) }));
            last = 0;
            continue;
        }
        let here = out.len();
        let ch = unsafe { char::from_u32_unchecked(c) };
        if ch == '`' {
            ticks += 1;
            assume(!tame || ticks <= 2);
        }
        if kind == 1 && ch == ' ' {
            blanks.push(here);
        }
        let op = ch == ';' || ch == '|' || ch == '&' || ch == '(' || ch == ')';
        if kind == 1 && op && t_ok(before) {
            gaps.push(here);
        }
        out.push(ch);
        if twice {
            let letter = |c: u32| c >= 'a' as u32 && c <= 'z' as u32 || c == '_' as u32;
            let word = ch == 'w' || ch == 's' || ch == 'd' || ch == 'p' || ch == 'h' || ch == 'a';
            if ch == ' ' && kind == 1 || word && !letter(before) && !letter(next as u32) && !(next >= b'0' && next <= b'9') {
                halves.push(here + 1);
                out.push(ch);
            }
        }
        if ch == '\n' {
            if kind == 1 && pending == 0 && before != '\\' as u32 {
                gaps.push(here + 1);
            }
            while pending > 0 {
                pending -= 1;
                todo.push(("Ⓗ\nE\n".as_bytes(), 2));
            }
        } else if kind == 1 && op {
            gaps.push(here + 1);
        }
    }
    // (a blank would split an operator in two there, or join others)
    let v = &out;
    gaps.retain(|&g| g == 0 || g == v.len() || !(operator(v[g - 1]) && operator(v[g])) || v[g - 1] == ')' && v[g] == ')');
    Text { v: out, blanks, gaps, halves }
}
/// (arithmetic operators have more than one character, too)
fn t_ok(before: u32) -> bool {
    before < 0x80 && before != '$' as u32
}
/// `f` holds of all that can be derived from the roots (parameter 0: the tier; parameter 1: only
/// that root, counted from 1).
pub fn over_gen<F: FnOnce(&Src)>(roots: &'static [Root], f: F) {
    let tier = param(0);
    let only = param(1);
    if param(9) == 1 {
        for r in roots {
            note(&format!("everything derived from {:?} with up to {} of the letters standing for something else than by default", r.t, r.fuel[tier as usize & 1]));
        }
        for r in RULES {
            note(&format!("rule {} (by default the first): {:?}", r.0, r.1));
        }
        return;
    }
    let n = roots.len() as u32;
    let k = if only >= 1 && only <= n { only - 1 } else { choice(n) };
    declare(n);
    let r = &roots[k as usize];
    let src = derive(r.t, r.fuel[tier as usize & 1]);
    f(&src);
    cover(k);
}
/// As above, with all that is known about the text.
pub fn over_text<F: FnOnce(Text)>(roots: &'static [Root], tame: bool, twice: bool, f: F) {
    let tier = param(0);
    let only = param(1);
    let n = roots.len() as u32;
    if param(9) == 1 {
        over_gen(roots, |_| ());
        if tame {
            note("(without ①, comments in words, or backticks within backticks)");
        }
        return;
    }
    let k = if only >= 1 && only <= n { only - 1 } else { choice(n) };
    declare(n);
    let r = &roots[k as usize];
    f(derive_text(r.t, r.fuel[tier as usize & 1], tame, twice));
    cover(k);
}
