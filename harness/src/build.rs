//! What builders are told, and what they make of it.
use crate::gen::derived;
use crate::rt::*;
use crate::big::{over_big, over_huge};
use crate::run::*;
use crate::scripts::*;
use crate::ser::{normal, Ser};
use crate::sets::*;
use crate::spec;
use crate::src::*;
use crate::tr::{self, Boom, Tr, B};
use conch_parser::ast::builder::*;
use conch_parser::ast::{AndOr, Arithmetic, AtomicTopLevelCommand, AtomicTopLevelWord, Command, DefaultArithmetic, DefaultParameter, ListableCommand, Parameter, PipeableCommand, RedirectOrCmdWord, RedirectOrEnvVar, TopLevelCommand, TopLevelWord};
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser};
use conch_parser::token::Token;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

/// Commands of every kind, in which the vocabularies put words and commands of every kind.
const CMD: &[&str] = &[
    "a", "a b", "x=1", "x=1 y= a", ">f", "2>&1 a <g b", "! a", "a|b", "a|b|c", "!a|b", "a&&b", "a||b&&c", "{ a; }", "(a)", "(a;b)",
    "if a; then b; fi", "if a; then b; elif c; then d; else e; fi", "while a; do b; done", "until a; b; do c; done", "for x in a b; do c; done",
    "for x; do a; done", "for x in; do a; done", "case a in b) c;; d|e) f;; esac", "case a in esac", "case a in b) ;; c) d; esac", "f() { a; }", "function f (a)",
    "c <<E\nh $x\nE\n", "c <<'E'\nh $x\nE\n", "",
];
const WORD: &[&str] = &[
    "a", "'b'", "\"c\"", "\"c$x d\"", "\\e", "$x", "$1", "${10}", "$@", "$*", "$#", "$?", "$-", "$$", "$!", "${x-a}", "${x:=b'c'}", "${x?}", "${1:+d}", "${x%e}",
    "${x%%*}", "${x#f}", "${x##?}", "${#x}", "$(a)", "$(a;b)", "`a`", "$((1+x))", "$(( ))", "*", "?", "[", "]", "~", ":", "$", "\"$\"", "#", "=", "\"$ \\\\\"", "${x-\"a$ b\"}",
];
const END: &[&str] = &["", ";", "&", "\n", " #c\n", ";\n", "& b", "; b\n", "\n\n b", " >f", ">f <<E\nE\n"];
static TREES: &[Case] = &[
    case!("ⒶⒷ", [], [CMD, END]),
    case!("{ Ⓐ; Ⓐ\n} >x", [], [CMD]),
    case!("a ⒶⒶ", [], [WORD]),
    case!("a \"ⒶⒶ\"b", [], [WORD]),
    case!("x=Ⓐ >Ⓐ a", [], [WORD]),
    case!("ⒷⒶⒷⒶⒷ", [], [&["|", "&&", "||", ";", "&", "| ! ", "&& ! "], &["a", "{ b; }", "(c)", "x=1", "f() { d; }"]]),
    case!("Ⓐ Ⓑ>f 2>&1 ⒷⒸd", [], [&["{ a; }", "(a)", "if a; then b; fi", "while a; do b; done", "until a; do b; done", "for x in y; do b; done", "case a in b) c;; esac", "f() { a; }", "f() (a)", "a", "x=1"], &["3", "", "<", "1>"], &["\n", ";", "&", " ", "|", "&&"]]),
    case!("if Ⓐ; then Ⓑ; else Ⓐ; fi", [], [CMD, &["a", "b; c", "(d)"]]),
    case!("while Ⓐ\ndo Ⓐ\ndone", [], [CMD]),
    case!("case ⒷⒷ in Ⓑ|b) Ⓐ;; (Ⓑ) ;; esac", [], [&["a", "b; c", "(d)", "\n", "f() { g; }"], &["a", "'b'", "$x", "*"]]),
    case!("for x in ⒶⒶ; do a Ⓐ; done", [], [&["a", " b", "$x", "'c'", ""]]),
    case!("$(Ⓐ) `Ⓐ` ${x-$(a)}", [], [CMD]),
    case!("Ⓑ() Ⓐ", [], [&["{ a; }", "(a)", "if a; then b; fi", "while a; do b; done >f", "until a; do b; done", "for x in y; do b; done", "case a in b) c;; esac", "{ g() (a); }"], &["f", "_1", "é", "if"]]),
    case!("a $((Ⓐ))", [], [&["x", "1", "x++", "x--", "++x", "--x", "+x", "-x", "!x", "~x", "x**y", "x*y", "x/y", "x%y", "x+y", "x-y", "x<<y", "x>>y", "x<y", "x<=y", "x>y", "x>=y", "x==y", "x!=y", "x&y", "x^y", "x|y", "x&&y", "x||y", "x?y:z", "x=y", "x+=y", "x,y,z", "", "(x,y)*z", "x-y-z", "x=y=z"]]),
    case!("a①②③", [ASCII, ASCII0, ASCII0]),
    case!("\"①②③\"", [ASCII, ASCII0, ASCII0]),
    deep!("Ⓐ\nⒶ", [], [CMD]),
    deep!("a ⒶⒶⒶ", [], [WORD]),
    deep!("a \"ⒶⒶⒶ\"b", [], [WORD]),
    deep!("a①②③④", [ASCII, ASCII, ASCII0, ASCII0]),
];

/// C22: the trees of the bundled builders are those of the source.
#[no_mangle]
pub extern "C" fn h_tree() {
    over_huge(TREES, |src| {
        tree(src);
    });
}
#[no_mangle]
pub extern "C" fn h_tree_scripts() {
    let src = mutated(SCRIPTS);
    tree(&src);
}
fn tree(src: &Src) {
    let a = rest(&mut Parser::<_, StringBuilder>::new(Lexer::new(src.iter())), ERRORS);
    let b = spec_rest(&mut spec::P::new(src, Tr::ast()), ERRORS);
    observe(&a);
    want(src, "expected", &a, &b);
}

const SMALL: &[&str] = &["a", "b", "'a'", "\"a$x\"", "a$x", "$x", "{ a; }", "a&", "a|b", "! a", "a&&b", "a||b", "x=a", "x=a b", ">a", ">b c", "(a)", "f() { a; }", "f() (a)", "if a; then b; fi", "while a; do b; done", "until a; do b; done", "for x in a; do b; done", "case a in b) c;; esac", "${x-a}", "${x:-a}", "${#x}", "$(a)", "$((1))", "$((x))", "*", "~", "\\a"];
static WRAPS: &[Case] = &[
    case!("Ⓐ\nⒶ", [], [SMALL]),
    case!("a①\na②", [ASCII, ASCII]),
    deep!("a ①②\na ①③", [ASCII, ASCII0, ASCII0]),
];
fn ser_of<X: Ser>(x: &X) -> B {
    let mut o = Vec::new();
    x.ser(&mut o);
    o
}
/// The wrappers `v` are what they wrap: equal to it (and only to its like), made of it, and give it back.
fn wrap_each<W, I>(src: &Src, v: &[W])
where
    W: Ser + Clone + PartialEq + PartialEq<I> + From<I> + std::ops::Deref<Target = I> + std::ops::DerefMut,
    I: Clone + PartialEq,
{
    let s: Vec<B> = v.iter().map(ser_of).collect();
    let fail = |c: bool, what: &str| check(c, 5, || format!("source {:?}: {}", src.text(), what));
    for i in 0..v.len() {
        let inner: I = (*v[i]).clone();
        fail(ser_of(&W::from(inner.clone())) == s[i], "a wrapper is not made of what it is given");
        for j in 0..v.len() {
            let alike = s[i] == s[j];
            fail((v[i] == v[j]) == alike, "equality of wrappers is not that of the trees");
            fail((v[j] == inner) == alike, "equality of a wrapper and a tree is not that of the trees");
            fail((*v[j] == inner) == alike, "equality of trees is not that of what they say");
            let mut x = v[j].clone();
            fail(ser_of(&x) == s[j], "a clone is not what it was cloned from");
            *x = inner.clone();
            fail(ser_of(&x) == s[i], "a wrapper does not hold what was put into it");
        }
    }
}
macro_rules! wrap_all {
    ($src:expr, $builder:ty, $t:ty, $cmd:ident, $word:ident) => {{
        let mut p = Parser::<_, $builder>::new(Lexer::new($src.iter()));
        let mut cmds: Vec<$cmd<$t>> = Vec::new();
        let mut words: Vec<$word<$t>> = Vec::new();
        while let Ok(Some(c)) = p.complete_command() {
            let l = match &c.0 {
                Command::List(l) | Command::Job(l) => l,
            };
            if let ListableCommand::Single(PipeableCommand::Simple(s)) = &l.first {
                for x in &s.redirects_or_cmd_words {
                    if let RedirectOrCmdWord::CmdWord(x) = x {
                        words.push(x.0.clone().into());
                    }
                }
                for x in &s.redirects_or_env_vars {
                    if let RedirectOrEnvVar::EnvVar(_, Some(x)) = x {
                        words.push(x.clone());
                    }
                }
            }
            cmds.push(c);
        }
        wrap_each($src, &cmds);
        wrap_each($src, &words);
    }};
}
/// C22: the wrappers of trees.
#[no_mangle]
pub extern "C" fn h_wrappers() {
    over(WRAPS, |src| {
        wrap_all!(src, StringBuilder, String, TopLevelCommand, TopLevelWord);
        wrap_all!(src, ArcBuilder, Arc<String>, AtomicTopLevelCommand, AtomicTopLevelWord);
        observe(&[]);
    });
}

/// C18: builders, wrappers, iterators: all tell the same.
fn same(src: &Src) {
    let new = || Lexer::new(src.iter());
    let string = rest(&mut Parser::<_, StringBuilder>::new(new()), POSITIONS);
    let rc = rest(&mut Parser::<_, RcBuilder>::new(new()), POSITIONS);
    want(src, "Rc", &string, &rc);
    let arc = rest(&mut Parser::<_, ArcBuilder>::new(new()), POSITIONS);
    want(src, "Arc", &string, &arc);
    observe(&string);

    let plain = rest(&mut parser(src), POSITIONS);
    observe(&plain);
    let mut t = Tr::new();
    let a = rest(&mut Parser::with_builder(new(), &mut t), POSITIONS);
    want(src, "without a reference", &a, &plain);
    let a = rest(&mut Parser::with_builder(new(), Box::new(Tr::new())), POSITIONS);
    want(src, "without a box", &a, &plain);
    let v: Vec<Token> = new().collect();
    let a = rest(&mut Parser::with_builder(v.into_iter(), Tr::new()), POSITIONS);
    want(src, "from the lexer", &a, &plain);
    let a = rest(&mut parser(src), POSITIONS);
    want(src, "again", &a, &plain);

    // without a tree: as many commands, ending at the same places, and the same error
    let mut a = parser(src);
    let mut b = Parser::<_, EmptyBuilder>::new(new());
    loop {
        let (mut x, mut y) = (Vec::new(), Vec::new());
        let more = step(&mut x, POSITIONS, a.complete_command().map(|c| c.map(|_| Vec::new())), a.pos());
        step(&mut y, POSITIONS, b.complete_command().map(|c| c.map(|_| Vec::new())), b.pos());
        want(src, "without a tree", &x, &y);
        if !more {
            break;
        }
    }
    // as an iterator: up to the error or the end, and then nothing
    let plain = rest(&mut parser(src), ERRORS);
    let mut b = Vec::new();
    let mut it = parser(src).into_iter();
    loop {
        let r = match it.next() {
            Some(Ok(c)) => Ok(Some(c)),
            Some(Err(e)) => Err(e),
            None => Ok(None),
        };
        if !step::<Boom>(&mut b, ERRORS, r, crate::tok::start_pos()) {
            break;
        }
    }
    want(src, "as an iterator", &plain, &b);
    for _ in 0..3 {
        check(it.next().is_none(), 2, || format!("source {:?}: the iterator goes on after its end", src.text()));
    }
}
#[no_mangle]
pub extern "C" fn h_builders() {
    over_big(TREES, |src| same(src));
}
#[no_mangle]
pub extern "C" fn h_builders_scripts() {
    let src = if param(0) == 0 { mutated_with(SCRIPTS, &[FEW]) } else { mutated(SCRIPTS) };
    same(&src);
}

// ---------------------------------------------------------------- C19
/// A value which notices when it is thrown away.
pub struct V {
    used: bool,
    lost: Rc<Cell<u32>>,
}
impl Drop for V {
    fn drop(&mut self) {
        if !self.used {
            self.lost.set(self.lost.get() + 1);
        }
    }
}
impl V {
    fn eat(mut self) {
        self.used = true;
    }
}
fn all(v: Vec<V>) {
    for x in v {
        x.eat();
    }
}
fn opt(v: Option<V>) {
    if let Some(x) = v {
        x.eat();
    }
}
fn eat_simple(s: SimpleWordKind<V>) {
    use ParameterSubstitutionKind::*;
    match s {
        SimpleWordKind::CommandSubst(g) => all(g.commands),
        SimpleWordKind::Subst(s) => match *s {
            Command(g) => all(g.commands),
            Len(_) | Arith(_) => {}
            Default(_, _, x) | Assign(_, _, x) | Error(_, _, x) | Alternative(_, _, x) | RemoveSmallestSuffix(_, x)
            | RemoveLargestSuffix(_, x) | RemoveSmallestPrefix(_, x) | RemoveLargestPrefix(_, x) => {
                if let Some(x) = x {
                    eat_word(x)
                }
            }
        },
        _ => {}
    }
}
fn eat_word(k: ComplexWordKind<V>) {
    let v = match k {
        ComplexWordKind::Single(k) => vec![k],
        ComplexWordKind::Concat(v) => v,
    };
    for k in v {
        match k {
            WordKind::Simple(s) => eat_simple(s),
            WordKind::SingleQuoted(_) => {}
            WordKind::DoubleQuoted(v) => {
                for s in v {
                    eat_simple(s);
                }
            }
        }
    }
}
struct Lin {
    lost: Rc<Cell<u32>>,
}
impl Lin {
    fn new(&mut self) -> Result<V, Boom> {
        Ok(V { used: false, lost: self.lost.clone() })
    }
}
impl Builder for Lin {
    type Command = V;
    type CommandList = V;
    type ListableCommand = V;
    type PipeableCommand = V;
    type CompoundCommand = V;
    type Word = V;
    type Redirect = V;
    type Error = Boom;
    fn complete_command(&mut self, _: Vec<Newline>, l: V, _: SeparatorKind, _: Option<Newline>) -> Result<V, Boom> {
        l.eat();
        self.new()
    }
    fn and_or_list(&mut self, first: V, rest: Vec<(Vec<Newline>, AndOr<V>)>) -> Result<V, Boom> {
        first.eat();
        for (_, x) in rest {
            match x {
                AndOr::And(x) | AndOr::Or(x) => x.eat(),
            }
        }
        self.new()
    }
    fn pipeline(&mut self, _: bool, c: Vec<(Vec<Newline>, V)>) -> Result<V, Boom> {
        for (_, x) in c {
            x.eat();
        }
        self.new()
    }
    fn simple_command(&mut self, a: Vec<RedirectOrEnvVar<V, String, V>>, b: Vec<RedirectOrCmdWord<V, V>>) -> Result<V, Boom> {
        for x in a {
            match x {
                RedirectOrEnvVar::Redirect(r) => r.eat(),
                RedirectOrEnvVar::EnvVar(_, x) => opt(x),
            }
        }
        for x in b {
            match x {
                RedirectOrCmdWord::Redirect(x) | RedirectOrCmdWord::CmdWord(x) => x.eat(),
            }
        }
        self.new()
    }
    fn brace_group(&mut self, g: CommandGroup<V>, r: Vec<V>) -> Result<V, Boom> {
        all(g.commands);
        all(r);
        self.new()
    }
    fn subshell(&mut self, g: CommandGroup<V>, r: Vec<V>) -> Result<V, Boom> {
        all(g.commands);
        all(r);
        self.new()
    }
    fn loop_command(&mut self, _: LoopKind, g: GuardBodyPairGroup<V>, r: Vec<V>) -> Result<V, Boom> {
        all(g.guard.commands);
        all(g.body.commands);
        all(r);
        self.new()
    }
    fn if_command(&mut self, f: IfFragments<V>, r: Vec<V>) -> Result<V, Boom> {
        for g in f.conditionals {
            all(g.guard.commands);
            all(g.body.commands);
        }
        if let Some(g) = f.else_branch {
            all(g.commands);
        }
        all(r);
        self.new()
    }
    fn for_command(&mut self, f: ForFragments<V, V>, r: Vec<V>) -> Result<V, Boom> {
        if let Some((_, x, _)) = f.words {
            all(x);
        }
        all(f.body.commands);
        all(r);
        self.new()
    }
    fn case_command(&mut self, f: CaseFragments<V, V>, r: Vec<V>) -> Result<V, Boom> {
        f.word.eat();
        for a in f.arms {
            all(a.patterns.pattern_alternatives);
            all(a.body.commands);
        }
        all(r);
        self.new()
    }
    fn compound_command_into_pipeable(&mut self, c: V) -> Result<V, Boom> {
        c.eat();
        self.new()
    }
    fn function_declaration(&mut self, _: String, _: Vec<Newline>, body: V) -> Result<V, Boom> {
        body.eat();
        self.new()
    }
    fn comments(&mut self, _: Vec<Newline>) -> Result<(), Boom> {
        Ok(())
    }
    fn word(&mut self, k: ComplexWordKind<V>) -> Result<V, Boom> {
        eat_word(k);
        self.new()
    }
    fn redirect(&mut self, k: RedirectKind<V>) -> Result<V, Boom> {
        use RedirectKind::*;
        match k {
            Read(_, x) | Write(_, x) | ReadWrite(_, x) | Append(_, x) | Clobber(_, x) | Heredoc(_, x) | DupRead(_, x) | DupWrite(_, x) => x.eat(),
        }
        self.new()
    }
}

fn faults(src: &Src) {
    // no failure: nothing gets lost
    let lost = Rc::new(Cell::new(0));
    let mut p = Parser::with_builder(Lexer::new(src.iter()), Lin { lost: lost.clone() });
    loop {
        match p.complete_command() {
            Ok(Some(c)) => {
                c.eat();
                check(lost.get() == 0, 1, || format!("source {:?}: {} values of the builder were thrown away", src.text(), lost.get()));
            }
            Ok(None) => {
                check(lost.get() == 0, 2, || format!("source {:?}: {} values of the builder were thrown away at the end", src.text(), lost.get()));
                break;
            }
            Err(_) => break,
        }
    }
    let mut t = Tr::new();
    let all = rest(&mut Parser::with_builder(Lexer::new(src.iter()), &mut t), ERRORS);
    let calls = t.calls;
    observe(&all);
    // every call fails in turn (when there are many: the first and last ones, and every fifth)
    for k in 0..calls {
        if calls > 48 && k >= 16 && k + 16 < calls && k % 5 != 0 {
            continue;
        }
        let mut t = Tr::new();
        t.fail_at = k;
        let mut p = Parser::with_builder(Lexer::new(src.iter()), &mut t);
        let e = loop {
            match p.complete_command() {
                Ok(Some(_)) => {}
                Ok(None) => break None,
                Err(e) => break Some(e),
            }
        };
        drop(p);
        let ok = match e {
            Some(ParseError::Custom(Boom(n))) => n == k,
            _ => false,
        };
        check(ok, 3, || format!("source {:?}: call {} fails, and the parser says {:?}", src.text(), k, e));
        check(t.calls == k + 1, 4, || format!("source {:?}: {} calls after call {} failed", src.text(), t.calls - k - 1, k));
    }
}
/// C19
#[no_mangle]
pub extern "C" fn h_faults() {
    over_big(TREES, |src| faults(src));
}
#[no_mangle]
pub extern "C" fn h_faults_scripts() {
    let src = if param(0) == 0 { mutated_with(SCRIPTS, &[FEW]) } else { mutated(SCRIPTS) };
    faults(&src);
}

// ---------------------------------------------------------------- C21
const TXT: &Set = &[(32, 126), (NONE, NONE)];
fn text() -> String {
    match choice(4) {
        0 => String::new(),
        1 => Src::new("①", &[TXT], &[]).text_all(),
        2 => Src::new("①②", &[&[(32, 126)], TXT], &[]).text_all(),
        _ => String::from("é\n"),
    }
}
fn short() -> String {
    Src::new("①", &[TXT], &[]).text_all()
}
/// Any text, as far as its ends and its length go.
fn edge() -> String {
    match choice(5) {
        0 => String::new(),
        1 => Src::new("①", &[ASCII], &[]).text_all(),
        2 => Src::new("①b②", &[ASCII, ASCII], &[]).text_all(),
        3 => Src::new("×40⟨ab⟩①", &[ASCII], &[]).text_all(),
        _ => String::from("é\n"),
    }
}
fn any_param() -> DefaultParameter {
    match choice(9) {
        0 => Parameter::At,
        1 => Parameter::Star,
        2 => Parameter::Pound,
        3 => Parameter::Question,
        4 => Parameter::Dash,
        5 => Parameter::Dollar,
        6 => Parameter::Bang,
        7 => Parameter::Positional(any_u32(0, u32::max_value())),
        _ => Parameter::Var(short()),
    }
}
/// An arbitrary expression whose operands are all different.
fn any_arith(depth: u32, n: &mut u32) -> DefaultArithmetic {
    use Arithmetic::*;
    *n += 1;
    let me = *n;
    let name = || format!("v{}", me);
    if depth == 0 {
        return if me % 2 == 0 { Var(name()) } else { Literal(me as isize) };
    }
    let mut k = || Box::new(any_arith(depth - 1, n));
    match choice(32) {
        0 => Var(name()),
        1 => Literal(me as isize - 3),
        2 => PostIncr(name()),
        3 => PostDecr(name()),
        4 => PreIncr(name()),
        5 => PreDecr(name()),
        6 => UnaryPlus(k()),
        7 => UnaryMinus(k()),
        8 => LogicalNot(k()),
        9 => BitwiseNot(k()),
        10 => Pow(k(), k()),
        11 => Mult(k(), k()),
        12 => Div(k(), k()),
        13 => Modulo(k(), k()),
        14 => Add(k(), k()),
        15 => Sub(k(), k()),
        16 => ShiftLeft(k(), k()),
        17 => ShiftRight(k(), k()),
        18 => Less(k(), k()),
        19 => LessEq(k(), k()),
        20 => Great(k(), k()),
        21 => GreatEq(k(), k()),
        22 => Eq(k(), k()),
        23 => NotEq(k(), k()),
        24 => BitwiseAnd(k(), k()),
        25 => BitwiseXor(k(), k()),
        26 => BitwiseOr(k(), k()),
        27 => LogicalAnd(k(), k()),
        28 => LogicalOr(k(), k()),
        29 => Ternary(k(), k(), k()),
        30 => Assign(name(), k()),
        _ => {
            let m = choice(4);
            let mut v = Vec::new();
            for _ in 0..m {
                v.push(*k());
            }
            Sequence(v)
        }
    }
}
struct Gen<'a, C> {
    cmd: &'a dyn Fn(u32) -> C,
    most: u32,
}
impl<'a, C> Gen<'a, C> {
    fn group(&self) -> CommandGroup<C> {
        let n = choice(3);
        let mut commands = Vec::new();
        for i in 0..n {
            commands.push((self.cmd)(i));
        }
        CommandGroup { commands, trailing_comments: if n == 2 { vec![Newline(Some("#c".to_owned()))] } else { vec![] } }
    }
    /// A piece with nothing inside.
    fn leaf(&self, k: u32) -> SimpleWordKind<C> {
        match k {
            0 => SimpleWordKind::Literal(text()),
            1 => SimpleWordKind::Escaped(short()),
            2 => SimpleWordKind::Param(Parameter::Var(short())),
            3 => SimpleWordKind::Star,
            4 => SimpleWordKind::Question,
            5 => SimpleWordKind::SquareOpen,
            6 => SimpleWordKind::SquareClose,
            7 => SimpleWordKind::Tilde,
            _ => SimpleWordKind::Colon,
        }
    }
    fn subst(&self, depth: u32) -> SimpleWordKind<C> {
        use ParameterSubstitutionKind::*;
        let p = Parameter::Positional(7);
        let x = || if choice(2) == 0 { None } else { Some(self.word(depth - 1, self.most)) };
        let b = || choice(2) == 1;
        SimpleWordKind::Subst(Box::new(match choice(11) {
            0 => Command(self.group()),
            1 => Len(p),
            2 => Arith(if b() { None } else { Some(any_arith(1, &mut 0)) }),
            3 => Default(b(), p, x()),
            4 => Assign(b(), p, x()),
            5 => Error(b(), p, x()),
            6 => Alternative(b(), p, x()),
            7 => RemoveSmallestSuffix(p, x()),
            8 => RemoveLargestSuffix(p, x()),
            9 => RemoveSmallestPrefix(p, x()),
            _ => RemoveLargestPrefix(p, x()),
        }))
    }
    fn simple(&self, depth: u32) -> SimpleWordKind<C> {
        let few = depth == 0;
        let k = choice(if few { 3 } else { 5 });
        match k {
            0 | 1 => self.leaf(k),
            2 => self.leaf(3),
            3 => SimpleWordKind::CommandSubst(self.group()),
            _ => self.subst(depth),
        }
    }
    fn piece(&self, depth: u32) -> WordKind<C> {
        match choice(3) {
            0 => WordKind::Simple(self.simple(depth)),
            1 => WordKind::SingleQuoted(short()),
            _ => {
                let n = choice(3);
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.simple(0));
                }
                WordKind::DoubleQuoted(v)
            }
        }
    }
    fn word(&self, depth: u32, most: u32) -> ComplexWordKind<C> {
        let n = choice(most + 2);
        if n == most + 1 {
            return ComplexWordKind::Single(self.piece(depth));
        }
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(self.piece(depth));
        }
        ComplexWordKind::Concat(v)
    }
    /// One piece with many inside, or two pieces with few inside.
    fn deep(&self) -> ComplexWordKind<C> {
        if self.most == 2 {
            ComplexWordKind::Single(self.piece(1))
        } else {
            ComplexWordKind::Concat(vec![self.piece(1), self.piece(1)])
        }
    }
    /// A piece with an arbitrary text.
    fn texts(&self) -> WordKind<C> {
        use SimpleWordKind::*;
        match choice(6) {
            0 => WordKind::Simple(Literal(edge())),
            1 => WordKind::Simple(Escaped(edge())),
            2 => WordKind::SingleQuoted(edge()),
            3 => WordKind::DoubleQuoted(vec![Literal(edge())]),
            4 => WordKind::DoubleQuoted(vec![Literal("x".to_owned()), Literal(edge())]),
            _ => WordKind::DoubleQuoted(vec![Escaped(edge()), Literal("y".to_owned())]),
        }
    }
    /// Runs of literals and quotes.
    fn run(&self, most: u32) -> ComplexWordKind<C> {
        let mut i = 0;
        let mut next = || {
            i += 1;
            format!("{}", i)
        };
        let mut v = Vec::new();
        for _ in 0..choice(most + 1) {
            v.push(match choice(6) {
                0 => WordKind::Simple(SimpleWordKind::Literal(next())),
                1 => WordKind::Simple(SimpleWordKind::Escaped(next())),
                2 => WordKind::SingleQuoted(next()),
                3 => WordKind::DoubleQuoted(vec![]),
                4 => WordKind::DoubleQuoted(vec![SimpleWordKind::Literal(next()), SimpleWordKind::Literal(next())]),
                _ => WordKind::DoubleQuoted(vec![SimpleWordKind::Literal(next()), SimpleWordKind::Star, SimpleWordKind::Literal(next())]),
            });
        }
        ComplexWordKind::Concat(v)
    }
}
fn normalises<X>(mut b: X, cmd: &dyn Fn(u32) -> X::Command)
where
    X: Builder,
    X::Command: Ser + Clone,
    X::Word: Ser,
{
    let g = Gen { cmd, most: 1 };
    let tier = param(0);
    let kind = choice(7);
    let k: ComplexWordKind<X::Command> = match kind {
        0 => g.run(if tier > 0 { 6 } else { 4 }),
        1 if tier > 0 && choice(2) == 0 => Gen { cmd, most: if choice(2) == 0 { 2 } else { 1 } }.deep(),
        1 => {
            // one piece with others inside, and perhaps a plain one next to it
            let mut v = vec![g.piece(1)];
            match choice(3) {
                0 => v.push(g.piece(0)),
                1 => v.insert(0, g.piece(0)),
                _ => {}
            }
            ComplexWordKind::Concat(v)
        }
        2 => ComplexWordKind::Single(WordKind::Simple(SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Arith(Some(any_arith(2, &mut 0))))))),
        3 => {
            let p = any_param();
            let q = any_param();
            use ParameterSubstitutionKind::*;
            let x = || Some(ComplexWordKind::Concat(vec![WordKind::SingleQuoted("1".to_owned()), WordKind::SingleQuoted("2".to_owned())]));
            let s = match choice(9) {
                0 => Len(q),
                1 => Default(true, q, x()),
                2 => Assign(false, q, x()),
                3 => Error(true, q, x()),
                4 => Alternative(false, q, x()),
                5 => RemoveSmallestSuffix(q, x()),
                6 => RemoveLargestSuffix(q, x()),
                7 => RemoveSmallestPrefix(q, x()),
                _ => RemoveLargestPrefix(q, x()),
            };
            ComplexWordKind::Concat(vec![
                WordKind::Simple(SimpleWordKind::Param(p.clone())),
                WordKind::DoubleQuoted(vec![SimpleWordKind::Param(p), SimpleWordKind::Subst(Box::new(s))]),
            ])
        }
        4 => ComplexWordKind::Concat(vec![
            WordKind::Simple(g.leaf(choice(9))),
            WordKind::DoubleQuoted(vec![g.leaf(choice(9)), g.leaf(choice(9))]),
        ]),
        5 => {
            let mut v = vec![g.texts(), g.texts()];
            match choice(3) {
                0 => v.push(WordKind::SingleQuoted("z".to_owned())),
                1 => v.insert(0, WordKind::Simple(SimpleWordKind::Literal("z".to_owned()))),
                _ => {}
            }
            ComplexWordKind::Concat(v)
        }
        _ => {
            let mut inner = g.run(3);
            for _ in 0..choice(3) {
                inner = ComplexWordKind::Concat(vec![
                    WordKind::SingleQuoted("q".to_owned()),
                    WordKind::Simple(SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Default(true, Parameter::At, Some(inner))))),
                ]);
            }
            ComplexWordKind::Single(WordKind::DoubleQuoted(vec![SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::RemoveLargestPrefix(Parameter::At, Some(inner))))]))
        }
    };
    let mut want = Vec::new();
    normal(&mut want, &k);
    let mut got: B = Vec::new();
    match b.word(k) {
        Ok(x) => x.ser(&mut got),
        Err(_) => die(2),
    }
    observe(&got);
    check(got == want, 1, || format!("the word is {}, it should be {}", show(&got), show(&want)));
    cover(kind);
}
fn command<X: Builder + Default>(k: u32) -> X::Command {
    let s = if k == 0 { "a" } else { "b|c" };
    match Parser::<_, X>::new(Lexer::new(s.chars())).complete_command() {
        Ok(Some(c)) => c,
        _ => die(3),
    }
}
/// C21
#[no_mangle]
pub extern "C" fn h_normal() {
    declare(10);
    let k = choice(3);
    match k {
        0 => normalises(StringBuilder::new(), &command::<StringBuilder>),
        1 => normalises(RcBuilder::new(), &command::<RcBuilder>),
        _ => normalises(ArcBuilder::new(), &command::<ArcBuilder>),
    }
    cover(7 + k);
    let _ = tr::num;
}
derived!(h_tree_in, ANYTHING, |src| tree(src));
derived!(h_builders_in, SOME, |src| same(src));
derived!(h_faults_in, SOME, |src| faults(src));
