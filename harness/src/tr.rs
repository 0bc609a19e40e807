//! A builder that writes everything the parser tells it into byte strings, injectively.
use crate::tok::{kind_of, tok_text};
use conch_parser::ast::builder::*;
use conch_parser::ast::{AndOr, Arithmetic, DefaultParameter, Parameter, RedirectOrCmdWord, RedirectOrEnvVar};
use conch_parser::parse::{ParseError, SourcePos};
use conch_parser::token::Token;

pub type B = Vec<u8>;
/// What the bundled builders make of strings.
pub trait Text {
    fn text(&self) -> &str;
}
impl Text for String {
    fn text(&self) -> &str {
        self
    }
}
impl Text for std::rc::Rc<String> {
    fn text(&self) -> &str {
        self
    }
}
impl Text for std::sync::Arc<String> {
    fn text(&self) -> &str {
        self
    }
}
pub type E = ParseError<Boom>;

/// The error of a builder told to fail.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Boom(pub u32);

/// An error of a builder.
pub trait Fault {
    fn number(&self) -> u32;
}
impl Fault for Boom {
    fn number(&self) -> u32 {
        self.0
    }
}
impl Fault for void::Void {
    fn number(&self) -> u32 {
        match *self {}
    }
}

#[derive(Debug, Clone)]
pub struct Tr {
    /// Which call fails (`u32::MAX`: none).
    pub fail_at: u32,
    pub calls: u32,
    /// Comments delivered outside of any command.
    pub loose: B,
    /// Write what a syntax tree without comments says (see `ser`).
    pub ast: bool,
}

pub fn w(o: &mut B, s: &str) {
    o.extend_from_slice(s.as_bytes());
}
/// A string of the source.
pub fn lit(o: &mut B, s: &str) {
    o.push(1);
    o.extend_from_slice(s.as_bytes());
    o.push(2);
}
pub fn num(o: &mut B, n: u64) {
    for i in 0..8 {
        o.push((n >> (56 - 8 * i)) as u8);
    }
}
pub fn nl(o: &mut B, n: &Newline) {
    w(o, "N");
    if let Some(c) = &n.0 {
        o.push(3);
        w(o, c);
        o.push(4);
    }
}
pub fn nls(o: &mut B, v: &[Newline]) {
    w(o, "[");
    for n in v {
        nl(o, n);
    }
    w(o, "]");
}
pub fn onl(o: &mut B, n: &Option<Newline>) {
    match n {
        Some(n) => nl(o, n),
        None => w(o, "-"),
    }
}
fn list(o: &mut B, v: &[B]) {
    w(o, "[");
    for x in v {
        o.extend_from_slice(x);
        w(o, ",");
    }
    w(o, "]");
}
pub fn group(o: &mut B, g: &CommandGroup<B>) {
    w(o, "{");
    list(o, &g.commands);
    nls(o, &g.trailing_comments);
    w(o, "}");
}
pub fn param<X: Text>(o: &mut B, p: &Parameter<X>) {
    match p {
        Parameter::At => w(o, "@"),
        Parameter::Star => w(o, "*"),
        Parameter::Pound => w(o, "#"),
        Parameter::Question => w(o, "?"),
        Parameter::Dash => w(o, "-"),
        Parameter::Dollar => w(o, "$"),
        Parameter::Bang => w(o, "!"),
        Parameter::Positional(n) => {
            w(o, "P");
            num(o, *n as u64);
        }
        Parameter::Var(v) => {
            w(o, "V");
            lit(o, v.text());
        }
    }
}
pub fn arith<X: Text>(o: &mut B, a: &Arithmetic<X>) {
    use Arithmetic::*;
    w(o, "(");
    let (name, kids): (&str, Vec<&Arithmetic<X>>) = match a {
        Var(v) => { w(o, "var"); lit(o, v.text()); ("", vec![]) }
        Literal(l) => { w(o, "num"); num(o, *l as u64); ("", vec![]) }
        PostIncr(v) => { w(o, "x++"); lit(o, v.text()); ("", vec![]) }
        PostDecr(v) => { w(o, "x--"); lit(o, v.text()); ("", vec![]) }
        PreIncr(v) => { w(o, "++x"); lit(o, v.text()); ("", vec![]) }
        PreDecr(v) => { w(o, "--x"); lit(o, v.text()); ("", vec![]) }
        Assign(v, a) => { w(o, "="); lit(o, v.text()); ("", vec![a]) }
        UnaryPlus(a) => ("+u", vec![a]),
        UnaryMinus(a) => ("-u", vec![a]),
        LogicalNot(a) => ("!", vec![a]),
        BitwiseNot(a) => ("~", vec![a]),
        Pow(a, b) => ("**", vec![a, b]),
        Mult(a, b) => ("*", vec![a, b]),
        Div(a, b) => ("/", vec![a, b]),
        Modulo(a, b) => ("%", vec![a, b]),
        Add(a, b) => ("+", vec![a, b]),
        Sub(a, b) => ("-", vec![a, b]),
        ShiftLeft(a, b) => ("<<", vec![a, b]),
        ShiftRight(a, b) => (">>", vec![a, b]),
        Less(a, b) => ("<", vec![a, b]),
        LessEq(a, b) => ("<=", vec![a, b]),
        Great(a, b) => (">", vec![a, b]),
        GreatEq(a, b) => (">=", vec![a, b]),
        Eq(a, b) => ("==", vec![a, b]),
        NotEq(a, b) => ("!=", vec![a, b]),
        BitwiseAnd(a, b) => ("&", vec![a, b]),
        BitwiseXor(a, b) => ("^", vec![a, b]),
        BitwiseOr(a, b) => ("|", vec![a, b]),
        LogicalAnd(a, b) => ("&&", vec![a, b]),
        LogicalOr(a, b) => ("||", vec![a, b]),
        Ternary(a, b, c) => ("?:", vec![a, b, c]),
        Sequence(v) => (",", v.iter().collect()),
    };
    w(o, name);
    for k in kids {
        w(o, " ");
        arith(o, k);
    }
    w(o, ")");
}
pub fn subst(o: &mut B, s: &ParameterSubstitutionKind<ComplexWordKind<B>, B>) {
    use ParameterSubstitutionKind::*;
    let op = |o: &mut B, name: &str, c: bool, p: &DefaultParameter, x: &Option<ComplexWordKind<B>>| {
        w(o, name);
        w(o, if c { ":" } else { "." });
        param(o, p);
        match x {
            Some(x) => complex(o, x),
            None => w(o, "none"),
        }
    };
    w(o, "${");
    match s {
        Command(g) => { w(o, "cmd"); group(o, g) }
        Len(p) => { w(o, "len"); param(o, p) }
        Arith(None) => w(o, "arith-none"),
        Arith(Some(a)) => { w(o, "arith"); arith(o, a) }
        Default(c, p, x) => op(o, "-", *c, p, x),
        Assign(c, p, x) => op(o, "=", *c, p, x),
        Error(c, p, x) => op(o, "?", *c, p, x),
        Alternative(c, p, x) => op(o, "+", *c, p, x),
        RemoveSmallestSuffix(p, x) => op(o, "%", false, p, x),
        RemoveLargestSuffix(p, x) => op(o, "%%", false, p, x),
        RemoveSmallestPrefix(p, x) => op(o, "#", false, p, x),
        RemoveLargestPrefix(p, x) => op(o, "##", false, p, x),
    }
    w(o, "}");
}
pub fn simple(o: &mut B, s: &SimpleWordKind<B>) {
    match s {
        SimpleWordKind::Literal(s) => { w(o, "L"); lit(o, s) }
        SimpleWordKind::Escaped(s) => { w(o, "E"); lit(o, s) }
        SimpleWordKind::Param(p) => { w(o, "$"); param(o, p) }
        SimpleWordKind::Subst(s) => subst(o, s),
        SimpleWordKind::CommandSubst(g) => { w(o, "`"); group(o, g) }
        SimpleWordKind::Star => w(o, "*"),
        SimpleWordKind::Question => w(o, "?"),
        SimpleWordKind::SquareOpen => w(o, "<"),
        SimpleWordKind::SquareClose => w(o, ">"),
        SimpleWordKind::Tilde => w(o, "~"),
        SimpleWordKind::Colon => w(o, ":"),
    }
}
/// Pieces one after another; how literal text is cut into pieces does not matter.
fn join<'a, I: Iterator<Item = &'a SimpleWordKind<B>>>(o: &mut B, it: I) {
    let mut open = false;
    for s in it {
        if let SimpleWordKind::Literal(l) = s {
            if !open {
                w(o, "L");
                o.push(1);
                open = true;
            }
            o.extend_from_slice(l.as_bytes());
            continue;
        }
        if open {
            o.push(2);
            open = false;
        }
        simple(o, s);
    }
    if open {
        o.push(2);
    }
}
pub fn complex(o: &mut B, k: &ComplexWordKind<B>) {
    let v = match k {
        ComplexWordKind::Single(k) => std::slice::from_ref(k),
        ComplexWordKind::Concat(v) => &v[..],
    };
    w(o, "(");
    if let ComplexWordKind::Concat(v) = k {
        // several words, that is
        if v.len() < 2 {
            w(o, "concat of one or none");
        }
    }
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            WordKind::Simple(_) => {
                let mut j = i;
                while j < v.len() {
                    match &v[j] {
                        WordKind::Simple(_) => j += 1,
                        _ => break,
                    }
                }
                join(o, v[i..j].iter().map(|x| match x { WordKind::Simple(s) => s, _ => unreachable!() }));
                i = j;
                continue;
            }
            WordKind::SingleQuoted(s) => { w(o, "'"); lit(o, s) }
            WordKind::DoubleQuoted(v) => {
                w(o, "\"(");
                join(o, v.iter());
                w(o, ")");
            }
        }
        i += 1;
    }
    w(o, ")");
}
pub fn fd(o: &mut B, f: Option<u16>) {
    match f {
        Some(n) => num(o, n as u64),
        None => w(o, "-"),
    }
}

pub fn tok(o: &mut B, t: &Token) {
    w(o, "T");
    o.push(kind_of(t) as u8);
    tok_text(t, o);
}
pub fn pos(o: &mut B, p: SourcePos) {
    num(o, p.byte as u64);
    num(o, p.line as u64);
    num(o, p.col as u64);
}
/// An error: whether it is one (`level` 0), which one (1), with positions (2).
pub fn err<X: Fault>(e: &ParseError<X>, level: u32) -> B {
    let mut o = Vec::new();
    w(&mut o, "error ");
    if level == 0 {
        if let ParseError::Custom(b) = e {
            num(&mut o, b.number() as u64);
        }
        return o;
    }
    let pos = |o: &mut B, p: SourcePos| if level >= 2 { pos(o, p) };
    match e {
        ParseError::BadFd(a, b) => { w(&mut o, "BadFd"); pos(&mut o, *a); pos(&mut o, *b) }
        ParseError::BadIdent(s, p) => { w(&mut o, "BadIdent"); lit(&mut o, s); pos(&mut o, *p) }
        ParseError::BadSubst(t, p) => { w(&mut o, "BadSubst"); tok(&mut o, t); pos(&mut o, *p) }
        ParseError::Unmatched(t, p) => { w(&mut o, "Unmatched"); tok(&mut o, t); pos(&mut o, *p) }
        ParseError::IncompleteCmd(a, p, b, q) => {
            w(&mut o, "IncompleteCmd ");
            w(&mut o, a);
            pos(&mut o, *p);
            w(&mut o, " ");
            w(&mut o, b);
            pos(&mut o, *q)
        }
        ParseError::Unexpected(t, p) => { w(&mut o, "Unexpected"); tok(&mut o, t); pos(&mut o, *p) }
        ParseError::UnexpectedEOF => w(&mut o, "EOF"),
        ParseError::Custom(b) => { w(&mut o, "Custom"); num(&mut o, b.number() as u64) }
    }
    o
}

impl Tr {
    pub fn new() -> Tr {
        Tr { fail_at: u32::max_value(), calls: 0, loose: Vec::new(), ast: false }
    }
    pub fn ast() -> Tr {
        let mut t = Tr::new();
        t.ast = true;
        t
    }
    fn group(&self, o: &mut B, g: &CommandGroup<B>) {
        if self.ast { list(o, &g.commands) } else { group(o, g) }
    }
    fn nls(&self, o: &mut B, v: &[Newline]) {
        if !self.ast {
            nls(o, v)
        }
    }
    fn onl(&self, o: &mut B, n: &Option<Newline>) {
        if !self.ast {
            onl(o, n)
        }
    }
    fn io(&self, o: &mut B) {
        if self.ast {
            w(o, "io")
        }
    }
    fn done(&mut self, o: B) -> Result<B, Boom> {
        let n = self.calls;
        self.calls += 1;
        if n == self.fail_at {
            Err(Boom(n))
        } else {
            Ok(o)
        }
    }
}

impl Builder for Tr {
    type Command = B;
    type CommandList = B;
    type ListableCommand = B;
    type PipeableCommand = B;
    type CompoundCommand = B;
    type Word = B;
    type Redirect = B;
    type Error = Boom;

    fn complete_command(&mut self, pre: Vec<Newline>, l: B, sep: SeparatorKind, c: Option<Newline>) -> Result<B, Boom> {
        let mut o = Vec::new();
        if self.ast {
            w(&mut o, match sep { SeparatorKind::Amp => "job(", _ => "list(" });
            o.extend_from_slice(&l);
            w(&mut o, ")");
            return self.done(o);
        }
        w(&mut o, "cmd(");
        self.nls(&mut o, &pre);
        o.extend_from_slice(&l);
        w(&mut o, match sep { SeparatorKind::Semi => ";", SeparatorKind::Amp => "&", SeparatorKind::Newline => "n", SeparatorKind::Other => "o" });
        self.onl(&mut o, &c);
        w(&mut o, ")");
        self.done(o)
    }
    fn and_or_list(&mut self, first: B, rest: Vec<(Vec<Newline>, AndOr<B>)>) -> Result<B, Boom> {
        let mut o = Vec::new();
        if !self.ast {
            w(&mut o, "list(");
        }
        o.extend_from_slice(&first);
        for (n, c) in rest {
            let (s, c) = match c { AndOr::And(c) => ("&&", c), AndOr::Or(c) => ("||", c) };
            w(&mut o, s);
            self.nls(&mut o, &n);
            o.extend_from_slice(&c);
        }
        if !self.ast {
            w(&mut o, ")");
        }
        self.done(o)
    }
    fn pipeline(&mut self, bang: bool, cmds: Vec<(Vec<Newline>, B)>) -> Result<B, Boom> {
        let mut o = Vec::new();
        if self.ast && !bang && cmds.len() == 1 {
            o.extend_from_slice(&cmds[0].1);
            return self.done(o);
        }
        w(&mut o, if bang { "!pipe(" } else { "pipe(" });
        for (n, c) in cmds {
            self.nls(&mut o, &n);
            o.extend_from_slice(&c);
            w(&mut o, "|");
        }
        w(&mut o, ")");
        self.done(o)
    }
    fn simple_command(&mut self, a: Vec<RedirectOrEnvVar<B, String, B>>, b: Vec<RedirectOrCmdWord<B, B>>) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, "simple(");
        for x in a {
            match x {
                RedirectOrEnvVar::Redirect(r) => o.extend_from_slice(&r),
                RedirectOrEnvVar::EnvVar(v, x) => {
                    w(&mut o, "env");
                    lit(&mut o, &v);
                    match x {
                        Some(x) => o.extend_from_slice(&x),
                        None => w(&mut o, "none"),
                    }
                }
            }
            w(&mut o, ",");
        }
        w(&mut o, ";");
        for x in b {
            match x {
                RedirectOrCmdWord::Redirect(r) => o.extend_from_slice(&r),
                RedirectOrCmdWord::CmdWord(x) => o.extend_from_slice(&x),
            }
            w(&mut o, ",");
        }
        w(&mut o, ")");
        self.done(o)
    }
    fn brace_group(&mut self, g: CommandGroup<B>, r: Vec<B>) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, "brace");
        self.group(&mut o, &g);
        self.io(&mut o);
        list(&mut o, &r);
        self.done(o)
    }
    fn subshell(&mut self, g: CommandGroup<B>, r: Vec<B>) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, "subshell");
        self.group(&mut o, &g);
        self.io(&mut o);
        list(&mut o, &r);
        self.done(o)
    }
    fn loop_command(&mut self, k: LoopKind, g: GuardBodyPairGroup<B>, r: Vec<B>) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, match k { LoopKind::While => "while", LoopKind::Until => "until" });
        self.group(&mut o, &g.guard);
        self.group(&mut o, &g.body);
        self.io(&mut o);
        list(&mut o, &r);
        self.done(o)
    }
    fn if_command(&mut self, f: IfFragments<B>, r: Vec<B>) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, "if");
        for g in &f.conditionals {
            self.group(&mut o, &g.guard);
            self.group(&mut o, &g.body);
        }
        if let Some(e) = &f.else_branch {
            w(&mut o, "else");
            self.group(&mut o, e);
        }
        self.io(&mut o);
        list(&mut o, &r);
        self.done(o)
    }
    fn for_command(&mut self, f: ForFragments<B, B>, r: Vec<B>) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, "for");
        lit(&mut o, &f.var);
        self.onl(&mut o, &f.var_comment);
        match &f.words {
            None => w(&mut o, "nowords"),
            Some((n, x, c)) => {
                self.nls(&mut o, n);
                list(&mut o, x);
                self.onl(&mut o, c);
            }
        }
        self.nls(&mut o, &f.pre_body_comments);
        self.group(&mut o, &f.body);
        self.io(&mut o);
        list(&mut o, &r);
        self.done(o)
    }
    fn case_command(&mut self, f: CaseFragments<B, B>, r: Vec<B>) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, "case");
        o.extend_from_slice(&f.word);
        self.nls(&mut o, &f.post_word_comments);
        self.onl(&mut o, &f.in_comment);
        for a in &f.arms {
            w(&mut o, "arm");
            self.nls(&mut o, &a.patterns.pre_pattern_comments);
            list(&mut o, &a.patterns.pattern_alternatives);
            self.onl(&mut o, &a.patterns.pattern_comment);
            self.group(&mut o, &a.body);
            self.onl(&mut o, &a.arm_comment);
        }
        self.nls(&mut o, &f.post_arms_comments);
        self.io(&mut o);
        list(&mut o, &r);
        self.done(o)
    }
    fn compound_command_into_pipeable(&mut self, c: B) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, "compound:");
        o.extend_from_slice(&c);
        self.done(o)
    }
    fn function_declaration(&mut self, name: String, n: Vec<Newline>, body: B) -> Result<B, Boom> {
        let mut o = Vec::new();
        w(&mut o, "fn");
        lit(&mut o, &name);
        self.nls(&mut o, &n);
        o.extend_from_slice(&body);
        self.done(o)
    }
    fn comments(&mut self, c: Vec<Newline>) -> Result<(), Boom> {
        let mut o = Vec::new();
        w(&mut o, "comments");
        self.nls(&mut o, &c);
        let o = self.done(o)?;
        self.loose.extend_from_slice(&o);
        Ok(())
    }
    fn word(&mut self, k: ComplexWordKind<B>) -> Result<B, Boom> {
        let mut o = Vec::new();
        if self.ast {
            crate::ser::normal(&mut o, &k);
        } else {
            w(&mut o, "w");
            complex(&mut o, &k);
        }
        self.done(o)
    }
    fn redirect(&mut self, k: RedirectKind<B>) -> Result<B, Boom> {
        use RedirectKind::*;
        let mut o = Vec::new();
        let (n, f, x) = match k {
            Read(f, x) => ("<", f, x),
            Write(f, x) => (">", f, x),
            ReadWrite(f, x) => ("<>", f, x),
            Append(f, x) => (">>", f, x),
            Clobber(f, x) => (">|", f, x),
            Heredoc(f, x) => ("<<", f, x),
            DupRead(f, x) => ("<&", f, x),
            DupWrite(f, x) => (">&", f, x),
        };
        w(&mut o, "r");
        w(&mut o, n);
        fd(&mut o, f);
        o.extend_from_slice(&x);
        self.done(o)
    }
}
