//! Writes syntax trees of the bundled builders; `Tr` in its `ast` mode writes the same of what it is told.
use crate::tr::{self, lit, w, Text, B};
use conch_parser::ast::builder::{ComplexWordKind, ParameterSubstitutionKind, SimpleWordKind, WordKind};
use conch_parser::ast::*;
use std::ops::Deref;

/// A part of a syntax tree.
pub trait Ser {
    fn ser(&self, o: &mut B);
}
impl Ser for B {
    fn ser(&self, o: &mut B) {
        o.extend_from_slice(self);
    }
}
impl<T: Text> Ser for TopLevelCommand<T> {
    fn ser(&self, o: &mut B) {
        command(o, &self.0)
    }
}
impl<T: Text> Ser for AtomicTopLevelCommand<T> {
    fn ser(&self, o: &mut B) {
        command(o, &self.0)
    }
}
impl<T: Text> Ser for TopLevelWord<T> {
    fn ser(&self, o: &mut B) {
        word(o, &self.0)
    }
}
impl<T: Text> Ser for AtomicTopLevelWord<T> {
    fn ser(&self, o: &mut B) {
        word(o, &self.0)
    }
}

pub fn list<X: Ser>(o: &mut B, v: &[X]) {
    w(o, "[");
    for x in v {
        x.ser(o);
        w(o, ",");
    }
    w(o, "]");
}
fn command<T: Text, W: Ser, C: Ser, F: Deref<Target = ShellCompoundCommand<T, W, C>>>(
    o: &mut B,
    c: &Command<AndOrList<ListableCommand<PipeableCommand<T, Box<SimpleCommand<T, W, Redirect<W>>>, Box<ShellCompoundCommand<T, W, C>>, F>>>>,
) {
    let l = match c {
        Command::Job(l) => {
            w(o, "job(");
            l
        }
        Command::List(l) => {
            w(o, "list(");
            l
        }
    };
    listable(o, &l.first);
    for x in &l.rest {
        match x {
            AndOr::And(c) => {
                w(o, "&&");
                listable(o, c)
            }
            AndOr::Or(c) => {
                w(o, "||");
                listable(o, c)
            }
        }
    }
    w(o, ")");
}
fn listable<T: Text, W: Ser, C: Ser, F: Deref<Target = ShellCompoundCommand<T, W, C>>>(
    o: &mut B,
    c: &ListableCommand<PipeableCommand<T, Box<SimpleCommand<T, W, Redirect<W>>>, Box<ShellCompoundCommand<T, W, C>>, F>>,
) {
    match c {
        ListableCommand::Single(c) => pipeable(o, c),
        ListableCommand::Pipe(bang, v) => {
            w(o, if *bang { "!pipe(" } else { "pipe(" });
            for c in v {
                pipeable(o, c);
                w(o, "|");
            }
            w(o, ")");
        }
    }
}
fn pipeable<T: Text, W: Ser, C: Ser, F: Deref<Target = ShellCompoundCommand<T, W, C>>>(
    o: &mut B,
    c: &PipeableCommand<T, Box<SimpleCommand<T, W, Redirect<W>>>, Box<ShellCompoundCommand<T, W, C>>, F>,
) {
    match c {
        PipeableCommand::Simple(s) => simple_command(o, s),
        PipeableCommand::Compound(c) => {
            w(o, "compound:");
            compound(o, c)
        }
        PipeableCommand::FunctionDef(n, f) => {
            w(o, "fn");
            lit(o, n.text());
            compound(o, &**f)
        }
    }
}
fn simple_command<T: Text, W: Ser>(o: &mut B, s: &SimpleCommand<T, W, Redirect<W>>) {
    w(o, "simple(");
    for x in &s.redirects_or_env_vars {
        match x {
            RedirectOrEnvVar::Redirect(r) => redirect(o, r),
            RedirectOrEnvVar::EnvVar(v, x) => {
                w(o, "env");
                lit(o, v.text());
                match x {
                    Some(x) => x.ser(o),
                    None => w(o, "none"),
                }
            }
        }
        w(o, ",");
    }
    w(o, ";");
    for x in &s.redirects_or_cmd_words {
        match x {
            RedirectOrCmdWord::Redirect(r) => redirect(o, r),
            RedirectOrCmdWord::CmdWord(x) => x.ser(o),
        }
        w(o, ",");
    }
    w(o, ")");
}
fn redirect<W: Ser>(o: &mut B, r: &Redirect<W>) {
    use Redirect::*;
    let (n, f, x) = match r {
        Read(f, x) => ("<", f, x),
        Write(f, x) => (">", f, x),
        ReadWrite(f, x) => ("<>", f, x),
        Append(f, x) => (">>", f, x),
        Clobber(f, x) => (">|", f, x),
        Heredoc(f, x) => ("<<", f, x),
        DupRead(f, x) => ("<&", f, x),
        DupWrite(f, x) => (">&", f, x),
    };
    w(o, "r");
    w(o, n);
    tr::fd(o, *f);
    x.ser(o);
}
fn compound<T: Text, W: Ser, C: Ser>(o: &mut B, c: &ShellCompoundCommand<T, W, C>) {
    match &c.kind {
        CompoundCommandKind::Brace(v) => {
            w(o, "brace");
            list(o, v)
        }
        CompoundCommandKind::Subshell(v) => {
            w(o, "subshell");
            list(o, v)
        }
        CompoundCommandKind::While(g) => {
            w(o, "while");
            list(o, &g.guard);
            list(o, &g.body)
        }
        CompoundCommandKind::Until(g) => {
            w(o, "until");
            list(o, &g.guard);
            list(o, &g.body)
        }
        CompoundCommandKind::If { conditionals, else_branch } => {
            w(o, "if");
            for g in conditionals {
                list(o, &g.guard);
                list(o, &g.body);
            }
            if let Some(e) = else_branch {
                w(o, "else");
                list(o, e);
            }
        }
        CompoundCommandKind::For { var, words, body } => {
            w(o, "for");
            lit(o, var.text());
            match words {
                None => w(o, "nowords"),
                Some(v) => list(o, v),
            }
            list(o, body)
        }
        CompoundCommandKind::Case { word, arms } => {
            w(o, "case");
            word.ser(o);
            for a in arms {
                w(o, "arm");
                list(o, &a.patterns);
                list(o, &a.body);
            }
        }
    }
    w(o, "io");
    w(o, "[");
    for r in &c.io {
        redirect(o, r);
        w(o, ",");
    }
    w(o, "]");
}
fn word<T: Text, W: Ser, C: Ser>(o: &mut B, x: &ShellWord<T, W, C>) {
    let v = match x {
        ComplexWord::Single(x) => {
            w(o, "w1(");
            std::slice::from_ref(x)
        }
        ComplexWord::Concat(v) => {
            w(o, "wn(");
            &v[..]
        }
    };
    for x in v {
        match x {
            Word::Simple(s) => simple(o, s),
            Word::SingleQuoted(s) => {
                w(o, "'");
                lit(o, s.text())
            }
            Word::DoubleQuoted(v) => {
                w(o, "\"(");
                for s in v {
                    simple(o, s);
                }
                w(o, ")");
            }
        }
    }
    w(o, ")");
}
fn simple<T: Text, W: Ser, C: Ser>(o: &mut B, x: &SimpleWord<T, Parameter<T>, Box<ParameterSubstitution<Parameter<T>, W, C, Arithmetic<T>>>>) {
    match x {
        SimpleWord::Literal(s) => {
            w(o, "L");
            lit(o, s.text())
        }
        SimpleWord::Escaped(s) => {
            w(o, "E");
            lit(o, s.text())
        }
        SimpleWord::Param(p) => {
            w(o, "$");
            tr::param(o, p)
        }
        SimpleWord::Subst(s) => {
            use ParameterSubstitution::*;
            w(o, "${");
            match &**s {
                Command(c) => {
                    w(o, "cmd");
                    list(o, c)
                }
                Len(p) => {
                    w(o, "len");
                    tr::param(o, p)
                }
                Arith(None) => w(o, "arith-none"),
                Arith(Some(a)) => {
                    w(o, "arith");
                    tr::arith(o, a)
                }
                Default(c, p, x) => op(o, "-", *c, p, x),
                Assign(c, p, x) => op(o, "=", *c, p, x),
                Error(c, p, x) => op(o, "?", *c, p, x),
                Alternative(c, p, x) => op(o, "+", *c, p, x),
                RemoveSmallestSuffix(p, x) => op(o, "%", false, p, x),
                RemoveLargestSuffix(p, x) => op(o, "%%", false, p, x),
                RemoveSmallestPrefix(p, x) => op(o, "#", false, p, x),
                RemoveLargestPrefix(p, x) => op(o, "##", false, p, x),
            }
            w(o, "}");
        }
        SimpleWord::Star => w(o, "*"),
        SimpleWord::Question => w(o, "?"),
        SimpleWord::SquareOpen => w(o, "<"),
        SimpleWord::SquareClose => w(o, ">"),
        SimpleWord::Tilde => w(o, "~"),
        SimpleWord::Colon => w(o, ":"),
    }
}
fn op<T: Text, X: Ser>(o: &mut B, name: &str, c: bool, p: &Parameter<T>, x: &Option<X>) {
    w(o, name);
    w(o, if c { ":" } else { "." });
    tr::param(o, p);
    match x {
        Some(x) => x.ser(o),
        None => w(o, "none"),
    }
}

// ---------------------------------------------------------------- words before normalisation
/// A word as it should be normalised: literals next to each other are one, and so are single and
/// double quotes; one piece is no concatenation.
pub fn normal<C: Ser>(o: &mut B, x: &ComplexWordKind<C>) {
    let (v, mut many) = match x {
        ComplexWordKind::Single(x) => (std::slice::from_ref(x), false),
        ComplexWordKind::Concat(v) => (&v[..], true),
    };
    let mut pieces: Vec<B> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let mut p = Vec::new();
        match &v[i] {
            WordKind::Simple(SimpleWordKind::Literal(_)) => {
                w(&mut p, "L");
                p.push(1);
                while i < v.len() {
                    match &v[i] {
                        WordKind::Simple(SimpleWordKind::Literal(s)) => p.extend_from_slice(s.as_bytes()),
                        _ => break,
                    }
                    i += 1;
                }
                p.push(2);
            }
            WordKind::Simple(s) => {
                normal_simple(&mut p, s);
                i += 1;
            }
            WordKind::SingleQuoted(_) => {
                w(&mut p, "'");
                p.push(1);
                while i < v.len() {
                    match &v[i] {
                        WordKind::SingleQuoted(s) => p.extend_from_slice(s.as_bytes()),
                        _ => break,
                    }
                    i += 1;
                }
                p.push(2);
            }
            WordKind::DoubleQuoted(_) => {
                w(&mut p, "\"(");
                let mut open = false;
                while i < v.len() {
                    match &v[i] {
                        WordKind::DoubleQuoted(q) => {
                            for s in q {
                                match s {
                                    SimpleWordKind::Literal(s) => {
                                        if !open {
                                            w(&mut p, "L");
                                            p.push(1);
                                        }
                                        open = true;
                                        p.extend_from_slice(s.as_bytes());
                                    }
                                    s => {
                                        if open {
                                            p.push(2);
                                        }
                                        open = false;
                                        normal_simple(&mut p, s);
                                    }
                                }
                            }
                        }
                        _ => break,
                    }
                    i += 1;
                }
                if open {
                    p.push(2);
                }
                w(&mut p, ")");
            }
        }
        pieces.push(p);
    }
    if pieces.len() == 1 {
        many = false;
    }
    w(o, if many { "wn(" } else { "w1(" });
    for mut p in pieces {
        o.append(&mut p);
    }
    w(o, ")");
}
fn normal_simple<C: Ser>(o: &mut B, x: &SimpleWordKind<C>) {
    match x {
        SimpleWordKind::Literal(s) => {
            w(o, "L");
            lit(o, s)
        }
        SimpleWordKind::Escaped(s) => {
            w(o, "E");
            lit(o, s)
        }
        SimpleWordKind::Param(p) => {
            w(o, "$");
            tr::param(o, p)
        }
        SimpleWordKind::CommandSubst(g) => {
            w(o, "${cmd");
            list(o, &g.commands);
            w(o, "}");
        }
        SimpleWordKind::Subst(s) => {
            use ParameterSubstitutionKind::*;
            let op = |o: &mut B, name: &str, c: bool, p: &DefaultParameter, x: &Option<ComplexWordKind<C>>| {
                w(o, name);
                w(o, if c { ":" } else { "." });
                tr::param(o, p);
                match x {
                    Some(x) => normal(o, x),
                    None => w(o, "none"),
                }
            };
            w(o, "${");
            match &**s {
                Command(g) => {
                    w(o, "cmd");
                    list(o, &g.commands)
                }
                Len(p) => {
                    w(o, "len");
                    tr::param(o, p)
                }
                Arith(None) => w(o, "arith-none"),
                Arith(Some(a)) => {
                    w(o, "arith");
                    tr::arith(o, a)
                }
                Default(c, p, x) => op(o, "-", *c, p, x),
                Assign(c, p, x) => op(o, "=", *c, p, x),
                Error(c, p, x) => op(o, "?", *c, p, x),
                Alternative(c, p, x) => op(o, "+", *c, p, x),
                RemoveSmallestSuffix(p, x) => op(o, "%", false, p, x),
                RemoveLargestSuffix(p, x) => op(o, "%%", false, p, x),
                RemoveSmallestPrefix(p, x) => op(o, "#", false, p, x),
                RemoveLargestPrefix(p, x) => op(o, "##", false, p, x),
            }
            w(o, "}");
        }
        SimpleWordKind::Star => w(o, "*"),
        SimpleWordKind::Question => w(o, "?"),
        SimpleWordKind::SquareOpen => w(o, "<"),
        SimpleWordKind::SquareClose => w(o, ">"),
        SimpleWordKind::Tilde => w(o, "~"),
        SimpleWordKind::Colon => w(o, ":"),
    }
}
