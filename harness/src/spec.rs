//! An independent reference parser, over the specification's own tokens.
//!
//! It states the grammar the library promises: what each construct is, what is handed to the
//! builder, and which error (with which position) a malformed construct gets.
use crate::src::Src;
use crate::tok::*;
use crate::tr::{Boom, Tr, B};
use conch_parser::ast::builder::*;
use conch_parser::ast::builder::ComplexWordKind::{Concat, Single};
use conch_parser::ast::builder::WordKind::{DoubleQuoted, Simple, SingleQuoted};
use conch_parser::ast::{AndOr, Arithmetic, DefaultArithmetic, DefaultParameter, Parameter, RedirectOrCmdWord, RedirectOrEnvVar};
use conch_parser::parse::{ParseError, SourcePos};

type E = ParseError<Boom>;
type R<X> = Result<X, E>;
type Sw = SimpleWordKind<B>;
type Cw = ComplexWordKind<B>;

pub struct P {
    pub t: Vec<T>,
    /// Where further tokens come from.
    more: Option<Lex>,
    pub i: usize,
    pub end: SourcePos,
    pub b: Tr,
    /// Was there an error within a backquoted or heredoc text?
    pub nested: bool,
}

pub struct Delims<'a> {
    pub exact: &'a [K],
    pub words: &'a [&'static str],
    pub token: &'a [K],
}

impl P {
    pub fn new(src: &Src, b: Tr) -> P {
        P { t: Vec::new(), more: Some(Lex::new(src)), i: 0, end: start_pos(), b, nested: false }
    }

    /// How much of the source has been looked at.
    pub fn looked_at(&self) -> usize {
        match &self.more {
            Some(l) => l.at(),
            None => self.end.byte,
        }
    }
    /// Are there more than `j` tokens?
    fn have(&mut self, j: usize) -> bool {
        while self.t.len() <= j {
            match &mut self.more {
                None => return false,
                Some(l) => match l.next() {
                    Some(t) => self.t.push(t),
                    None => {
                        self.end = l.pos;
                        self.more = None;
                    }
                },
            }
        }
        true
    }
    /// Where the first token at or after `byte` starts.
    pub fn next_from(&mut self, byte: usize) -> usize {
        let mut j = 0;
        while self.have(j) {
            if self.t[j].pos.byte >= byte {
                return self.t[j].pos.byte;
            }
            j += 1;
        }
        self.end.byte
    }
    /// Goes to the token which starts at `byte`, or to the end, if that is there; is it?
    pub fn seek(&mut self, byte: usize) -> bool {
        let mut j = 0;
        while self.have(j) {
            if self.t[j].pos.byte == byte {
                self.i = j;
                return true;
            }
            j += 1;
        }
        self.i = j;
        self.end.byte == byte
    }
    pub fn at(&mut self, j: usize) -> Option<K> {
        if self.have(j) { Some(self.t[j].k) } else { None }
    }
    pub fn peek(&mut self) -> Option<K> {
        self.at(self.i)
    }
    pub fn is(&mut self, k: K) -> bool {
        self.peek() == Some(k)
    }
    pub fn eof(&mut self) -> bool {
        !self.have(self.i)
    }
    /// Continues with `t`, which ends at `end`, instead; returns what to `resume` with.
    fn within(&mut self, t: Vec<T>, end: SourcePos) -> (Vec<T>, Option<Lex>, usize, SourcePos) {
        let r = (std::mem::replace(&mut self.t, t), self.more.take(), self.i, self.end);
        self.i = 0;
        self.end = end;
        r
    }
    fn resume(&mut self, r: (Vec<T>, Option<Lex>, usize, SourcePos)) {
        self.t = r.0;
        self.more = r.1;
        self.i = r.2;
        self.end = r.3;
    }
    pub fn pos(&mut self) -> SourcePos {
        if self.eof() { self.end } else { self.t[self.i].pos }
    }
    fn eat(&mut self, k: K) -> bool {
        let y = self.is(k);
        if y {
            self.i += 1;
        }
        y
    }
    fn text(&self, j: usize) -> &str {
        &self.t[j].s
    }
    pub fn unexpected(&mut self) -> E {
        if self.eof() {
            return ParseError::UnexpectedEOF;
        }
        let p = self.pos();
        ParseError::Unexpected(to_token(&self.t[self.i]), p)
    }
    fn expect(&mut self, k: K) -> R<()> {
        if self.eat(k) { Ok(()) } else { Err(self.unexpected()) }
    }

    /// Blanks and escaped newlines.
    pub fn blanks(&mut self) {
        loop {
            if self.is(K::Ws) {
                self.i += 1;
            } else if self.is(K::Backslash) && self.at(self.i + 1) == Some(K::Newline) {
                self.i += 2;
            } else {
                return;
            }
        }
    }
    /// One newline, or one comment with its newline.
    pub fn newline(&mut self) -> Option<Newline> {
        self.blanks();
        if self.eat(K::Newline) {
            return Some(Newline(None));
        }
        if !self.is(K::Pound) {
            return None;
        }
        let mut c = String::new();
        while !self.eof() && !self.is(K::Newline) {
            c.push_str(self.text(self.i));
            self.i += 1;
        }
        self.eat(K::Newline);
        Some(Newline(Some(c)))
    }
    pub fn linebreak(&mut self) -> Vec<Newline> {
        let mut v = Vec::new();
        while let Some(n) = self.newline() {
            v.push(n);
        }
        v
    }

    /// The reserved word ahead (after blanks), if it is one of `ws`.
    pub fn reserved(&mut self, ws: &[&'static str]) -> Option<&'static str> {
        if ws.is_empty() {
            return None;
        }
        self.blanks();
        if !(self.is(K::Name) || self.is(K::Literal)) {
            return None;
        }
        if let Some(k) = self.at(self.i + 1) {
            if !delimits(k) {
                return None;
            }
        }
        let s = self.text(self.i);
        for w in ws {
            if s == *w {
                return Some(*w);
            }
        }
        None
    }
    pub fn eat_reserved(&mut self, ws: &[&'static str]) -> Option<&'static str> {
        let r = self.reserved(ws);
        if r.is_some() {
            self.i += 1;
        }
        r
    }
    pub fn reserved_tok(&mut self, k: K) -> bool {
        self.blanks();
        self.is(k) && self.at(self.i + 1).map_or(true, delimits)
    }

    pub fn complete_command(&mut self) -> R<Option<B>> {
        let pre = self.linebreak();
        if self.eof() {
            if !pre.is_empty() {
                self.b.comments(pre)?;
            }
            return Ok(None);
        }
        Ok(Some(self.command_line(pre)?))
    }
    fn command_line(&mut self, pre: Vec<Newline>) -> R<B> {
        let l = self.and_or()?;
        let (sep, c) = if self.eat(K::Semi) {
            (SeparatorKind::Semi, self.newline())
        } else if self.eat(K::Amp) {
            (SeparatorKind::Amp, self.newline())
        } else {
            match self.newline() {
                None => (SeparatorKind::Other, None),
                n => (SeparatorKind::Newline, n),
            }
        };
        Ok(self.b.complete_command(pre, l, sep, c)?)
    }
    pub fn and_or(&mut self) -> R<B> {
        let first = self.pipeline()?;
        let mut rest = Vec::new();
        loop {
            self.blanks();
            let and = if self.eat(K::AndIf) {
                true
            } else if self.eat(K::OrIf) {
                false
            } else {
                break;
            };
            let c = self.linebreak();
            let n = self.pipeline()?;
            rest.push((c, if and { AndOr::And(n) } else { AndOr::Or(n) }));
        }
        Ok(self.b.and_or_list(first, rest)?)
    }
    pub fn pipeline(&mut self) -> R<B> {
        self.blanks();
        let bang = self.eat(K::Bang);
        let mut v = Vec::new();
        loop {
            self.blanks();
            if self.is(K::Bang) {
                return Err(self.unexpected());
            }
            let c = self.command()?;
            if self.eat(K::Pipe) {
                let n = self.linebreak();
                v.push((n, c));
            } else {
                v.push((Vec::new(), c));
                break;
            }
        }
        Ok(self.b.pipeline(bang, v)?)
    }
    fn compound_ahead(&mut self) -> Option<&'static str> {
        self.blanks();
        if self.is(K::ParenOpen) {
            return Some("(");
        }
        if self.reserved_tok(K::CurlyOpen) {
            return Some("{");
        }
        self.reserved(&["for", "case", "if", "while", "until"])
    }
    pub fn command(&mut self) -> R<B> {
        if self.compound_ahead().is_some() {
            let c = self.compound()?;
            return Ok(self.b.compound_command_into_pipeable(c)?);
        }
        let mut f = self.reserved(&["function"]).is_some();
        if !f && self.is(K::Name) {
            let mut j = self.i + 1;
            if self.at(j) == Some(K::Ws) {
                let here = self.i;
                self.i = j;
                self.blanks();
                j = self.i;
                self.i = here;
            }
            f = self.at(j) == Some(K::ParenOpen);
        }
        if f { self.function() } else { self.simple_command() }
    }

    pub fn simple_command(&mut self) -> R<B> {
        let mut before = Vec::new();
        let mut args = Vec::new();
        loop {
            self.blanks();
            if self.is(K::Name) && self.at(self.i + 1) == Some(K::Equals) {
                let n = self.text(self.i).to_owned();
                self.i += 2;
                let v = match self.word_here()? {
                    Some(w) => Some(self.b.word(w)?),
                    None => None,
                };
                before.push(RedirectOrEnvVar::EnvVar(n, v));
                continue;
            }
            match self.redirect()? {
                Some(Ok(r)) => before.push(RedirectOrEnvVar::Redirect(r)),
                Some(Err(w)) => {
                    args.push(RedirectOrCmdWord::CmdWord(w));
                    break;
                }
                None => break,
            }
        }
        loop {
            match self.redirect()? {
                Some(Ok(r)) => args.push(RedirectOrCmdWord::Redirect(r)),
                Some(Err(w)) => args.push(RedirectOrCmdWord::CmdWord(w)),
                None => break,
            }
        }
        if before.is_empty() && args.is_empty() {
            return Err(self.unexpected());
        }
        Ok(self.b.simple_command(before, args)?)
    }
    pub fn redirect_list(&mut self) -> R<Vec<B>> {
        let mut v = Vec::new();
        loop {
            self.blanks();
            let p = self.pos();
            match self.redirect()? {
                Some(Ok(r)) => v.push(r),
                Some(Err(_)) => return Err(ParseError::BadFd(p, self.pos())),
                None => return Ok(v),
            }
        }
    }
    /// A redirection, or else a word, if there is one.
    pub fn redirect(&mut self) -> R<Option<Result<B, B>>> {
        let w = self.word_raw()?;
        let fd = match &w {
            Some(w) => match number(w) {
                Some(n) => Some(n),
                None => return Ok(Some(Err(self.b.word(clone_cw(w))?))),
            },
            None => None,
        };
        let op = match self.peek() {
            Some(K::Less) | Some(K::Great) | Some(K::DGreat) | Some(K::Clobber) | Some(K::LessAnd)
            | Some(K::GreatAnd) | Some(K::LessGreat) => self.peek().unwrap(),
            Some(K::DLess) | Some(K::DLessDash) => return Ok(Some(Ok(self.heredoc(fd)?))),
            _ => {
                return Ok(match w {
                    Some(w) => Some(Err(self.b.word(w)?)),
                    None => None,
                })
            }
        };
        self.i += 1;
        self.blanks();
        let target = if op == K::LessAnd || op == K::GreatAnd {
            if self.reserved_tok(K::Dash) {
                self.i += 1;
                Single(Simple(SimpleWordKind::Literal("-".to_owned())))
            } else {
                let p = self.pos();
                let x = match self.word_raw()? {
                    Some(x) => x,
                    None => return Err(self.unexpected()),
                };
                let ok = match &x {
                    Single(x) => maybe_numeric(x),
                    Concat(v) => v.iter().all(maybe_numeric),
                };
                if !ok {
                    return Err(ParseError::BadFd(p, self.pos()));
                }
                x
            }
        } else {
            match self.word_raw()? {
                Some(x) => x,
                None => return Err(self.unexpected()),
            }
        };
        let x = self.b.word(target)?;
        let r = match op {
            K::Less => RedirectKind::Read(fd, x),
            K::Great => RedirectKind::Write(fd, x),
            K::DGreat => RedirectKind::Append(fd, x),
            K::Clobber => RedirectKind::Clobber(fd, x),
            K::LessGreat => RedirectKind::ReadWrite(fd, x),
            K::LessAnd => RedirectKind::DupRead(fd, x),
            _ => RedirectKind::DupWrite(fd, x),
        };
        Ok(Some(Ok(self.b.redirect(r)?)))
    }

    /// The index after the token at `i` together with everything it opens, or after `close` when given.
    fn balanced(&mut self, mut i: usize, close: Option<(K, SourcePos)>) -> Result<usize, E> {
        let mut stack: Vec<(K, SourcePos)> = Vec::new();
        if let Some(c) = close {
            stack.push(c);
        }
        loop {
            if let Some(&(k, p)) = stack.last() {
                if self.at(i) == Some(k) {
                    i += 1;
                    stack.pop();
                    if stack.is_empty() {
                        return Ok(i);
                    }
                    continue;
                }
                if !self.have(i) {
                    let open = match k { K::ParenClose => K::ParenOpen, K::CurlyClose => K::CurlyOpen, k => k };
                    let t = T { k: open, s: String::new(), pos: p };
                    return Err(ParseError::Unmatched(to_token(&t), p));
                }
                if k == K::SingleQuote {
                    i += 1;
                    continue;
                }
            } else if !self.have(i) {
                return Ok(i);
            }
            let p = self.t[i].pos;
            let in_dq = stack.last().map_or(false, |x| x.0 == K::DoubleQuote);
            i += 1;
            match self.t[i - 1].k {
                K::Backslash => {
                    if self.have(i) {
                        i += 1;
                    }
                    if stack.is_empty() {
                        return Ok(i);
                    }
                }
                K::Backtick => stack.push((K::Backtick, p)),
                K::SingleQuote => {
                    if !in_dq {
                        stack.push((K::SingleQuote, p));
                    }
                }
                K::DoubleQuote => stack.push((K::DoubleQuote, p)),
                // a parenthesis in double quotes is text, unless it starts a substitution
                K::ParenOpen => {
                    if !in_dq {
                        stack.push((K::ParenClose, p));
                    }
                }
                K::Dollar => match self.at(i) {
                    Some(K::CurlyOpen) => {
                        stack.push((K::CurlyClose, self.t[i].pos));
                        i += 1;
                    }
                    Some(K::ParenOpen) => {
                        stack.push((K::ParenClose, self.t[i].pos));
                        i += 1;
                    }
                    _ => {
                        if stack.is_empty() {
                            return Ok(i);
                        }
                    }
                },
                _ => {
                    if stack.is_empty() {
                        return Ok(i);
                    }
                }
            }
        }
    }

    pub fn heredoc(&mut self, fd: Option<u16>) -> R<B> {
        let strip = if self.eat(K::DLess) { false } else { self.expect(K::DLessDash)?; true };
        self.blanks();
        let first = self.i;
        loop {
            match self.peek() {
                None => break,
                Some(k) if delimits(k) && k != K::ParenOpen => break,
                _ => {}
            }
            self.i = self.balanced(self.i, None)?;
        }
        // remove the quotes from the delimiter
        let mut quoted = false;
        let mut delim = String::new();
        let end = self.i;
        let mut j = first;
        while j < end {
            let k = self.t[j].k;
            let p = self.t[j].pos;
            j += 1;
            match k {
                K::Backslash => {
                    quoted = true;
                    if j < end {
                        delim.push_str(&self.t[j].s);
                        j += 1;
                    }
                }
                K::SingleQuote | K::DoubleQuote | K::Backtick => {
                    quoted = true;
                    let close = self.balanced(j, Some((k, p)))? - 1;
                    if k == K::Backtick {
                        delim.push('`');
                    }
                    while j < close {
                        let drop = self.t[j].k == K::Backslash && j + 1 < close && match (k, self.t[j + 1].k) {
                            (K::SingleQuote, _) => false,
                            (_, K::Dollar) | (_, K::Backtick) | (_, K::Backslash) => true,
                            (K::DoubleQuote, K::DoubleQuote) | (K::DoubleQuote, K::Newline) => true,
                            _ => false,
                        };
                        if drop {
                            delim.push_str(&self.t[j + 1].s);
                            j += 2;
                        } else if k != K::SingleQuote && self.t[j].k == K::Backslash && j + 1 < close {
                            delim.push('\\');
                            delim.push_str(&self.t[j + 1].s);
                            j += 2;
                        } else {
                            delim.push_str(&self.t[j].s);
                            j += 1;
                        }
                    }
                    if k == K::Backtick {
                        delim.push('`');
                    }
                    j = close + 1;
                }
                _ => delim.push_str(&self.t[j - 1].s),
            }
        }
        if delim.is_empty() {
            return Err(self.unexpected());
        }
        // the rest of this line stays to be parsed; the body starts after it
        let mut j = self.i;
        let mut fresh = true; // could a word, or a comment, start here?
        while self.have(j) {
            let k = self.t[j].k;
            if k == K::Newline {
                j += 1;
                break;
            }
            if fresh && k == K::Pound {
                while self.have(j) && self.t[j].k != K::Newline {
                    j += 1;
                }
                continue;
            }
            fresh = delimits(k) || (k == K::Backslash && self.at(j + 1) == Some(K::Newline));
            j = self.balanced(j, None)?;
        }
        let body_start = j;
        let mut body: Vec<T> = Vec::new();
        let body_end;
        loop {
            let mut line: Vec<T> = Vec::new();
            if strip && self.have(j) && self.t[j].k == K::Ws {
                let s = self.t[j].s.trim_start_matches('\t').to_owned();
                let n = self.t[j].s.len() - s.len();
                let mut p = self.t[j].pos;
                p.byte += n;
                p.col += n;
                if !s.is_empty() {
                    line.push(T { k: K::Ws, s, pos: p });
                }
                j += 1;
            }
            let mut text = String::new();
            for t in &line {
                text.push_str(&t.s);
            }
            while self.have(j) && self.t[j].k != K::Newline {
                text.push_str(&self.t[j].s);
                line.push(self.t[j].clone());
                j += 1;
            }
            let more = self.have(j);
            if !more && line.is_empty() {
                break;
            }
            if text == delim || (text.ends_with('\r') && text[..text.len() - 1] == delim[..]) {
                if more {
                    j += 1;
                }
                break;
            }
            body.append(&mut line);
            if more {
                body.push(self.t[j].clone());
                j += 1;
            }
        }
        // the position right after the body's last character
        if let Some(t) = body.last() {
            let mut p = t.pos;
            p.advance_text(&t.s);
            body_end = p;
        } else if self.have(body_start) {
            body_end = self.t[body_start].pos;
        } else {
            body_end = self.end;
        }
        self.t.drain(body_start..j);

        let w = if quoted {
            let mut s = String::new();
            for t in &body {
                s.push_str(&t.s);
            }
            Single(Simple(SimpleWordKind::Literal(s)))
        } else {
            let rest = self.within(body, body_end);
            let v = self.interpolated(None, body_end);
            self.resume(rest);
            self.nested |= v.is_err();
            let mut v = v?;
            match v.len() {
                0 => Single(Simple(SimpleWordKind::Literal(String::new()))),
                1 => Single(Simple(v.pop().unwrap())),
                _ => Concat(v.into_iter().map(Simple).collect()),
            }
        };
        let w = self.b.word(w)?;
        Ok(self.b.redirect(RedirectKind::Heredoc(fd, w))?)
    }

    pub fn word(&mut self) -> R<Option<B>> {
        let r = match self.word_raw()? {
            Some(w) => Some(self.b.word(w)?),
            None => None,
        };
        self.blanks();
        Ok(r)
    }
    fn word_raw(&mut self) -> R<Option<Cw>> {
        self.blanks();
        if self.is(K::Pound) {
            return Ok(None);
        }
        self.word_here()
    }
    /// The word, if any, which starts right here (a `#` is not a comment then).
    pub fn word_here(&mut self) -> R<Option<Cw>> {
        let mut v = Vec::new();
        loop {
            match self.peek() {
                Some(k) if !delimits(k) => {}
                _ => break,
            }
            match self.piece()? {
                Some(p) => v.push(p),
                None => break,
            }
        }
        Ok(match v.len() {
            0 => None,
            1 => Some(Single(v.pop().unwrap())),
            _ => Some(Concat(v)),
        })
    }
    /// Text in which only `$`, backticks and some escapes are special, up to `close` or the end.
    fn interpolated(&mut self, close: Option<K>, start: SourcePos) -> R<Vec<Sw>> {
        let mut v = Vec::new();
        let mut buf = String::new();
        loop {
            let k = match self.peek() {
                None => match close {
                    Some(_) => return Err(ParseError::Unmatched(conch_parser::token::Token::DoubleQuote, start)),
                    None => break,
                },
                Some(k) => k,
            };
            if Some(k) == close {
                self.i += 1;
                break;
            }
            let special = match k {
                K::Dollar | K::Positional | K::Backtick => true,
                K::Backslash => match self.at(self.i + 1) {
                    Some(K::Dollar) | Some(K::Backtick) | Some(K::DoubleQuote) | Some(K::Backslash) | Some(K::Newline) => true,
                    _ => false,
                },
                _ => false,
            };
            if !special {
                buf.push_str(self.text(self.i));
                self.i += 1;
                continue;
            }
            if !buf.is_empty() {
                v.push(SimpleWordKind::Literal(std::mem::replace(&mut buf, String::new())));
            }
            v.push(match k {
                K::Backtick => self.backtick()?,
                K::Backslash => {
                    self.i += 2;
                    SimpleWordKind::Escaped(self.text(self.i - 1).to_owned())
                }
                _ => self.dollar()?,
            });
        }
        if !buf.is_empty() {
            v.push(SimpleWordKind::Literal(buf));
        }
        Ok(v)
    }
    pub fn backtick(&mut self) -> R<Sw> {
        let p = self.pos();
        self.expect(K::Backtick)?;
        let close = self.balanced(self.i, Some((K::Backtick, p)))? - 1;
        // one level of backslashes goes: those before $, ` and backslash; what is left is read as a
        // text of its own, of which each character has its place in the source
        let mut inner = Vec::new();
        let mut removed = false;
        let mut j = self.i;
        while j < close {
            if self.t[j].k == K::Backslash && j + 1 < close {
                match self.t[j + 1].k {
                    K::Dollar | K::Backtick | K::Backslash => removed = true,
                    _ => inner.push(self.t[j].clone()),
                }
                inner.push(self.t[j + 1].clone());
                j += 2;
            } else {
                inner.push(self.t[j].clone());
                j += 1;
            }
        }
        if removed {
            let mut text = Vec::new();
            let mut places = Vec::new();
            for t in &inner {
                let mut p = t.pos;
                for c in t.s.chars() {
                    text.push(c);
                    places.push(p);
                    adv(&mut p, c);
                }
            }
            inner.clear();
            let mut lex = Lex::new(&Src::chars(&text));
            loop {
                let i = lex.at();
                match lex.next() {
                    Some(mut t) => {
                        t.pos = places[i];
                        inner.push(t);
                    }
                    None => break,
                }
            }
        }
        self.i = close + 1;
        let after = self.pos_after(close);
        let rest = self.within(inner, after);
        let g = self.commands(Delims { exact: &[], words: &[], token: &[] });
        self.resume(rest);
        self.nested |= g.is_err();
        Ok(SimpleWordKind::CommandSubst(g?))
    }
    fn pos_after(&self, j: usize) -> SourcePos {
        let mut p = self.t[j].pos;
        p.advance_text(&self.t[j].s);
        p
    }
    pub fn dollar(&mut self) -> R<Sw> {
        if self.is(K::Positional) {
            let d = self.text(self.i).as_bytes()[1] - b'0';
            self.i += 1;
            return Ok(SimpleWordKind::Param(Parameter::Positional(d as u32)));
        }
        if !self.is(K::Dollar) {
            return Err(self.unexpected());
        }
        self.i += 1;
        if self.is(K::Positional) {
            // `$$1`: the process id, and a digit
            let t = &mut self.t[self.i];
            t.k = K::Literal;
            t.s.remove(0);
            t.pos.byte += 1;
            t.pos.col += 1;
            return Ok(SimpleWordKind::Param(Parameter::Dollar));
        }
        match self.peek() {
            Some(K::Star) | Some(K::Pound) | Some(K::Question) | Some(K::Dollar) | Some(K::Bang) | Some(K::Dash)
            | Some(K::At) | Some(K::Name) => Ok(SimpleWordKind::Param(self.param()?)),
            Some(K::ParenOpen) => {
                if self.at(self.i + 1) == Some(K::ParenOpen) {
                    self.i += 2;
                    self.blanks();
                    let a = if self.is(K::ParenClose) { None } else { Some(self.arith()?) };
                    self.blanks();
                    self.expect(K::ParenClose)?;
                    self.blanks();
                    self.expect(K::ParenClose)?;
                    Ok(SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Arith(a))))
                } else {
                    let g = self.subshell(true)?;
                    Ok(SimpleWordKind::Subst(Box::new(ParameterSubstitutionKind::Command(g))))
                }
            }
            Some(K::CurlyOpen) => self.curly(),
            _ => Ok(SimpleWordKind::Literal("$".to_owned())),
        }
    }
    /// What may stand for a parameter in braces.
    fn param(&mut self) -> R<DefaultParameter> {
        let p = self.pos();
        if self.eof() {
            return Err(ParseError::UnexpectedEOF);
        }
        self.i += 1;
        let t = &self.t[self.i - 1];
        Ok(match t.k {
            K::Star => Parameter::Star,
            K::Pound => Parameter::Pound,
            K::Question => Parameter::Question,
            K::Dollar => Parameter::Dollar,
            K::Bang => Parameter::Bang,
            K::Dash => Parameter::Dash,
            K::At => Parameter::At,
            K::Name => Parameter::Var(t.s.clone()),
            K::Literal => match decimal(t.s.as_bytes(), u32::max_value() as u64) {
                Some(n) => Parameter::Positional(n as u32),
                None => return Err(ParseError::BadSubst(to_token(t), p)),
            },
            _ => return Err(ParseError::BadSubst(to_token(t), p)),
        })
    }
    fn curly(&mut self) -> R<Sw> {
        use ParameterSubstitutionKind::*;
        let open = self.pos();
        self.i += 1;
        let p = self.param()?;
        let pound = p == Parameter::Pound;
        if self.eat(K::Percent) {
            let largest = self.eat(K::Percent);
            let x = self.curly_word(open)?;
            return Ok(SimpleWordKind::Subst(Box::new(if largest { RemoveLargestSuffix(p, x) } else { RemoveSmallestSuffix(p, x) })));
        }
        if self.eat(K::Pound) {
            let largest = self.eat(K::Pound);
            let x = self.curly_word(open)?;
            return Ok(SimpleWordKind::Subst(Box::new(if largest {
                RemoveLargestPrefix(p, x)
            } else if pound && x.is_none() {
                Len(p)
            } else {
                RemoveSmallestPrefix(p, x)
            })));
        }
        let operator = match self.peek() {
            Some(K::Colon) | Some(K::Dash) | Some(K::Equals) | Some(K::Question) | Some(K::Plus) | Some(K::CurlyClose) => true,
            _ => false,
        };
        if pound && !operator {
            let q = self.param()?;
            self.expect(K::CurlyClose)?;
            return Ok(SimpleWordKind::Subst(Box::new(Len(q))));
        }
        let colon = self.eat(K::Colon);
        let op = match self.peek() {
            None => return Err(ParseError::Unmatched(conch_parser::token::Token::CurlyOpen, open)),
            Some(k) => k,
        };
        match op {
            K::CurlyClose if !colon => {
                self.i += 1;
                return Ok(SimpleWordKind::Param(p));
            }
            K::Dash | K::Equals | K::Question | K::Plus => self.i += 1,
            _ => return Err(ParseError::BadSubst(to_token(&self.t[self.i]), self.pos())),
        }
        let x = self.curly_word(open)?;
        let len = pound && !colon && x.is_none();
        Ok(SimpleWordKind::Subst(Box::new(match op {
            K::Dash if len => Len(Parameter::Dash),
            K::Question if len => Len(Parameter::Question),
            K::Dash => Default(colon, p, x),
            K::Equals => Assign(colon, p, x),
            K::Question => Error(colon, p, x),
            _ => Alternative(colon, p, x),
        })))
    }
    fn curly_word(&mut self, open: SourcePos) -> R<Option<Cw>> {
        let mut v = Vec::new();
        let mut in_word = false;
        loop {
            match self.peek() {
                None => return Err(ParseError::Unmatched(conch_parser::token::Token::CurlyOpen, open)),
                Some(K::CurlyClose) => {
                    self.i += 1;
                    break;
                }
                Some(k) if delimits(k) => {
                    in_word = false;
                    v.push(Simple(SimpleWordKind::Literal(self.text(self.i).to_owned())));
                    self.i += 1;
                }
                Some(K::Pound) => {
                    v.push(Simple(SimpleWordKind::Literal("#".to_owned())));
                    self.i += 1;
                }
                // an escaped newline separates the pieces of a word, and stands for itself elsewhere
                Some(K::Backslash) if !in_word && self.at(self.i + 1) == Some(K::Newline) => {
                    v.push(Simple(SimpleWordKind::Escaped("\n".to_owned())));
                    self.i += 2;
                }
                _ => {
                    let p = self.piece()?;
                    in_word = p.is_some();
                    v.extend(p);
                }
            }
        }
        Ok(match v.len() {
            0 => None,
            1 => Some(Single(v.pop().unwrap())),
            _ => Some(Concat(v)),
        })
    }
    /// One piece of a word (`None`: a backslash with nothing left to escape, or an escaped newline).
    fn piece(&mut self) -> R<Option<WordKind<B>>> {
        let k = self.peek();
        match k {
            Some(K::Dollar) | Some(K::Positional) => return Ok(Some(Simple(self.dollar()?))),
            Some(K::Backtick) => return Ok(Some(Simple(self.backtick()?))),
            _ => {}
        }
        let p = self.pos();
        self.i += 1;
        Ok(Some(match k.unwrap() {
            K::Star => Simple(SimpleWordKind::Star),
            K::Question => Simple(SimpleWordKind::Question),
            K::Tilde => Simple(SimpleWordKind::Tilde),
            K::SquareOpen => Simple(SimpleWordKind::SquareOpen),
            K::SquareClose => Simple(SimpleWordKind::SquareClose),
            K::Colon => Simple(SimpleWordKind::Colon),
            K::Backslash => {
                if self.eof() {
                    return Ok(None);
                }
                self.i += 1;
                if self.t[self.i - 1].k == K::Newline {
                    return Ok(None);
                }
                Simple(SimpleWordKind::Escaped(self.text(self.i - 1).to_owned()))
            }
            K::SingleQuote => {
                let mut s = String::new();
                while !self.is(K::SingleQuote) {
                    if self.eof() {
                        return Err(ParseError::Unmatched(conch_parser::token::Token::SingleQuote, p));
                    }
                    s.push_str(self.text(self.i));
                    self.i += 1;
                }
                self.i += 1;
                SingleQuoted(s)
            }
            K::DoubleQuote => DoubleQuoted(self.interpolated(Some(K::DoubleQuote), p)?),
            _ => Simple(SimpleWordKind::Literal(self.text(self.i - 1).to_owned())),
        }))
    }

    pub fn subshell(&mut self, may_be_empty: bool) -> R<CommandGroup<B>> {
        let p = self.pos();
        self.expect(K::ParenOpen)?;
        let g = self.commands(Delims { exact: &[K::ParenClose], words: &[], token: &[] })?;
        if self.eof() {
            return Err(ParseError::Unmatched(conch_parser::token::Token::ParenOpen, p));
        }
        if !self.is(K::ParenClose) || (g.commands.is_empty() && !may_be_empty) {
            return Err(self.unexpected());
        }
        self.i += 1;
        Ok(g)
    }
    fn at_end_of(&mut self, d: &Delims<'_>) -> bool {
        if let Some(k) = self.peek() {
            if d.exact.contains(&k) {
                return true;
            }
        }
        if self.reserved(d.words).is_some() {
            return true;
        }
        d.token.iter().any(|&k| self.reserved_tok(k))
    }
    pub fn commands(&mut self, d: Delims<'_>) -> R<CommandGroup<B>> {
        let mut v = Vec::new();
        let mut trailing = Vec::new();
        loop {
            if self.at_end_of(&d) {
                break;
            }
            let c = self.linebreak();
            if self.at_end_of(&d) || self.eof() {
                trailing = c;
                break;
            }
            v.push(self.command_line(c)?);
        }
        Ok(CommandGroup { commands: v, trailing_comments: trailing })
    }
    pub fn some_commands(&mut self, words: &[&'static str], token: &[K]) -> R<CommandGroup<B>> {
        let g = self.commands(Delims { exact: &[], words, token })?;
        if g.commands.is_empty() { Err(self.unexpected()) } else { Ok(g) }
    }
    fn missing(&mut self, cmd: &'static str, start: SourcePos, kw: &'static str) -> E {
        ParseError::IncompleteCmd(cmd, start, kw, self.pos())
    }
    pub fn do_group(&mut self) -> R<CommandGroup<B>> {
        let p = self.pos();
        if self.eat_reserved(&["do"]).is_none() {
            return Err(self.unexpected());
        }
        let g = self.some_commands(&["done"], &[])?;
        if self.eat_reserved(&["done"]).is_none() {
            return Err(self.missing("do", p, "done"));
        }
        Ok(g)
    }
    pub fn brace(&mut self) -> R<CommandGroup<B>> {
        let p = self.pos();
        if !self.reserved_tok(K::CurlyOpen) {
            self.eat(K::CurlyOpen);
            return Err(self.unexpected());
        }
        self.i += 1;
        let g = self.some_commands(&[], &[K::CurlyClose])?;
        if !self.reserved_tok(K::CurlyClose) {
            return Err(ParseError::Unmatched(conch_parser::token::Token::CurlyOpen, p));
        }
        self.i += 1;
        Ok(g)
    }
    pub fn compound(&mut self) -> R<B> {
        match self.compound_ahead() {
            Some("(") => {
                let g = self.subshell(false)?;
                let r = self.redirect_list()?;
                Ok(self.b.subshell(g, r)?)
            }
            Some("{") => {
                let g = self.brace()?;
                let r = self.redirect_list()?;
                Ok(self.b.brace_group(g, r)?)
            }
            Some("for") => {
                let f = self.for_()?;
                let r = self.redirect_list()?;
                Ok(self.b.for_command(f, r)?)
            }
            Some("case") => {
                let f = self.case()?;
                let r = self.redirect_list()?;
                Ok(self.b.case_command(f, r)?)
            }
            Some("if") => {
                let f = self.if_()?;
                let r = self.redirect_list()?;
                Ok(self.b.if_command(f, r)?)
            }
            Some(k) => {
                let kind = if k == "while" { LoopKind::While } else { LoopKind::Until };
                let p = self.pos();
                self.i += 1;
                let guard = self.some_commands(&["do"], &[])?;
                if self.reserved(&["do"]).is_none() {
                    return Err(self.missing(k, p, "do"));
                }
                let body = self.do_group()?;
                let r = self.redirect_list()?;
                Ok(self.b.loop_command(kind, GuardBodyPairGroup { guard, body }, r)?)
            }
            None => Err(self.unexpected()),
        }
    }
    pub fn if_(&mut self) -> R<IfFragments<B>> {
        let p = self.pos();
        self.i += 1;
        let mut conditionals = Vec::new();
        loop {
            let guard = self.some_commands(&["then"], &[])?;
            if self.eat_reserved(&["then"]).is_none() {
                return Err(self.missing("if", p, "then"));
            }
            let body = self.some_commands(&["elif", "else", "fi"], &[])?;
            conditionals.push(GuardBodyPairGroup { guard, body });
            let else_branch = match self.eat_reserved(&["elif", "else", "fi"]) {
                None => return Err(self.missing("if", p, "fi")),
                Some("elif") => continue,
                Some("else") => {
                    let g = self.some_commands(&["fi"], &[])?;
                    if self.eat_reserved(&["fi"]).is_none() {
                        return Err(self.missing("if", p, "fi"));
                    }
                    Some(g)
                }
                Some(_) => None,
            };
            return Ok(IfFragments { conditionals, else_branch });
        }
    }
    /// A name, or the error a literal or anything else in its place deserves.
    fn name(&mut self) -> R<String> {
        self.blanks();
        let p = self.pos();
        if self.is(K::Name) {
            self.i += 1;
            Ok(self.text(self.i - 1).to_owned())
        } else if self.is(K::Literal) {
            Err(ParseError::BadIdent(self.text(self.i).to_owned(), p))
        } else {
            Err(self.unexpected())
        }
    }
    pub fn for_(&mut self) -> R<ForFragments<B, B>> {
        let p = self.pos();
        self.i += 1;
        let var = self.name()?;
        let var_comment = self.newline();
        let mut post = self.linebreak();
        let (words, pre_body_comments) = if self.eat_reserved(&["in"]).is_some() {
            let mut v = Vec::new();
            while let Some(w) = self.word()? {
                v.push(w);
            }
            let semi = self.eat(K::Semi);
            let c = self.newline();
            if !semi && c.is_none() {
                return Err(self.unexpected());
            }
            (Some((post, v, c)), self.linebreak())
        } else if self.eat(K::Semi) {
            post.append(&mut self.linebreak());
            (None, post)
        } else if self.reserved(&["do"]).is_none() {
            return Err(self.missing("for", p, "in"));
        } else {
            (None, post)
        };
        if self.reserved(&["do"]).is_none() {
            return Err(self.missing("for", p, "do"));
        }
        let body = self.do_group()?;
        Ok(ForFragments { var, var_comment, words, pre_body_comments, body })
    }
    pub fn case(&mut self) -> R<CaseFragments<B, B>> {
        let p = self.pos();
        self.i += 1;
        let word = match self.word()? {
            Some(w) => w,
            None => return Err(self.unexpected()),
        };
        let post_word_comments = self.linebreak();
        if self.eat_reserved(&["in"]).is_none() {
            return Err(self.missing("case", p, "in"));
        }
        let in_comment = self.newline();
        let mut arms = Vec::new();
        let mut post_arms_comments;
        loop {
            let pre_pattern_comments = self.linebreak();
            if self.reserved(&["esac"]).is_some() {
                post_arms_comments = pre_pattern_comments;
                break;
            }
            self.eat(K::ParenOpen);
            if self.eof() {
                return Err(self.missing("case", p, "esac"));
            }
            let mut pattern_alternatives = Vec::new();
            loop {
                match self.word()? {
                    Some(w) => pattern_alternatives.push(w),
                    None => return Err(self.unexpected()),
                }
                if self.eat(K::ParenClose) {
                    break;
                }
                if self.eof() {
                    return Err(self.missing("case", p, "esac"));
                }
                self.expect(K::Pipe)?;
            }
            let pattern_comment = self.newline();
            let body = self.commands(Delims { exact: &[K::DSemi], words: &["esac"], token: &[] })?;
            let more = self.eat(K::DSemi);
            let arm_comment = if more { self.newline() } else { None };
            arms.push(CaseArm {
                patterns: CasePatternFragments { pre_pattern_comments, pattern_alternatives, pattern_comment },
                body,
                arm_comment,
            });
            if !more {
                post_arms_comments = Vec::new();
                break;
            }
        }
        post_arms_comments.append(&mut self.linebreak());
        if self.eat_reserved(&["esac"]).is_none() {
            return Err(self.missing("case", p, "esac"));
        }
        Ok(CaseFragments { word, post_word_comments, in_comment, arms, post_arms_comments })
    }
    pub fn function(&mut self) -> R<B> {
        let kw = self.eat_reserved(&["function"]).is_some();
        let name = self.name()?;
        let mut body = None;
        let mut parens = false;
        if self.is(K::ParenOpen) {
            parens = true;
        } else if !(kw && self.is(K::Newline)) {
            self.expect(K::Ws)?;
            self.blanks();
            if !kw {
                parens = true;
            } else if self.is(K::ParenOpen) {
                let g = self.subshell(true)?;
                if !(g.commands.is_empty() && g.trailing_comments.is_empty()) {
                    let r = self.redirect_list()?;
                    body = Some(self.b.subshell(g, r)?);
                }
            }
        }
        if parens {
            self.expect(K::ParenOpen)?;
            self.blanks();
            self.expect(K::ParenClose)?;
        }
        let (c, body) = match body {
            Some(b) => (Vec::new(), b),
            None => {
                let c = self.linebreak();
                (c, self.compound()?)
            }
        };
        Ok(self.b.function_declaration(name, c, body)?)
    }

    pub fn arith(&mut self) -> R<DefaultArithmetic> {
        let mut v = vec![self.assignment()?];
        while self.eat(K::Comma) {
            v.push(self.assignment()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Arithmetic::Sequence(v) })
    }
    fn assignment(&mut self) -> R<DefaultArithmetic> {
        use Arithmetic::*;
        self.blanks();
        // does an assignment operator follow a variable?
        let mut j = self.i;
        while self.at(j) == Some(K::Dollar) {
            j += 1;
        }
        let mut op = None;
        if self.at(j) == Some(K::Name) {
            j += 1;
            loop {
                if self.at(j) == Some(K::Ws) {
                    j += 1;
                } else if self.at(j) == Some(K::Backslash) && self.at(j + 1) == Some(K::Newline) {
                    j += 2;
                } else {
                    break;
                }
            }
            match self.at(j) {
                Some(K::Equals) => {
                    if self.at(j + 1) != Some(K::Equals) {
                        op = Some(K::Equals);
                    }
                }
                Some(k @ K::Star) | Some(k @ K::Slash) | Some(k @ K::Percent) | Some(k @ K::Plus) | Some(k @ K::Dash)
                | Some(k @ K::DLess) | Some(k @ K::DGreat) | Some(k @ K::Amp) | Some(k @ K::Pipe) | Some(k @ K::Caret) => {
                    if self.at(j + 1) == Some(K::Equals) {
                        op = Some(k);
                    }
                }
                _ => {}
            }
        }
        let op = match op {
            None => return self.ternary(),
            Some(op) => op,
        };
        let v = self.var()?;
        self.blanks();
        self.i += if op == K::Equals { 1 } else { 2 };
        let x = Box::new(self.assignment()?);
        let l = Box::new(Var(v.clone()));
        let x = match op {
            K::Star => Box::new(Mult(l, x)),
            K::Slash => Box::new(Div(l, x)),
            K::Percent => Box::new(Modulo(l, x)),
            K::Plus => Box::new(Add(l, x)),
            K::Dash => Box::new(Sub(l, x)),
            K::DLess => Box::new(ShiftLeft(l, x)),
            K::DGreat => Box::new(ShiftRight(l, x)),
            K::Amp => Box::new(BitwiseAnd(l, x)),
            K::Pipe => Box::new(BitwiseOr(l, x)),
            K::Caret => Box::new(BitwiseXor(l, x)),
            _ => x,
        };
        Ok(Assign(v, x))
    }
    fn ternary(&mut self) -> R<DefaultArithmetic> {
        let g = self.binary(0)?;
        self.blanks();
        if !self.eat(K::Question) {
            return Ok(g);
        }
        let a = self.ternary()?;
        self.blanks();
        self.expect(K::Colon)?;
        let b = self.ternary()?;
        Ok(Arithmetic::Ternary(Box::new(g), Box::new(a), Box::new(b)))
    }
    /// Left-associative operators by increasing precedence.
    fn binary(&mut self, level: u32) -> R<DefaultArithmetic> {
        use Arithmetic::*;
        if level == 10 {
            return self.power();
        }
        let mut l = self.binary(level + 1)?;
        loop {
            self.blanks();
            let mut k = match self.peek() {
                None => return Ok(l),
                Some(k) => k,
            };
            if k == K::DLessDash && level == 7 {
                // a shift by something negative
                let mut pos = self.t[self.i].pos;
                self.t[self.i] = T { k: K::DLess, s: "<<".to_owned(), pos };
                pos.byte += 2;
                pos.col += 2;
                let at = self.i + 1;
                self.t.insert(at, T { k: K::Dash, s: "-".to_owned(), pos });
                k = K::DLess;
            }
            let lvl = match k {
                K::OrIf => 0,
                K::AndIf => 1,
                K::Pipe => 2,
                K::Caret => 3,
                K::Amp => 4,
                K::Equals | K::Bang => 5,
                K::Less | K::Great => 6,
                K::DLess | K::DGreat => 7,
                K::Plus | K::Dash => 8,
                K::Star | K::Slash | K::Percent => 9,
                _ => return Ok(l),
            };
            if lvl != level {
                return Ok(l);
            }
            self.i += 1;
            let mut eq = false;
            if level == 5 {
                self.expect(K::Equals)?;
            } else if level == 6 {
                eq = self.eat(K::Equals);
            }
            let (a, b) = (Box::new(l), Box::new(self.binary(level + 1)?));
            l = match k {
                K::OrIf => LogicalOr(a, b),
                K::AndIf => LogicalAnd(a, b),
                K::Pipe => BitwiseOr(a, b),
                K::Caret => BitwiseXor(a, b),
                K::Amp => BitwiseAnd(a, b),
                K::Equals => Eq(a, b),
                K::Bang => NotEq(a, b),
                K::Less => if eq { LessEq(a, b) } else { Less(a, b) },
                K::Great => if eq { GreatEq(a, b) } else { Great(a, b) },
                K::DLess => ShiftLeft(a, b),
                K::DGreat => ShiftRight(a, b),
                K::Plus => Add(a, b),
                K::Dash => Sub(a, b),
                K::Star => Mult(a, b),
                K::Slash => Div(a, b),
                _ => Modulo(a, b),
            };
        }
    }
    fn power(&mut self) -> R<DefaultArithmetic> {
        let a = self.unary()?;
        self.blanks();
        if self.is(K::Star) && self.at(self.i + 1) == Some(K::Star) {
            self.i += 2;
            return Ok(Arithmetic::Pow(Box::new(a), Box::new(self.power()?)));
        }
        Ok(a)
    }
    fn unary(&mut self) -> R<DefaultArithmetic> {
        use Arithmetic::*;
        self.blanks();
        let k = self.peek();
        match k {
            Some(K::Bang) => {
                self.i += 1;
                Ok(LogicalNot(Box::new(self.unary()?)))
            }
            Some(K::Tilde) => {
                self.i += 1;
                Ok(BitwiseNot(Box::new(self.unary()?)))
            }
            Some(K::Plus) | Some(K::Dash) => {
                self.i += 1;
                let plus = k == Some(K::Plus);
                if self.peek() == k {
                    self.i += 1;
                    let v = self.var()?;
                    return Ok(if plus { PreIncr(v) } else { PreDecr(v) });
                }
                let x = Box::new(self.unary()?);
                Ok(if plus { UnaryPlus(x) } else { UnaryMinus(x) })
            }
            _ => self.operand(),
        }
    }
    fn operand(&mut self) -> R<DefaultArithmetic> {
        use Arithmetic::*;
        self.blanks();
        if self.eat(K::ParenOpen) {
            let a = self.arith()?;
            self.blanks();
            self.expect(K::ParenClose)?;
            return Ok(a);
        }
        if self.is(K::Literal) {
            if let Some(n) = int_literal(self.text(self.i).as_bytes()) {
                self.i += 1;
                return Ok(Literal(n as isize));
            }
        }
        let v = self.var()?;
        self.blanks();
        let k = self.peek();
        if (k == Some(K::Plus) || k == Some(K::Dash)) && self.at(self.i + 1) == k {
            self.i += 2;
            return Ok(if k == Some(K::Plus) { PostIncr(v) } else { PostDecr(v) });
        }
        Ok(Var(v))
    }
    fn var(&mut self) -> R<String> {
        self.blanks();
        self.eat(K::Dollar);
        self.name_here()
    }
    fn name_here(&mut self) -> R<String> {
        if self.is(K::Name) {
            self.i += 1;
            Ok(self.text(self.i - 1).to_owned())
        } else {
            Err(self.unexpected())
        }
    }
}

pub trait AdvanceText {
    fn advance_text(&mut self, s: &str);
}
impl AdvanceText for SourcePos {
    fn advance_text(&mut self, s: &str) {
        for c in s.chars() {
            self.byte += c.len_utf8();
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += c.len_utf8();
            }
        }
    }
}

/// Decimal digits only, at most `max`.
pub fn decimal(s: &[u8], max: u64) -> Option<u64> {
    let mut n: u64 = 0;
    if s.is_empty() {
        return None;
    }
    for &c in s {
        if c < b'0' || c > b'9' {
            return None;
        }
        n = n * 10 + (c - b'0') as u64;
        if n > max {
            return None;
        }
    }
    Some(n)
}
/// `0x` hexadecimal, `0` octal, otherwise decimal; at most the largest signed 64-bit number.
pub fn int_literal(s: &[u8]) -> Option<i64> {
    let (digits, radix) = if s.len() >= 2 && s[0] == b'0' && (s[1] == b'x' || s[1] == b'X') {
        (&s[2..], 16)
    } else if !s.is_empty() && s[0] == b'0' {
        (s, 8)
    } else {
        (s, 10)
    };
    let mut n: i64 = 0;
    for &c in digits {
        let d = if c >= b'0' && c <= b'9' {
            c - b'0'
        } else if c >= b'a' && c <= b'f' {
            c - b'a' + 10
        } else if c >= b'A' && c <= b'F' {
            c - b'A' + 10
        } else {
            return None;
        };
        if d as u32 >= radix {
            return None;
        }
        if n > (i64::max_value() - d as i64) / radix as i64 {
            return None;
        }
        n = n * radix as i64 + d as i64;
    }
    Some(n)
}

fn maybe_numeric(w: &WordKind<B>) -> bool {
    let digits = |s: &str| s.bytes().all(|c| c >= b'0' && c <= b'9');
    let simple = |s: &Sw| match s {
        SimpleWordKind::Literal(s) | SimpleWordKind::Escaped(s) => digits(s),
        SimpleWordKind::Param(_) | SimpleWordKind::Subst(_) | SimpleWordKind::CommandSubst(_) => true,
        _ => false,
    };
    match w {
        Simple(s) => simple(s),
        SingleQuoted(s) => digits(s),
        DoubleQuoted(v) => v.iter().all(simple),
    }
}
fn number(w: &Cw) -> Option<u16> {
    let mut s: Vec<u8> = Vec::new();
    match w {
        Single(Simple(SimpleWordKind::Literal(l))) => s.extend_from_slice(l.as_bytes()),
        Single(_) => return None,
        Concat(v) => {
            for x in v {
                match x {
                    Simple(SimpleWordKind::Literal(l)) => s.extend_from_slice(l.as_bytes()),
                    _ => return None,
                }
            }
        }
    }
    decimal(&s, 65535).map(|n| n as u16)
}
fn clone_cw(w: &Cw) -> Cw {
    w.clone()
}

