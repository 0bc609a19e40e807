//! The specification's own tokens and lexer: longest match, one character at a time.
use conch_parser::token::Positional as Pp;
use conch_parser::parse::SourcePos;
use crate::src::Src;
use conch_parser::token::{Positional, Token};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum K {
    Newline, ParenOpen, ParenClose, CurlyOpen, CurlyClose, SquareOpen, SquareClose, Bang, Tilde,
    Pound, Star, Question, Backslash, Percent, Dash, Equals, Plus, Colon, At, Caret, Slash, Comma,
    SingleQuote, DoubleQuote, Backtick, Semi, Amp, Pipe, AndIf, OrIf, DSemi, Less, Great, DLess,
    DGreat, GreatAnd, LessAnd, DLessDash, Clobber, LessGreat, Dollar, Positional, Ws, Literal, Name,
}

#[derive(Clone, PartialEq, Debug)]
pub struct T {
    pub k: K,
    pub s: String,
    pub pos: SourcePos,
}

/// The text the language gives to a token without payload.
pub fn text_of(k: K) -> &'static str {
    use K::*;
    match k {
        Newline => "\n", ParenOpen => "(", ParenClose => ")", CurlyOpen => "{", CurlyClose => "}",
        SquareOpen => "[", SquareClose => "]", Bang => "!", Tilde => "~", Pound => "#", Star => "*",
        Question => "?", Backslash => "\\", Percent => "%", Dash => "-", Equals => "=", Plus => "+",
        Colon => ":", At => "@", Caret => "^", Slash => "/", Comma => ",", SingleQuote => "'",
        DoubleQuote => "\"", Backtick => "`", Semi => ";", Amp => "&", Pipe => "|", AndIf => "&&",
        OrIf => "||", DSemi => ";;", Less => "<", Great => ">", DLess => "<<", DGreat => ">>",
        GreatAnd => ">&", LessAnd => "<&", DLessDash => "<<-", Clobber => ">|", LessGreat => "<>",
        Dollar => "$", K::Positional | Ws | Literal | Name => "",
    }
}

pub fn kind_of(t: &Token) -> K {
    match t {
        Token::Newline => K::Newline, Token::ParenOpen => K::ParenOpen, Token::ParenClose => K::ParenClose,
        Token::CurlyOpen => K::CurlyOpen, Token::CurlyClose => K::CurlyClose,
        Token::SquareOpen => K::SquareOpen, Token::SquareClose => K::SquareClose,
        Token::Bang => K::Bang, Token::Tilde => K::Tilde, Token::Pound => K::Pound, Token::Star => K::Star,
        Token::Question => K::Question, Token::Backslash => K::Backslash, Token::Percent => K::Percent,
        Token::Dash => K::Dash, Token::Equals => K::Equals, Token::Plus => K::Plus, Token::Colon => K::Colon,
        Token::At => K::At, Token::Caret => K::Caret, Token::Slash => K::Slash, Token::Comma => K::Comma,
        Token::SingleQuote => K::SingleQuote, Token::DoubleQuote => K::DoubleQuote,
        Token::Backtick => K::Backtick, Token::Semi => K::Semi, Token::Amp => K::Amp, Token::Pipe => K::Pipe,
        Token::AndIf => K::AndIf, Token::OrIf => K::OrIf, Token::DSemi => K::DSemi, Token::Less => K::Less,
        Token::Great => K::Great, Token::DLess => K::DLess, Token::DGreat => K::DGreat,
        Token::GreatAnd => K::GreatAnd, Token::LessAnd => K::LessAnd, Token::DLessDash => K::DLessDash,
        Token::Clobber => K::Clobber, Token::LessGreat => K::LessGreat, Token::Dollar => K::Dollar,
        Token::ParamPositional(_) => K::Positional, Token::Whitespace(_) => K::Ws,
        Token::Literal(_) => K::Literal, Token::Name(_) => K::Name,
    }
}

/// The text of a token, independently of `Token::as_str`.
pub fn tok_text(t: &Token, out: &mut Vec<u8>) {
    match t {
        Token::Whitespace(s) | Token::Literal(s) | Token::Name(s) => out.extend_from_slice(s.as_bytes()),
        Token::ParamPositional(p) => {
            out.push(b'$');
            out.push(b'0' + pnum(*p));
        }
        t => out.extend_from_slice(text_of(kind_of(t)).as_bytes()),
    }
}

pub fn pnum(p: Positional) -> u8 {
    match p {
        Positional::Zero => 0, Positional::One => 1, Positional::Two => 2, Positional::Three => 3,
        Positional::Four => 4, Positional::Five => 5, Positional::Six => 6, Positional::Seven => 7,
        Positional::Eight => 8, Positional::Nine => 9,
    }
}

pub fn to_token(t: &T) -> Token {
    use K::*;
    match t.k {
        Newline => Token::Newline, ParenOpen => Token::ParenOpen, ParenClose => Token::ParenClose,
        CurlyOpen => Token::CurlyOpen, CurlyClose => Token::CurlyClose, SquareOpen => Token::SquareOpen,
        SquareClose => Token::SquareClose, Bang => Token::Bang, Tilde => Token::Tilde, Pound => Token::Pound,
        Star => Token::Star, Question => Token::Question, Backslash => Token::Backslash,
        Percent => Token::Percent, Dash => Token::Dash, Equals => Token::Equals, Plus => Token::Plus,
        Colon => Token::Colon, At => Token::At, Caret => Token::Caret, Slash => Token::Slash,
        Comma => Token::Comma, SingleQuote => Token::SingleQuote, DoubleQuote => Token::DoubleQuote,
        Backtick => Token::Backtick, Semi => Token::Semi, Amp => Token::Amp, Pipe => Token::Pipe,
        AndIf => Token::AndIf, OrIf => Token::OrIf, DSemi => Token::DSemi, Less => Token::Less,
        Great => Token::Great, DLess => Token::DLess, DGreat => Token::DGreat, GreatAnd => Token::GreatAnd,
        LessAnd => Token::LessAnd, DLessDash => Token::DLessDash, Clobber => Token::Clobber,
        LessGreat => Token::LessGreat, Dollar => Token::Dollar,
        K::Positional => Token::ParamPositional(match t.s.as_bytes()[1] {
            b'0' => Pp::Zero, b'1' => Pp::One, b'2' => Pp::Two,
            b'3' => Pp::Three, b'4' => Pp::Four, b'5' => Pp::Five,
            b'6' => Pp::Six, b'7' => Pp::Seven, b'8' => Pp::Eight,
            _ => Pp::Nine,
        }),
        Ws => Token::Whitespace(t.s.clone()),
        Literal => Token::Literal(t.s.clone()),
        Name => Token::Name(t.s.clone()),
    }
}

/// Unquoted, ends a word.
pub fn delimits(k: K) -> bool {
    use K::*;
    match k {
        Newline | ParenOpen | ParenClose | Semi | Amp | Pipe | AndIf | OrIf | DSemi | Less | Great | DLess
        | DGreat | GreatAnd | LessAnd | DLessDash | Clobber | LessGreat | Ws => true,
        _ => false,
    }
}

fn single(c: char) -> Option<K> {
    Some(match c {
        '\n' => K::Newline, '!' => K::Bang, '~' => K::Tilde, '#' => K::Pound, '*' => K::Star,
        '?' => K::Question, '%' => K::Percent, '-' => K::Dash, '=' => K::Equals, '+' => K::Plus,
        ':' => K::Colon, '@' => K::At, '^' => K::Caret, '/' => K::Slash, ',' => K::Comma,
        '\\' => K::Backslash, '\'' => K::SingleQuote, '"' => K::DoubleQuote, '`' => K::Backtick,
        ';' => K::Semi, '&' => K::Amp, '|' => K::Pipe, '(' => K::ParenOpen, ')' => K::ParenClose,
        '{' => K::CurlyOpen, '}' => K::CurlyClose, '[' => K::SquareOpen, ']' => K::SquareClose,
        '$' => K::Dollar, '<' => K::Less, '>' => K::Great,
        _ => return None,
    })
}

pub fn start_pos() -> SourcePos {
    SourcePos { byte: 0, line: 1, col: 1 }
}
pub fn adv(p: &mut SourcePos, c: char) {
    p.byte += c.len_utf8();
    if c == '\n' {
        p.line += 1;
        p.col = 1;
    } else {
        // columns count bytes, like `byte`
        p.col += c.len_utf8();
    }
}

/// The specification's lexer over a source.
pub struct Lex {
    src: Src,
    i: usize,
    escaped: bool,
    pub pos: SourcePos,
}
impl Lex {
    pub fn new(src: &Src) -> Lex {
        Lex { src: src.clone(), i: 0, escaped: false, pos: start_pos() }
    }
    /// How many characters are behind.
    pub fn at(&self) -> usize {
        self.i
    }
    pub fn next(&mut self) -> Option<T> {
        let src = &self.src;
        let i = self.i;
        let at = |j: usize, c: char| src.get(j) == Some(c);
        let c = match src.get(i) {
            Some(c) => c,
            None => return None,
        };
        let was_escaped = self.escaped;
        self.escaped = false;
        let (k, n) = match single(c) {
            Some(K::Backslash) => {
                // what follows an unescaped backslash is a token of its own, whatever it is
                self.escaped = !was_escaped;
                (K::Backslash, 1)
            }
            Some(k) if was_escaped => (k, 1),
            Some(K::Semi) => if at(i + 1, ';') { (K::DSemi, 2) } else { (K::Semi, 1) },
            Some(K::Amp) => if at(i + 1, '&') { (K::AndIf, 2) } else { (K::Amp, 1) },
            Some(K::Pipe) => if at(i + 1, '|') { (K::OrIf, 2) } else { (K::Pipe, 1) },
            Some(K::Less) => {
                if at(i + 1, '<') {
                    if at(i + 2, '-') { (K::DLessDash, 3) } else { (K::DLess, 2) }
                } else if at(i + 1, '&') {
                    (K::LessAnd, 2)
                } else if at(i + 1, '>') {
                    (K::LessGreat, 2)
                } else {
                    (K::Less, 1)
                }
            }
            Some(K::Great) => {
                if at(i + 1, '&') {
                    (K::GreatAnd, 2)
                } else if at(i + 1, '>') {
                    (K::DGreat, 2)
                } else if at(i + 1, '|') {
                    (K::Clobber, 2)
                } else {
                    (K::Great, 1)
                }
            }
            Some(K::Dollar) => match src.get(i + 1) {
                Some(d) if d >= '0' && d <= '9' => (K::Positional, 2),
                _ => (K::Dollar, 1),
            },
            Some(k) => (k, 1),
            None if c.is_whitespace() => {
                let mut n = 1;
                while !was_escaped {
                    match src.get(i + n) {
                        Some(d) if d != '\n' && d.is_whitespace() => n += 1,
                        _ => break,
                    }
                }
                (K::Ws, n)
            }
            None => {
                let start = |c: char| c == '_' || c.is_alphabetic();
                let word = |c: char| single(c).is_none() && !c.is_whitespace();
                let digit = |c: char| c >= '0' && c <= '9';
                let name = start(c);
                let mut n = 1;
                while !was_escaped {
                    match src.get(i + n) {
                        Some(d) if word(d) && (!name || start(d) || digit(d)) => n += 1,
                        _ => break,
                    }
                }
                (if name { K::Name } else { K::Literal }, n)
            }
        };
        let p = self.pos;
        let mut s = String::new();
        for j in i..i + n {
            let c = src.get(j).unwrap();
            s.push(c);
            adv(&mut self.pos, c);
        }
        self.i = i + n;
        Some(T { k, s, pos: p })
    }
}
