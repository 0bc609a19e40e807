//! Lazily generated sources: a character is made up when somebody asks for it.
use crate::rt::*;
use std::cell::RefCell;
use std::rc::Rc;

/// A member of a set which stands for no character at all.
pub const NONE: u32 = 0x10FFFE;

struct Gen {
    buf: Vec<char>,
    /// What is still to be produced, innermost last.
    todo: Vec<&'static [u8]>,
    sets: &'static [&'static Set],
    vocab: &'static [&'static [&'static str]],
    /// What each of `ⓐ`..`ⓩ` stands for, once decided.
    same: [u32; 4],
}

/// A template: text in which `①`..`⑳` stand for an arbitrary character of `sets[0]`.. and
/// `Ⓐ`..`Ⓩ` for an arbitrary member of `vocab[0]`.. (itself a template; `ⓐ`..`ⓓ`: the same member each time), `×12⟨text⟩` and `÷12⟨text⟩` for a text
/// twelve times.
#[derive(Clone)]
pub struct Src(Rc<RefCell<Gen>>);

fn decode(b: &[u8]) -> (u32, usize) {
    let c = b[0] as u32;
    if c < 0x80 {
        (c, 1)
    } else if c < 0xE0 {
        ((c & 0x1F) << 6 | (b[1] as u32 & 0x3F), 2)
    } else if c < 0xF0 {
        ((c & 0xF) << 12 | (b[1] as u32 & 0x3F) << 6 | (b[2] as u32 & 0x3F), 3)
    } else {
        ((c & 7) << 18 | (b[1] as u32 & 0x3F) << 12 | (b[2] as u32 & 0x3F) << 6 | (b[3] as u32 & 0x3F), 4)
    }
}

impl Src {
    pub fn new(t: &'static str, sets: &'static [&'static Set], vocab: &'static [&'static [&'static str]]) -> Src {
        Src(Rc::new(RefCell::new(Gen { buf: Vec::new(), todo: vec![t.as_bytes()], sets, vocab, same: [!0; 4] })))
    }
    /// The texts (or templates) one after another.
    pub fn parts(p: &[&'static [u8]], sets: &'static [&'static Set], vocab: &'static [&'static [&'static str]]) -> Src {
        let mut todo = p.to_vec();
        todo.reverse();
        Src(Rc::new(RefCell::new(Gen { buf: Vec::new(), todo, sets, vocab, same: [!0; 4] })))
    }
    /// The text `v`, and a template after it.
    pub fn after(v: &[char], t: &'static str, sets: &'static [&'static Set], vocab: &'static [&'static [&'static str]]) -> Src {
        Src(Rc::new(RefCell::new(Gen { buf: v.to_vec(), todo: vec![t.as_bytes()], sets, vocab, same: [!0; 4] })))
    }
    pub fn chars(v: &[char]) -> Src {
        Src(Rc::new(RefCell::new(Gen { buf: v.to_vec(), todo: Vec::new(), sets: &[], vocab: &[], same: [!0; 4] })))
    }
    /// The character at `i`, if the source is that long.
    pub fn get(&self, i: usize) -> Option<char> {
        let mut g = self.0.borrow_mut();
        while g.buf.len() <= i {
            let n = g.todo.len();
            if n == 0 {
                return None;
            }
            let b = g.todo[n - 1];
            if b.is_empty() {
                g.todo.pop();
                continue;
            }
            let (c, len) = decode(b);
            g.todo[n - 1] = &b[len..];
            let s = c.wrapping_sub('①' as u32);
            let v = c.wrapping_sub('Ⓐ' as u32);
            let w = c.wrapping_sub('ⓐ' as u32);
            if s < 20 {
                let set = g.sets[s as usize];
                let c = if set[0].0 >= 0x80 {
                    // samples from beyond ASCII: one by one
                    let mut n = 0;
                    for &(a, b) in set {
                        n += b - a + 1;
                    }
                    let mut k = choice(n);
                    let mut c = NONE;
                    for &(a, b) in set {
                        if k <= b - a {
                            c = a + k;
                            break;
                        }
                        k -= b - a + 1;
                    }
                    unsafe { std::char::from_u32_unchecked(c) }
                } else {
                    any_char(set)
                };
                if c as u32 != NONE {
                    g.buf.push(c);
                }
            } else if v < 26 {
                let l = g.vocab[v as usize];
                let k = choice(l.len() as u32);
                g.todo.push(l[k as usize].as_bytes());
            } else if w < 4 {
                let l = g.vocab[w as usize];
                if g.same[w as usize] == !0 {
                    g.same[w as usize] = choice(l.len() as u32);
                }
                let k = g.same[w as usize];
                g.todo.push(l[k as usize].as_bytes());
            } else if c == '×' as u32 || c == '÷' as u32 {
                // `×12⟨text⟩`: the text, twelve times; `÷12⟨text⟩`: a hundred and twenty times
                let unit = if c == '÷' as u32 { 10 } else { 1 };
                let times = ((b[2] - b'0') as usize * 10 + (b[3] - b'0') as usize) * unit;
                let mut end = 7;
                while &b[end..end + 3] != "⟩".as_bytes() {
                    end += 1;
                }
                g.todo[n - 1] = &b[end + 3..];
                for _ in 0..times {
                    g.todo.push(&b[7..end]);
                }
            } else {
                g.buf.push(unsafe { std::char::from_u32_unchecked(c) });
            }
        }
        Some(g.buf[i])
    }
    /// Generates all of it.
    pub fn all(&self) -> Vec<char> {
        let mut i = 0;
        while self.get(i).is_some() {
            i += 1;
        }
        self.0.borrow().buf.clone()
    }
    /// What has been asked for up to now.
    pub fn text(&self) -> String {
        let mut s = String::new();
        for &c in &self.0.borrow().buf {
            s.push(c);
        }
        s
    }
    /// How many characters have been asked for.
    pub fn asked(&self) -> usize {
        self.0.borrow().buf.len()
    }
    /// The text of all of it.
    pub fn text_all(&self) -> String {
        self.all();
        self.text()
    }
    pub fn iter(&self) -> Chars {
        Chars { src: self.clone(), i: 0 }
    }
}

#[derive(Clone)]
pub struct Chars {
    src: Src,
    pub i: usize,
}
impl Iterator for Chars {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.src.get(self.i);
        if c.is_some() {
            self.i += 1;
        }
        c
    }
}
