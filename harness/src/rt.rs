//! Interface to the symbolic engine (or, for replay, to the native loader).
extern "C" {
    fn sym_in(ranges: *const u32, n: usize) -> u32;
    fn sym_choice(n: u32) -> u32;
    fn sym_param(i: u32) -> u32;
    fn sym_assume(c: bool);
    fn sym_fail(code: u32) -> !;
    fn sym_cover(i: u32);
    fn sym_declare(n: u32);
    fn sym_observe(p: *const u8, n: usize);
    fn sym_conc(v: u32) -> u32;
    fn sym_note(p: *const u8, n: usize);
    fn sym_known(i: u32) -> !;
    fn sym_is() -> u32;
}

/// Inclusive ranges of values.
pub type Set = [(u32, u32)];

fn input(set: &Set) -> u32 {
    // (u32, u32) has no guaranteed layout: copy into a flat array
    let mut flat: Vec<u32> = Vec::with_capacity(set.len() * 2);
    for &(a, b) in set {
        flat.push(a);
        flat.push(b);
    }
    unsafe { sym_in(flat.as_ptr(), set.len()) }
}
/// An arbitrary character of `set`.
pub fn any_char(set: &Set) -> char {
    unsafe { std::char::from_u32_unchecked(input(set)) }
}
/// An arbitrary number in `lo..=hi`.
pub fn any_u32(lo: u32, hi: u32) -> u32 {
    input(&[(lo, hi)])
}
/// An arbitrary number below `n`, decided right away (the exploration branches here).
pub fn choice(n: u32) -> u32 {
    if n > 256 {
        // in two steps, each of few outcomes
        let h = choice((n + 63) / 64) * 64;
        return h + choice(if n - h < 64 { n - h } else { 64 });
    }
    unsafe { sym_choice(n) }
}
pub fn param(i: u32) -> u32 {
    unsafe { sym_param(i) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// Forces the value to be decided by branching.
pub fn concrete(v: u32) -> u32 {
    unsafe { sym_conc(v) }
}
pub fn cover(i: u32) {
    unsafe { sym_cover(i) }
}
/// Cover points `0..n` must be reached for the run to count.
pub fn declare(n: u32) {
    unsafe { sym_declare(n) }
}
pub fn observe(b: &[u8]) {
    unsafe { sym_observe(b.as_ptr(), b.len()) }
}
pub fn known(i: u32) -> ! {
    unsafe { sym_known(i) }
}
/// Under the engine (true) or native replay (false).
pub fn symbolic() -> bool {
    unsafe { sym_is() != 0 }
}
pub fn note(s: &str) {
    unsafe { sym_note(s.as_ptr(), s.len()) }
}
pub fn die(code: u32) -> ! {
    unsafe { sym_fail(code) }
}
/// The property is violated unless `c`; `f` describes the failure (native replay only).
pub fn check<F: FnOnce() -> String>(c: bool, code: u32, f: F) {
    if !c {
        if !symbolic() {
            note(&f());
        }
        die(code)
    }
}
