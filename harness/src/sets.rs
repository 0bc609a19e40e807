//! Alphabets and vocabularies shared by the families of sources.
use crate::rt::Set;
use crate::src::NONE;

pub const ASCII: &Set = &[(0, 127)];
/// Any ASCII character, or none.
pub const ASCII0: &Set = &[(0, 127), (NONE, NONE)];
/// Samples of the classes of characters beyond ASCII: letters, spaces, marks, symbols, 2 to 4 bytes long.
pub const UNI: &Set = &[
    (0x80, 0x80), (0x85, 0x85), (0xA0, 0xA0), (0xAA, 0xAA), (0xB2, 0xB2), (0xBD, 0xBD), (0xD7, 0xD7), (0xE9, 0xE9),
    (0x301, 0x301), (0x661, 0x661), (0x2003, 0x2003), (0x2028, 0x2029), (0x3000, 0x3000), (0x4E2D, 0x4E2D),
    (0xFEFF, 0xFEFF), (0x1F600, 0x1F600), (0x20000, 0x20000), (0x10FFFF, 0x10FFFF),
];
pub const ANYCHAR: &Set = &[(0, 0xD7FF), (0xE000, 0x10FFFD), (0x10FFFF, 0x10FFFF)];
/// Blanks, or nothing.
pub const BL0: &Set = &[(9, 9), (11, 13), (32, 32), (NONE, NONE)];
pub const BL: &Set = &[(9, 9), (11, 13), (32, 32)];
pub const DIGIT: &Set = &[(48, 57)];
pub const DIGIT0: &Set = &[(48, 57), (NONE, NONE)];
pub const LETTER: &Set = &[(65, 90), (95, 95), (97, 122)];
pub const ALNUM: &Set = &[(48, 57), (65, 90), (95, 95), (97, 122)];
pub const HEX0: &Set = &[(48, 57), (65, 71), (88, 88), (97, 103), (120, 120), (NONE, NONE)];
/// Anything that cannot end a comment.
pub const NOT_NL0: &Set = &[(0, 9), (11, 127), (NONE, NONE)];
pub const ALNUM0: &Set = &[(48, 57), (65, 90), (95, 95), (97, 122), (NONE, NONE)];
/// Latin, Greek, Cyrillic, Hebrew and so on.
pub const UNI2: &Set = &[(0x80, 0x6FF)];
/// Indic scripts, punctuation, symbols, kana.
pub const UNI3: &Set = &[(0x900, 0xBFF), (0x1680, 0x1680), (0x2000, 0x2BFF), (0x3000, 0x30FF), (0xFB00, 0xFFFF), (0x1D400, 0x1D4FF)];
