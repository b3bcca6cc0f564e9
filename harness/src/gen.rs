//! Generators of scalar data, biased to the edges.

use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

use crate::rng::Rng;

/// Some values are large. That's too much for an interpreter.
static LARGE: AtomicBool = AtomicBool::new(true);

pub fn without_large() {
    LARGE.store(false, Relaxed);
}

/// A rare large size, from the given range.
pub fn large(rng: &mut Rng, one_in: usize, from: usize, to: usize) -> Option<usize> {
    (rng.one_in(one_in) && LARGE.load(Relaxed)).then(|| from + rng.below(to - from + 1))
}

/// Unsigned edges: around every power of two.
pub fn edge_u128(rng: &mut Rng) -> u128 {
    match rng.below(6) {
        0 => rng.below(4) as u128,
        1 | 2 => {
            let k = rng.below(129);
            let p = if k == 128 { 0 } else { 1u128 << k };
            match rng.below(3) {
                0 => p.wrapping_sub(1),
                1 => p,
                _ => p.wrapping_add(1),
            }
        }
        3 => {
            const T: [u128; 14] = [
                u8::MAX as u128,
                i8::MAX as u128,
                u16::MAX as u128,
                i16::MAX as u128,
                u32::MAX as u128,
                i32::MAX as u128,
                u64::MAX as u128,
                i64::MAX as u128,
                u128::MAX,
                i128::MAX as u128,
                1 << 53,
                1 << 24,
                999,
                10,
            ];
            let t = *rng.pick(&T);
            match rng.below(4) {
                0 => t,
                1 => t.wrapping_add(1),
                2 => t.wrapping_sub(1),
                _ => t.wrapping_add(2),
            }
        }
        4 => rng.u128() >> rng.below(128),
        _ => rng.u128(),
    }
}

pub fn edge_i128(rng: &mut Rng) -> i128 {
    let v = edge_u128(rng) as i128;
    if rng.bool() {
        v.wrapping_neg()
    } else {
        v
    }
}

pub fn float(rng: &mut Rng) -> f64 {
    const T: [f64; 30] = [
        0.0,
        -0.0,
        1.0,
        -1.0,
        0.5,
        -1.5,
        f64::MIN,
        f64::MAX,
        f64::MIN_POSITIVE,
        f64::EPSILON,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::NAN,
        5e-324,
        4294967295.0,
        4294967296.0,
        2147483647.0,
        -2147483648.0,
        9007199254740992.0,
        9007199254740993.0,
        1e15,
        1e16,
        1e17,
        1e-5,
        1e300,
        18446744073709551615.0,
        0.1,
        123456789.125,
        1e7,
        -1e-7,
    ];
    match rng.below(5) {
        0 | 1 => *rng.pick(&T),
        2 => f64::from_bits(rng.u64()),
        3 => rng.u64() as i64 as f64 / 1000.0,
        _ => edge_i128(rng) as f64,
    }
}

pub fn float32(rng: &mut Rng) -> f32 {
    match rng.below(4) {
        0 => f32::from_bits(rng.u64() as u32),
        1 => *rng.pick(&[
            f32::MIN,
            f32::MAX,
            f32::EPSILON,
            f32::INFINITY,
            f32::NAN,
            0.1,
            -0.0,
            16777216.0,
            1e-45,
        ]),
        _ => float(rng) as f32,
    }
}

pub fn finite(rng: &mut Rng) -> f64 {
    loop {
        let f = float(rng);
        if f.is_finite() {
            return f;
        }
    }
}

const CHARS: [char; 26] = [
    'a', 'Z', '0', ' ', '"', '\'', '\\', '\n', '\t', '\r', '\0', '\u{7f}', '\u{80}', 'é', 'ß',
    '\u{7ff}', '\u{800}', '日', '\u{fffd}', '\u{ffff}', '\u{10000}', '🦀', '\u{10ffff}', '\u{301}',
    '\u{200d}', '{',
];

pub fn chr(rng: &mut Rng) -> char {
    match rng.below(3) {
        0 | 1 => *rng.pick(&CHARS),
        _ => loop {
            if let Some(c) = char::from_u32(rng.below(0x110000) as u32) {
                return c;
            }
        },
    }
}

/// A length, biased to both sides of every storage limit.
pub fn len(rng: &mut Rng) -> usize {
    match rng.below(10) {
        0 => 0,
        1 | 2 => rng.below(70),
        3 => 20 + rng.below(6),
        4 => 44 + rng.below(6),
        5 => 60 + rng.below(9),
        6 => *rng.pick(&[1, 2, 3, 21, 22, 23, 24, 45, 46, 47, 48, 62, 63, 64, 65, 66]),
        7 => *rng.pick(&[126, 127, 128, 129, 254, 255, 256, 257, 300]),
        8 => rng.below(24),
        _ => {
            if large(rng, 150, 0, 0).is_some() {
                *rng.pick(&[16383, 32768, 65535, 65536, 65537, 70001])
            } else if rng.one_in(12) {
                *rng.pick(&[511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000])
            } else {
                rng.below(48)
            }
        }
    }
}

/// Text of exactly `n` bytes.
pub fn text_of(rng: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let style = rng.below(4);
    while s.len() < n {
        let left = n - s.len();
        let c = match style {
            0 => (b'a' + rng.below(26) as u8) as char,
            1 => chr(rng),
            2 => *rng.pick(&['日', '🦀', 'é', 'x']),
            _ => (0x20 + rng.below(0x5f) as u8) as char,
        };
        if c.len_utf8() <= left {
            s.push(c);
        } else {
            s.push((b'a' + (left as u8 % 26)) as char);
        }
    }
    s
}

pub fn text(rng: &mut Rng) -> String {
    let n = len(rng);
    text_of(rng, n)
}

pub fn short_text(rng: &mut Rng) -> String {
    let n = rng.below(9);
    text_of(rng, n)
}

/// Split at char boundaries into some fragments, possibly empty ones.
pub fn fragments(rng: &mut Rng, s: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut rest = s;
    if s.len() < 200 && rng.one_in(16) {
        // Every char on its own
        return s.chars().map(String::from).collect();
    }
    let n = rng.below(5);
    for _ in 0..n {
        let mut at = rng.below(rest.len() + 1);
        while !rest.is_char_boundary(at) {
            at -= 1;
        }
        out.push(rest[..at].to_owned());
        rest = &rest[at..];
    }
    out.push(rest.to_owned());
    out
}
