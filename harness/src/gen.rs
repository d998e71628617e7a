//! Generators shared by the properties.

use crate::engine::*;

pub const KEYWORDS: &[&str] = &["None", "then", "else", "let", "for", "if", "in", "True", "False", "to"];

/// An identifier that is not a keyword, an operator or a number.
pub fn ident(s: &mut Src) -> String {
    const FIRST: &[u8] = b"xyzabcdefghijklmnopqrstuvwABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.?:";
    let mut r = String::new();
    r.push(*s.pick(FIRST) as char);
    for _ in 0..s.len(6) {
        r.push(*s.pick(REST) as char);
    }
    if KEYWORDS.contains(&r.as_str()) {
        r.push('_');
    }
    r
}

/// A short plain name, so that names collide often.
pub fn name(s: &mut Src) -> String {
    s.pick(&["x", "y", "z", "a", "b", "f", "g", "n"]).to_string()
}

pub fn int(s: &mut Src) -> i64 {
    match s.weighted(&[6, 4, 2, 2, 1]) {
        0 => s.range(-10, 10),
        1 => s.range(-1000, 1000),
        2 => *s.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 31, 1 << 32, -(1 << 31), 1 << 53, (1 << 53) + 1, 3037000499, 3037000500, 4611686018427387904, -4611686018427387904]),
        3 => {
            let b = s.range(0, 62);
            let v = (s.any() & ((1u64 << b) | ((1u64 << b) - 1))) as i64;
            if s.bool() {
                -v
            } else {
                v
            }
        }
        _ => s.any() as i64,
    }
}

/// Finite floats.
pub fn float(s: &mut Src) -> f64 {
    match s.weighted(&[10, 6, 4, 2, 1]) {
        4 => {
            // Next to a half, or where the numbers are whole.
            let f = if s.bool() { s.range(-4, 4) as f64 + 0.5 } else { *s.pick(&[1.0, -1.0]) * (2f64.powi(s.range(51, 63) as i32) + s.range(-3, 3) as f64) };
            if f == 0.0 {
                return f;
            }
            f64::from_bits(f.to_bits().wrapping_add(s.range(-2, 2) as u64))
        }
        0 => s.range(-2000, 2000) as f64 / *s.pick(&[1.0, 2.0, 4.0, 8.0, 10.0, 100.0]),
        1 => *s.pick(&[0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.5, -1.5, -2.5, 0.1, 1e15, 1e16, -1e16, 1e300, 1e-300, 9007199254740993.0, 4503599627370497.5, 3.999999999999999]),
        2 => {
            let m = s.range(-1_000_000_000, 1_000_000_000) as f64;
            let e = s.range(-20, 20) as i32;
            m * 10f64.powi(e)
        }
        _ => {
            let f = f64::from_bits(s.any());
            if f.is_finite() {
                f
            } else {
                1.0
            }
        }
    }
}

pub fn ch(s: &mut Src) -> char {
    match s.weighted(&[12, 4, 3, 2, 2, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => *s.pick(&[' ', '0', '1', '9', 'A', 'Z', 'z', '_', '-', '.', ',', ':', ';', '/', '=']),
        2 => *s.pick(&['"', '\\', '\'', '#', '(', ')', '[', ']', '{', '}', '|', '<', '>', '@', '!', '$', '`', '~', '&', '*', '?', '+', '%', '^']),
        3 => *s.pick(&['\n', '\t', '\r', '\u{c}', '\u{8}', '\u{b}', '\u{1b}', '\u{7f}', '\u{1}']),
        4 => *s.pick(&['é', 'ß', 'λ', 'Ж', '中', '日', '🏖', '🦀', '\u{301}', '\u{200b}', '\u{a0}', '\u{2028}', 'İ', 'ﬀ', '\u{fffd}', 'ÿ', '\u{130}', '\u{1f1e6}', '\u{feff}', '\u{85}', '\u{3000}', '\u{200d}', 'Σ', 'ς']),
        _ => char::from_u32(s.below(0x11_0000) as u32).filter(|c| *c != '\0').unwrap_or('\u{fffd}'),
    }
}

/// Any text without NUL.
pub fn text(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    let mut t: Vec<char> = (0..n).map(|_| ch(s)).collect();
    // What texts begin and end with is often special.
    if n > 0 && s.chance(1, 8) {
        let at = if s.bool() { 0 } else { n - 1 };
        t[at] = *s.pick(&['\u{feff}', ' ', '\n', '\t', '\r', '#', '-', '~', '.', '/', '\u{a0}', '\\', '"']);
    }
    t.into_iter().collect()
}

/// Any text, now and then a long one.
pub fn long(s: &mut Src, max: usize) -> String {
    match s.big() {
        Some(n) => {
            let part: Vec<char> = (0..1 + s.below(7)).map(|_| ch(s)).collect();
            let mut t: Vec<char> = part.iter().copied().cycle().take(n).collect();
            // One character is another one.
            let i = s.idx(n);
            t[i] = ch(s);
            t.into_iter().collect()
        }
        None => text(s, max),
    }
}

/// Letters, digits and spaces only.
pub fn plain(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    (0..n).map(|_| *s.pick(&['a', 'b', 'c', 'd', 'x', 'y', 'z', 'A', 'B', 'Z', '0', '1', '7', ' ', '-', '_'])).collect()
}

/// A dune string literal for any text.
pub fn quote(t: &str) -> String {
    let mut r = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// A dune literal for a float; `f` must be finite.
pub fn float_lit(f: f64) -> String {
    let t = format!("{}", f.abs());
    let t = if t.contains('.') { t } else { format!("{}.0", t) };
    if f.is_sign_negative() {
        format!("-{}", t)
    } else {
        t
    }
}

/// Pieces of source text, glued together in any order.
pub fn soup(s: &mut Src, max: usize) -> String {
    const PIECES: &[&str] = &[
        "x", "foo", "let", "for", "in", "if", "else", "then", "to", "None", "True", "False", "->", "~>", "=", "==", "!=", ">=", "<=", "&&", "||", "//",
        "<<", ">>", ">>>", "<", ">", "+", "-", "*", "%", "|", "@", "!", "(", ")", "[", "]", "{", "}", "'", ",", ";", "\"", "\\", "#", "0", "007", "-5",
        "12", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1.5", "1.", ".5", "0.0", "\"s\"", "\"a\\n\"", "\"\\u{41}\"", "\"\\u{d800}\"",
        "\"\\q\"", "\"\\", "\"\\u{", "\\u{1F600}", "()", "[]", "{}", "{ x = 1 }", "a-b", "a.b", "$x", "?", ":", "_", "~", "^", "&", "ls", "echo", "# c\n", "é", "日", "🏖", "\u{a0}", "=>", "<-",
    ];
    const WS: &[&str] = &[" ", " ", " ", "", "", "\n", "\t", "\r\n", "  ", "\u{c}"];
    let n = s.len(max);
    let mut r = String::new();
    for _ in 0..n {
        if s.chance(1, 12) {
            r.push(ch(s));
        } else if s.chance(1, 30) {
            // A string over several lines, some of them long.
            r.push('"');
            for _ in 0..s.below(4) {
                let c = *s.pick(&["a", "é", "日", " ", "x y "]);
                r.push_str(&c.repeat(s.len(120)));
                r.push_str(s.pick(&["\n", "\r\n", "\n\n", ""]));
            }
            r.push('"');
        } else {
            r.push_str(s.pick(PIECES));
        }
        r.push_str(s.pick(WS));
    }
    r
}

/// Edit a text at random places.
pub fn mutate(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.below(4) {
        let n = cs.len();
        match s.below(5) {
            0 if n > 0 => {
                cs.remove(s.idx(n));
            }
            1 => {
                let i = s.idx(n + 1);
                let c = ch(s);
                cs.insert(i, c);
            }
            2 if n > 1 => {
                let (i, j) = (s.idx(n), s.idx(n));
                cs.swap(i, j);
            }
            3 if n > 0 => {
                let i = s.idx(n);
                cs.truncate(i);
            }
            _ if n > 0 => {
                let i = s.idx(n);
                let j = (i + s.idx(8) + 1).min(n);
                let part: Vec<char> = cs[i..j].to_vec();
                let k = s.idx(n + 1);
                for (d, c) in part.into_iter().enumerate() {
                    cs.insert(k + d, c);
                }
            }
            _ => {}
        }
    }
    cs.into_iter().collect()
}
