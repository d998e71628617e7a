//! Parsing data formats, displaying values, text layout, the environment, logging and the console.

use super::lib::{go, int, judge, list, noise, st, Want, Want::*};
use crate::engine::*;
use crate::sut::{self, Out};
use crate::val::{self, Prog};
use crate::{ensure, fail, gen};
use dune::{Environment, Expression as E};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            rule: "Random JSON and TOML documents in random spellings (layout, escapes, kinds of strings, numbers and tables), compared with the data they were written from; and documents that are damaged in ways that make them invalid. Non-trivial: the document holds at least two values.",
            subs: &[
                Sub { name: "json", quick: 80_000, thorough: 1_500_000, f: c27_json },
                Sub { name: "toml", quick: 60_000, thorough: 1_000_000, f: c27_toml },
                Sub { name: "damaged", quick: 160_000, thorough: 2_500_000, f: c27_bad },
            ],
            cpu_limit: Some(60),
            assumptions: &["Fractional JSON numbers are compared to a relative error of 1e-14.", "TOML keys are not empty, and TOML documents are nested at most five levels deep; JSON documents at most 300."],
        },
        Prop {
            id: "C28",
            rule: "Values of every kind displayed by str, print, println, echo, debug and at many widths; tables are read back cell by cell. Non-trivial: the value is a list or map of at least two elements.",
            subs: &[
                Sub { name: "content", quick: 60_000, thorough: 1_000_000, f: c28 },
                Sub { name: "output", quick: 60_000, thorough: 1_000_000, f: c28_print },
                Sub { name: "any", quick: 60_000, thorough: 1_000_000, f: c28_any },
            ],
            cpu_limit: Some(60),
            assumptions: &["Cells are compared without white space; keys and values in tables consist of characters of width one."],
        },
        Prop {
            id: "C29",
            rule: "Random widgets, joined horizontally and vertically in random nests, compared with the grid of characters they must form; and joins of sizes that do not match. Non-trivial: at least two widgets are joined, or the text takes at least two lines.",
            subs: &[
                Sub { name: "create", quick: 120_000, thorough: 1_500_000, f: c29_create },
                Sub { name: "join", quick: 25_000, thorough: 400_000, f: c29_join },
            ],
            cpu_limit: Some(60),
            assumptions: &["Characters are one column wide."],
        },
        Prop {
            id: "C30",
            rule: "Texts and other values under random nests of styles, stripped again; and texts wrapped at random widths. Non-trivial: at least two styles, or at least two lines.",
            subs: &[
                Sub { name: "style", quick: 80_000, thorough: 1_500_000, f: c30_style },
                Sub { name: "wrap", quick: 80_000, thorough: 1_500_000, f: c30_wrap },
            ],
            cpu_limit: Some(60),
            assumptions: &["The styled text holds no escape characters of its own; wrapped characters are one column wide."],
        },
        Prop {
            id: "C31",
            rule: "Histories of definitions, removals and lookups, through the library's environment (with parents) and through the language (let, sys@set, sys@unset, unbind, sys@defined?, vars, sys@env, sys@cwd), compared with a map after every step. Non-trivial: a name is bound at least twice or removed.",
            subs: &[
                Sub { name: "api", quick: 80_000, thorough: 1_500_000, f: c31_api },
                Sub { name: "language", quick: 60_000, thorough: 1_000_000, f: c31_lang },
            ],
            cpu_limit: Some(60),
            assumptions: &[],
        },
        Prop {
            id: "C33",
            rule: "Histories of setting and asking for the level and of messages at every level, with messages of one and of many lines. Non-trivial: at least one message is printed and one suppressed.",
            subs: &[Sub { name: "log", quick: 150_000, thorough: 1_500_000, f: c33 }],
            cpu_limit: Some(60),
            assumptions: &["Messages are not empty."],
        },
        Prop {
            id: "C36",
            rule: "Histories of console output interpreted by a small terminal emulator: what is on the screen and where the cursor is. Non-trivial: text of at least two lines is written.",
            subs: &[Sub { name: "screen", quick: 180_000, thorough: 2_000_000, f: c36 }],
            cpu_limit: Some(60),
            assumptions: &["Positions and distances lie on an unbounded screen and are at least 1."],
        },
    ]
}

// ---------------------------------------------------------------- JSON

fn ws(s: &mut Src) -> String {
    if s.chance(3, 4) {
        return String::new();
    }
    (0..1 + s.below(3)).map(|_| *s.pick(&[' ', '\n', '\t', '\r'])).collect()
}

fn json_str(s: &mut Src, t: &str) -> String {
    let mut r = String::from("\"");
    let esc = s.below(4);
    for c in t.chars() {
        let must = c < ' ' || c == '"' || c == '\\';
        if must || (esc == 0 && s.chance(1, 3)) {
            let short = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '/' => Some("\\/"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                _ => None,
            };
            match short {
                Some(x) if s.bool() => r.push_str(x),
                _ => {
                    for u in c.encode_utf16(&mut [0; 2]) {
                        r.push_str(&if s.bool() { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
                    }
                }
            }
        } else {
            r.push(c);
        }
    }
    r.push('"');
    r
}

fn digits(s: &mut Src, max: u64) -> String {
    (0..1 + s.below(max)).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}

fn json_num(s: &mut Src) -> (String, f64) {
    let mut t = String::new();
    if s.chance(1, 4) {
        t.push('-');
    }
    let big = s.chance(1, 8);
    let i = digits(s, if big { 19 } else { 6 });
    let i = i.trim_start_matches('0');
    t.push_str(if i.is_empty() { "0" } else { i });
    if s.chance(1, 3) {
        t.push('.');
        t.push_str(&digits(s, if big { 10 } else { 4 }));
    }
    if s.chance(1, 5) {
        t.push(*s.pick(&['e', 'E']));
        t.push_str(s.pick(&["", "+", "-"]));
        t.push_str(&format!("{}", s.below(if s.size > 50 { 200 } else { 10 })));
    }
    let f = t.parse::<f64>().unwrap();
    (t, f)
}

/// A document and the data it stands for.
fn json_doc(s: &mut Src, depth: usize, n: &mut usize) -> (String, E) {
    *n += 1;
    let (t, v) = match s.below(if depth == 0 { 5 } else { 8 }) {
        0 => ("null".to_string(), E::None),
        1 => ("true".to_string(), E::Boolean(true)),
        2 => ("false".to_string(), E::Boolean(false)),
        3 => {
            let (t, f) = json_num(s);
            // Integers that doubles hold are exact.
            let v = match t.parse::<i64>() {
                Ok(i) if i.abs() <= 1 << 53 => int(i),
                _ => E::Float(f),
            };
            (t, v)
        }
        4 => {
            let max = if s.chance(1, 8) { 60 } else { 10 };
            let x = gen::text(s, max);
            (json_str(s, &x), E::String(x))
        }
        5 | 6 => {
            let k = s.len(8);
            let mut t = String::from("[");
            let mut v = vec![];
            for i in 0..k {
                if i > 0 {
                    t.push(',');
                }
                let (a, b) = json_doc(s, depth - 1, n);
                t.push_str(&a);
                v.push(b);
            }
            if k == 0 {
                t.push_str(&ws(s));
            }
            t.push(']');
            (t, list(v))
        }
        _ => {
            let k = s.len(8);
            let mut t = String::from("{");
            let mut m = BTreeMap::new();
            for _ in 0..k {
                let key = val::key(s);
                if m.contains_key(&key) {
                    continue;
                }
                if !m.is_empty() {
                    t.push(',');
                }
                t.push_str(&ws(s));
                t.push_str(&json_str(s, &key));
                t.push_str(&ws(s));
                t.push(':');
                let (a, b) = json_doc(s, depth - 1, n);
                t.push_str(&a);
                m.insert(key, b);
            }
            t.push_str(&ws(s));
            t.push('}');
            (t, E::Map(m))
        }
    };
    (format!("{}{}{}", ws(s), t, ws(s)), v)
}

fn close(a: &E, b: &E) -> bool {
    match (a, b) {
        (E::Float(x), E::Float(y)) => x == y || (x - y).abs() <= 1e-14 * y.abs(),
        (E::Float(x), E::Integer(y)) => *x == *y as f64,
        (E::List(x), E::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)),
        (E::Map(x), E::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && close(p, q)),
        (E::Float(_), _) | (_, E::Float(_)) => false,
        _ => a == b,
    }
}

fn c27_json(s: &mut Src, cx: &mut Cx) -> R {
    let mut n = 0;
    let (mut t, mut v) = json_doc(s, 4, &mut n);
    if s.chance(1, 40) {
        for _ in 0..s.below(290) {
            if s.bool() {
                t = format!("[{}]", t);
                v = list(vec![v]);
            } else {
                t = format!("{{\"a\":{}}}", t);
                v = E::Map([("a".to_string(), v)].into_iter().collect());
            }
        }
    }
    cx.nontrivial(n >= 2);
    let mut p = val::call(s, "parse@json", &[st(&t)]);
    noise(s, &mut p);
    cx.go(p.show())?;
    match p.run() {
        Out::Val(x) if close(&x, &v) => Ok(()),
        o => fail!("{:?} is read as {} instead of {:?}", t, o.show(), v),
    }
}

// ---------------------------------------------------------------- TOML

fn toml_basic(s: &mut Src, t: &str) -> String {
    let mut r = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' if s.bool() => r.push_str("\\t"),
            '\t' => r.push('\t'),
            c if c < ' ' || c == '\u{7f}' => r.push_str(&format!("\\u{:04X}", c as u32)),
            c if s.chance(1, 12) => r.push_str(&if (c as u32) < 0x10000 && s.bool() { format!("\\u{:04X}", c as u32) } else { format!("\\U{:08X}", c as u32) }),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn toml_str(s: &mut Src, t: &str) -> String {
    let plain = !t.chars().any(|c| c == '\'' || c == '\u{7f}' || (c < ' ' && c != '\t'));
    match s.below(4) {
        0 if plain => format!("'{}'", t),
        1 if plain => format!("'''{}{}'''", if s.bool() || t.starts_with('\n') { "\n" } else { "" }, t),
        2 => {
            let b = toml_basic(s, t);
            // A line break right after the opening quotes is dropped.
            format!("\"\"\"{}{}\"\"\"", if s.bool() { "\n" } else { "" }, &b[1..b.len() - 1])
        }
        _ => toml_basic(s, t),
    }
}
/// The library behind does not know the empty key.
fn tkey(s: &mut Src) -> String {
    let k = val::key(s);
    if k.is_empty() { "k".into() } else { k }
}
fn toml_key(s: &mut Src, k: &str) -> String {
    let bare = !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-');
    if bare && s.chance(3, 4) {
        k.to_string()
    } else if s.bool() && !k.chars().any(|c| c == '\'' || c == '\u{7f}' || c < ' ') {
        format!("'{}'", k)
    } else {
        toml_basic(s, k)
    }
}
fn sp(s: &mut Src) -> &'static str {
    *s.pick(&["", " ", "  ", "\t"])
}
/// A value of the given kind, so that arrays can hold one kind only.
fn toml_val(s: &mut Src, kind: u64, depth: usize, n: &mut usize) -> (String, E) {
    *n += 1;
    match kind {
        0 => {
            let i = gen::int(s);
            let t = match s.below(4) {
                1 if i >= 0 => format!("+{}", i),
                2 if i >= 1000 => {
                    let d = i.to_string();
                    format!("{}_{}", &d[..d.len() - 3], &d[d.len() - 3..])
                }
                3 if i >= 0 => match s.below(3) {
                    0 => format!("0x{:x}", i),
                    1 => format!("0o{:o}", i),
                    _ => format!("0b{:b}", i),
                },
                _ => i.to_string(),
            };
            (t, int(i))
        }
        1 => {
            let f = gen::float(s);
            (match s.below(2) {
                0 => gen::float_lit(f),
                _ => format!("{:?}e0", f).replace("e0", if format!("{:?}", f).contains('e') { "" } else { "e0" }),
            }, E::Float(f))
        }
        2 => {
            let b = s.bool();
            (b.to_string(), E::Boolean(b))
        }
        3 => {
            let t = *s.pick(&["1979-05-27T07:32:00Z", "1979-05-27T00:32:00.999999-07:00", "1979-05-27T07:32:00", "1979-05-27", "07:32:00"]);
            (t.to_string(), st(t))
        }
        4 | 5 => {
            let x = gen::text(s, 10);
            (toml_str(s, &x), E::String(x))
        }
        6 => {
            let k = s.below(if depth == 0 { 6 } else { 8 });
            let mut t = String::from("[");
            let mut v = vec![];
            for i in 0..s.len(5) {
                if i > 0 {
                    t.push(',');
                }
                if s.chance(1, 6) {
                    t.push_str(s.pick(&["\n", " # note ]\n", "\r\n"]));
                }
                t.push_str(sp(s));
                let (a, b) = toml_val(s, k, depth.saturating_sub(1), n);
                t.push_str(&a);
                v.push(b);
            }
            if !v.is_empty() && s.chance(1, 5) {
                t.push(',');
            }
            t.push_str(sp(s));
            t.push(']');
            (t, list(v))
        }
        _ => {
            let mut t = String::from("{");
            let mut m = BTreeMap::new();
            for _ in 0..s.len(4) {
                let k = tkey(s);
                if m.contains_key(&k) {
                    continue;
                }
                if !m.is_empty() {
                    t.push(',');
                }
                let kind = s.below(if depth == 0 { 6 } else { 8 });
                let (a, b) = toml_val(s, kind, depth.saturating_sub(1), n);
                t.push_str(&format!("{}{}{}={}{}{}", sp(s), toml_key(s, &k), sp(s), sp(s), a, sp(s)));
                m.insert(k, b);
            }
            t.push('}');
            (t, E::Map(m))
        }
    }
}
fn toml_line_end(s: &mut Src) -> &'static str {
    *s.pick(&["\n", "\n", "\n", "\r\n", "\n\n", " # a = 1\n", "\t\n# [x]\n"])
}
fn toml_table(s: &mut Src, path: &str, depth: usize, out: &mut String, n: &mut usize) -> E {
    let mut m = BTreeMap::new();
    for _ in 0..s.len(5) {
        let k = tkey(s);
        if m.contains_key(&k) {
            continue;
        }
        let kind = s.below(8);
        let (t, v) = toml_val(s, kind, 1, n);
        out.push_str(&format!("{}{}{}={}{}{}", sp(s), toml_key(s, &k), sp(s), sp(s), t, toml_line_end(s)));
        m.insert(k, v);
    }
    if depth > 0 {
        for _ in 0..s.below(3) {
            let k = tkey(s);
            if m.contains_key(&k) {
                continue;
            }
            let full = format!("{}{}{}", path, if path.is_empty() { "" } else { "." }, toml_key(s, &k));
            if s.chance(1, 3) {
                let mut v = vec![];
                for _ in 0..1 + s.below(3) {
                    out.push_str(&format!("[[{}]]{}", full, toml_line_end(s)));
                    v.push(toml_table(s, &full, depth - 1, out, n));
                }
                m.insert(k, list(v));
            } else {
                out.push_str(&format!("[{}]{}", full, toml_line_end(s)));
                let t = toml_table(s, &full, depth - 1, out, n);
                m.insert(k, t);
            }
        }
    }
    E::Map(m)
}
fn c27_toml(s: &mut Src, cx: &mut Cx) -> R {
    let (mut t, mut n) = (String::new(), 0);
    let v = toml_table(s, "", 3, &mut t, &mut n);
    cx.nontrivial(n >= 2);
    let mut p = val::call(s, "parse@toml", &[st(&t)]);
    noise(s, &mut p);
    cx.go(p.show())?;
    match p.run() {
        Out::Val(x) if val::same(&x, &v) => Ok(()),
        o => fail!("{:?} is read as {} instead of {:?}", t, o.show(), v),
    }
}

fn c27_bad(s: &mut Src, cx: &mut Cx) -> R {
    let mut n = 0;
    let json = s.bool();
    let t = if json {
        let (t, v) = json_doc(s, 3, &mut n);
        match s.below(6) {
            // A proper beginning of a list or an object is not a document.
            0 if matches!(v, E::List(_) | E::Map(_)) => {
                let t = t.trim_end();
                let cut = s.usize(0, t.chars().count() - 1);
                let t: String = t.chars().take(cut).collect();
                if t.trim().is_empty() {
                    return discard();
                }
                t
            }
            1 => format!("{} {}", t, s.pick(&["x", "]", "}", ",", "1", "\"\"", "null"])),
            2 => format!("[{},]", t),
            3 => format!("{{{}: 1}}", s.pick(&["a", "1", "'a'", "null"])),
            4 => s.pick(&["nul", "True", "tru", "'a'", "01x", "+", "\"\\x\"", "\"\\u12\"", "\"abc", "[1 2]", "{\"a\" 1}", "{\"a\":}", "{,}", "[,]", "None", "\"\n"]).to_string(),
            _ => format!("[{} {}]", t, s.pick(&["1", "null", "\"\""])),
        }
    } else {
        let mut t = String::new();
        toml_table(s, "", 1, &mut t, &mut n);
        match s.below(5) {
            // Comes first, so that no table has been opened yet.
            0 => format!("dup = 1\ndup = 2\n{}", t),
            1 => format!("{}\n{}", s.pick(&["a_ =", "= 1", "a_ = \"x", "a_ = [1", "a_ = {b = 1", "[a_", "a_", "a_ = 1 2", "a_ = 'x", "a_ = 01", "a_ = 9223372036854775808", "a_ = tru", "a b_ = 1", "a_ = \"\\x\""]), t),
            2 => format!("{}\n[zz_]\n[zz_]\n", t),
            3 => format!("{}\n[zz_]\na=1\n[zz_.a]\n", t),
            _ => format!("{}\nzz_ = \"\"\"abc", t),
        }
    };
    cx.nontrivial(n >= 2);
    let mut p = val::call(s, if json { "parse@json" } else { "parse@toml" }, &[st(&t)]);
    noise(s, &mut p);
    cx.go(p.show())?;
    match p.run() {
        Out::Err(_) => Ok(()),
        o => fail!("the invalid document {:?} is read as {}", t, o.show()),
    }
}

// ---------------------------------------------------------------- display

/// Text of characters of width one, without the characters that tables are drawn with.
fn flat(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    (0..n).map(|_| *s.pick(&['a', 'b', 'q', 'Z', '0', '7', ' ', '-', '_', '.', '/', 'é', 'λ', '{', '(', '"', '\\', '#', '@', ':'])).collect()
}
fn squeeze(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}
/// Without white space and the marks of the two forms of a list.
fn bare(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace() && !"┃━┳┏┓┻┗┛[],".contains(*c)).collect()
}
fn shown(s: &mut Src, depth: usize) -> E {
    match s.below(if depth == 0 { 6 } else { 9 }) {
        0 => E::Integer(gen::int(s)),
        1 | 2 => {
            let max = if s.chance(1, 5) { 80 } else { 12 };
            E::String(flat(s, max))
        }
        3 => E::Boolean(s.bool()),
        4 => E::Float(gen::float(s)),
        5 => E::None,
        6 => {
            let n = s.len(8);
            let inner = if s.chance(1, 2) { depth - 1 } else { 0 };
            list((0..n).map(|_| shown(s, inner)).collect())
        }
        _ => {
            let n = if s.chance(1, 8) { s.len(30) } else { s.len(5) };
            E::Map((0..n).map(|_| (shown_key(s), shown(s, depth - 1))).collect())
        }
    }
}
fn shown_key(s: &mut Src) -> String {
    let k = flat(s, 8);
    let k = k.trim();
    if k.is_empty() { "k".into() } else { k.into() }
}

/// Whether a list holds lists or maps.
fn nested(v: &E) -> bool {
    matches!(v, E::List(l) if l.iter().any(|x| matches!(x, E::List(_) | E::Map(_))))
}
/// Letters and digits, sorted: where a table is broken into lines again, they are all that can be told.
fn letters(t: &str) -> String {
    let mut cs: Vec<char> = t.chars().filter(|c| c.is_alphanumeric()).collect();
    cs.sort();
    cs.into_iter().collect()
}

/// The rows of a table with their cells; the lines of a cell are joined.
fn table(t: &str) -> Option<Vec<Vec<String>>> {
    ruled(t, "╒╤╕", "├└", '│')
}
/// The cells of the one row in which a list is shown.
fn row(t: &str) -> Option<Vec<String>> {
    ruled(t, "┏┳┓", "┗", '┃')?.pop()
}
fn ruled(t: &str, top: &str, below: &str, bar: char) -> Option<Vec<Vec<String>>> {
    let lines: Vec<&str> = t.lines().collect();
    let mut rows = vec![];
    let mut cur: Option<Vec<Vec<String>>> = None;
    if !lines.first()?.starts_with(top.chars().next()?) || !lines.last()?.starts_with(below.chars().last()?) {
        return None;
    }
    // The columns are where the top border says.
    let cols: Vec<usize> = lines[0].chars().enumerate().filter(|(_, c)| top.contains(*c)).map(|(i, _)| i).collect();
    for l in &lines[1..] {
        let cs: Vec<char> = l.chars().collect();
        if cs.len() != lines[0].chars().count() {
            return None;
        }
        if below.contains(cs[0]) {
            if let Some(c) = cur.take() {
                rows.push(c.into_iter().map(|x| x.join("\n")).collect());
            }
            continue;
        }
        let mut cells = vec![];
        for w in cols.windows(2) {
            if cs[w[0]] != bar || cs[w[1]] != bar {
                return None;
            }
            let x: String = cs[w[0] + 1..w[1]].iter().collect();
            cells.push(x.strip_prefix(' ')?.strip_suffix(' ')?.trim_end().to_string());
        }
        match &mut cur {
            None => cur = Some(cells.into_iter().map(|c| vec![c]).collect()),
            Some(r) => {
                for (r, c) in r.iter_mut().zip(cells) {
                    r.push(c);
                }
            }
        }
    }
    Some(rows)
}

fn check_shown(v: &E, t: &str) -> Result<(), String> {
    match v {
        E::Map(m) if !m.is_empty() => {
            let rows = table(t.trim_end_matches('\n')).ok_or_else(|| format!("not a table:\n{}", t))?;
            if rows.len() != m.len() {
                return Err(format!("{} rows for {} keys:\n{}", rows.len(), m.len(), t));
            }
            for (r, (k, x)) in rows.iter().zip(m) {
                if r[0].trim_end() != k {
                    return Err(format!("the key {:?} is shown as {:?}", k, r[0]));
                }
                match x {
                    E::Map(_) => check_shown(x, &r[1])?,
                    E::List(_) if nested(x) => {
                        let (a, b) = (letters(&r[1]), letters(&data(x)));
                        if a != b {
                            return Err(format!("the list {:?} is shown as {:?}", x, r[1]));
                        }
                    }
                    E::List(_) => {
                        let (a, b) = (bare(&r[1]), bare(&data(x)));
                        if a != b {
                            return Err(format!("the list {:?} is shown as {:?}", x, r[1]));
                        }
                    }
                    _ => {
                        let (a, b) = (squeeze(&r[1]), squeeze(&data(x)));
                        if a != b {
                            return Err(format!("the value {:?} is shown as {:?}", x, r[1]));
                        }
                    }
                }
            }
            Ok(())
        }
        E::Map(_) => Ok(()),
        E::List(l) => {
            let inner: Vec<String> = l.iter().map(data).collect();
            if t.starts_with('[') {
                let w = format!("[{}]", inner.join(", "));
                return if t == w { Ok(()) } else { Err(format!("{:?} instead of {:?}", t, w)) };
            }
            if nested(v) {
                let cells = row(t.trim_end_matches('\n')).ok_or_else(|| format!("not a row:\n{}", t))?;
                if cells.len() != l.len() {
                    return Err(format!("{} cells for {} elements:\n{}", cells.len(), l.len(), t));
                }
                for (c, x) in cells.iter().zip(l) {
                    match x {
                        E::List(_) | E::Map(_) => check_shown(x, c.trim_end_matches(['\n', ' ']))?,
                        _ if c.trim_end() == data(x) => {}
                        _ => return Err(format!("{:?} is shown as {:?}", x, c)),
                    }
                }
                return Ok(());
            }
            let line = t.lines().nth(1).unwrap_or("");
            let w = format!("┃{}", inner.iter().map(|x| format!(" {} ┃", x)).collect::<String>());
            if line == w || l.is_empty() {
                Ok(())
            } else {
                Err(format!("{:?} instead of {:?}", line, w))
            }
        }
        E::String(x) => {
            if t == x {
                Ok(())
            } else {
                Err(format!("{:?} is shown as {:?}", x, t))
            }
        }
        _ => {
            if t == data(v) {
                Ok(())
            } else {
                Err(format!("{:?} is shown as {:?}", v, t))
            }
        }
    }
}
/// How a plain value is written.
fn data(v: &E) -> String {
    match v {
        E::Integer(i) => i.to_string(),
        E::Float(f) => f.to_string(),
        E::String(x) => format!("{:?}", x),
        E::Boolean(b) => if *b { "True" } else { "False" }.into(),
        E::None => "None".into(),
        E::List(l) => format!("[{}]", l.iter().map(data).collect::<Vec<_>>().join(", ")),
        E::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", k, data(v))).collect::<Vec<_>>().join(", ")),
        _ => unreachable!(),
    }
}

fn c28(s: &mut Src, cx: &mut Cx) -> R {
    let v = shown(s, 3);
    cx.nontrivial(matches!(&v, E::List(l) if l.len() > 1) || matches!(&v, E::Map(m) if m.len() > 1));
    let mut p = val::call(s, "str", &[v.clone()]);
    noise(s, &mut p);
    let width = s.usize(20, 200);
    cx.go(p.show())?;
    let out = match p.run() {
        Out::Val(E::String(t)) => t,
        o => fail!("{} gives {}", p.show(), o.show()),
    };
    if let Err(m) = check_shown(&v, &out) {
        fail!("{} shows it wrongly: {}", p.show(), m);
    }
    let t = guarded(|| format!("{:width$}", v));
    match t {
        Ok(t) => {
            if let Err(m) = check_shown(&v, &t) {
                fail!("{:?} is shown wrongly at width {}: {}", v, width, m);
            }
        }
        Err(e) => fail!("{:?} at width {}: {}", v, width, e),
    }
    Ok(())
}

fn c28_print(s: &mut Src, cx: &mut Cx) -> R {
    let n = 1 + s.below(4) as usize;
    let args: Vec<E> = (0..n).map(|_| if s.bool() { E::String(gen::long(s, 12)) } else { val::value_b(s, 2) }).collect();
    let f = *s.pick(&["print", "println", "echo", "debug", "log@echo"]);
    let mut p = val::call(s, f, &args);
    noise(s, &mut p);
    cx.label(f);
    cx.nontrivial(n >= 2);
    cx.go(p.show())?;
    let w: Vec<String> = args.iter().map(|a| if f == "debug" { format!("{:?}", a) } else { format!("{}", a) }).collect();
    let w = w.join(" ") + if f == "print" { "" } else { "\n" };
    let (o, out) = sut::captured(|| p.run());
    ensure!(matches!(o, Out::Val(E::None)), "{} gives {}", p.show(), o.show());
    ensure!(out == w.as_bytes(), "{} prints {:?} instead of {:?}", p.show(), String::from_utf8_lossy(&out), w);
    // What is printed for a value is what str makes of it.
    for a in &args {
        let mut q = Prog::new();
        let x = q.var(a);
        q.text = format!("str {}", x);
        judge(&q, &q.run(), &V(st(format!("{}", a))))?;
        if let E::String(t) = a {
            ensure!(format!("{}", a) == *t, "the text {:?} is displayed as {:?}", t, format!("{}", a));
        }
    }
    Ok(())
}

/// Any tree can be displayed.
fn c28_any(s: &mut Src, cx: &mut Cx) -> R {
    let v = if s.bool() {
        val::value_b(s, 3)
    } else {
        let t = gen::soup(s, 30);
        match sut::guarded_parse(&t) {
            Ok(Ok(e)) => {
                if s.bool() {
                    list(vec![e.clone(), e])
                } else {
                    E::Map([("a".to_string(), e.clone()), ("b".to_string(), list(vec![e]))].into_iter().collect())
                }
            }
            _ => return discard(),
        }
    };
    let width = if s.bool() { s.usize(0, 30) } else { s.usize(0, 1000) };
    cx.nontrivial(true);
    cx.go(format!("{:?} at width {}", v, width))?;
    for f in [|v: &E, w: usize| format!("{:w$}", v), |v: &E, _| format!("{}", v), |v: &E, _| format!("{:?}", v)] {
        if let Err(e) = guarded(|| f(&v, width)) {
            fail!("displaying {:?} at width {}: {}", v, width, e);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- widgets

fn words(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 || s.chance(1, 10) {
            t.push_str(s.pick(&[" ", " ", " ", "  ", "\n", "\n\n", "   "]));
        }
        let max = if s.chance(1, 8) { 30 } else { 7 };
        let k = 1 + s.below(max);
        for _ in 0..k {
            t.push(*s.pick(&['a', 'b', 'c', 'x', 'y', 'z', 'é', 'λ', 'Z', 'k', 'm']));
        }
    }
    if s.chance(1, 8) {
        t.push_str(s.pick(&[" ", "\n", "  \n "]));
    }
    t
}

fn c29_create(s: &mut Src, cx: &mut Cx) -> R {
    let w = s.usize(5, 40);
    let h = s.usize(3, 12);
    let title: String = {
        let n = s.usize(0, w);
        (0..n).map(|_| *s.pick(&['T', 'i', 't', ' ', 'é', '-'])).collect()
    };
    let text = words(s, 30);
    let bad = s.chance(1, 12);
    let (mut wa, mut ha) = (int(w as i64), int(h as i64));
    if bad {
        match s.below(4) {
            0 => wa = int(s.range(-5, 4)),
            1 => ha = int(s.range(-5, 2)),
            2 => wa = st("10"),
            _ => ha = E::None,
        }
    }
    let too_long = title.chars().count() > w - 2;
    let p = val::call(s, "widget@create", &[st(&title), st(&text), wa, ha]);
    cx.nontrivial(text.contains('\n') || text.len() > w);
    cx.go(p.show())?;
    let out = p.run();
    if bad || too_long {
        return judge(&p, &out, &Fails);
    }
    let t = match out {
        Out::Val(E::String(t)) => t,
        o => fail!("{} gives {}", p.show(), o.show()),
    };
    let lines: Vec<Vec<char>> = t.split('\n').map(|l| l.chars().collect()).collect();
    ensure!(lines.len() == h, "{} has {} lines:\n{}", p.show(), lines.len(), t);
    for l in &lines {
        ensure!(l.len() == w, "{} has a line of {} characters:\n{}", p.show(), l.len(), t);
    }
    let top: String = lines[0].iter().collect();
    let inner = top.strip_prefix('┌').and_then(|x| x.strip_suffix('┐'));
    ensure!(inner.map(|x| x.trim_matches('─') == title) == Some(true), "{} has the top {:?}", p.show(), top);
    // The title is in the middle.
    let l = top.chars().skip(1).take_while(|c| *c == '─').count();
    let r = top.chars().rev().skip(1).take_while(|c| *c == '─').count();
    ensure!(title.is_empty() || l.abs_diff(r) <= 1, "{} has its title off the middle: {}", p.show(), top);
    let bottom: String = lines[h - 1].iter().collect();
    ensure!(bottom == format!("└{}┘", "─".repeat(w - 2)), "{} has the bottom {:?}", p.show(), bottom);
    // The text inside is the beginning of the text, and all of it unless the widget is full.
    let body: Vec<String> = lines[1..h - 1].iter().map(|l| l.iter().collect::<String>()).collect();
    for l in &body {
        ensure!(l.starts_with(' ') && l.ends_with(' '), "{} has text in its border:\n{}", p.show(), t);
    }
    let got = squeeze(&body.concat());
    let all = squeeze(&text);
    ensure!(all.starts_with(&got), "{} shows other text than its own:\n{}", p.show(), t);
    let full = body.last().map(|l| !l.trim().is_empty()).unwrap_or(false);
    let blank = text.contains("\n\n") || text.contains("\n \n") || text.starts_with(char::is_whitespace);
    if !full && !blank {
        ensure!(got == all, "{} leaves text out though there is room:\n{}", p.show(), t);
    }
    // Words that fit are not broken, and lines take as many words as fit.
    let room = w - 2;
    if text.split_whitespace().all(|x| x.chars().count() <= room) {
        let ws: Vec<&str> = text.split_whitespace().collect();
        let bw: Vec<&str> = body.iter().flat_map(|l| l.split_whitespace()).collect();
        ensure!(ws.starts_with(&bw), "{} breaks a word:\n{}", p.show(), t);
    }
    Ok(())
}

/// A program for a widget of a size, and the grid it forms.
fn widget(s: &mut Src, p: &mut Prog, w: usize, h: usize, depth: usize, n: &mut usize) -> Option<(String, Vec<String>)> {
    let kind = s.below(3);
    if depth > 0 && kind == 1 && w >= 10 {
        let a = s.usize(5, w - 5);
        let parts = if a >= 10 && s.bool() { vec![5, a - 5, w - a] } else { vec![a, w - a] };
        let mut t = String::from("(widget@joinx");
        let mut g = vec![String::new(); h];
        for q in parts {
            let (x, y) = widget(s, p, q, h, depth - 1, n)?;
            t.push_str(&format!(" {}", x));
            for (a, b) in g.iter_mut().zip(y) {
                a.push_str(&b);
            }
        }
        *n += 1;
        return Some((t + ")", g));
    }
    if depth > 0 && kind == 2 && h >= 6 {
        let a = s.usize(3, h - 3);
        let (x, mut g) = widget(s, p, w, a, depth - 1, n)?;
        let (y, k) = widget(s, p, w, h - a, depth - 1, n)?;
        g.extend(k);
        *n += 1;
        return Some((format!("(widget@joiny {} {})", x, y), g));
    }
    let title = gen::plain(s, 3).replace(' ', "");
    let title: String = title.chars().take(w - 2).collect();
    let text = words(s, 6);
    let mut q = Prog::new();
    let (a, b) = (q.var(&st(&title)), q.var(&st(&text)));
    q.text = format!("widget@create {} {} {} {}", a, b, w, h);
    let c = match q.run() {
        Out::Val(E::String(t)) => t,
        _ => return None,
    };
    let lines: Vec<String> = c.split('\n').map(|x| x.to_string()).collect();
    let var = if s.bool() {
        p.var(&st(&c))
    } else {
        let (a, b) = (p.var(&st(&title)), p.var(&st(&text)));
        format!("(widget@create {} {} {} {})", a, b, w, h)
    };
    Some((var, lines))
}

fn c29_join(s: &mut Src, cx: &mut Cx) -> R {
    let w = s.usize(5, 40);
    let h = s.usize(3, 20);
    let mut p = Prog::new();
    let mut n = 0;
    let mismatch = s.chance(1, 8);
    if mismatch {
        let dx = 1 + s.usize(0, 4);
        let (a, _) = widget(s, &mut p, w, h, 1, &mut n).ok_or(Fail::Discard)?;
        let x = s.bool();
        let (b, _) = if x { widget(s, &mut p, w, h + dx, 1, &mut n) } else { widget(s, &mut p, w + dx, h, 1, &mut n) }.ok_or(Fail::Discard)?;
        let f = if x { "widget@joinx" } else { "widget@joiny" };
        p.text = match s.below(3) {
            0 => format!("{} {} {}", f, a, b),
            1 => format!("{} {} {}", f, b, a),
            _ => format!("{} {} {} {}", f, a, a, b),
        };
        cx.nontrivial(true);
        cx.go(p.show())?;
        return judge(&p, &p.run(), &Fails);
    }
    let (t, g) = widget(s, &mut p, w, h, 3, &mut n).ok_or(Fail::Discard)?;
    p.text = t;
    cx.nontrivial(n >= 1);
    cx.go(p.show())?;
    match p.run() {
        Out::Val(E::String(t)) => {
            let got: Vec<&str> = t.strip_suffix('\n').unwrap_or(&t).split('\n').collect();
            ensure!(got == g, "{} gives\n{}\ninstead of\n{}", p.show(), t, g.join("\n"));
            Ok(())
        }
        o => fail!("{} gives {}", p.show(), o.show()),
    }
}

// ---------------------------------------------------------------- styles

const STYLES: &[(&str, u32)] = &[
    ("bold", 1),
    ("faint", 2),
    ("italics", 3),
    ("underline", 4),
    ("blink", 5),
    ("invert", 7),
    ("strike", 9),
    ("black", 90),
    ("red", 91),
    ("green", 92),
    ("yellow", 93),
    ("blue", 94),
    ("magenta", 95),
    ("cyan", 96),
    ("white", 97),
    ("dark@black", 30),
    ("dark@red", 31),
    ("dark@green", 32),
    ("dark@yellow", 33),
    ("dark@blue", 34),
    ("dark@magenta", 35),
    ("dark@cyan", 36),
    ("dark@white", 37),
];

/// A character, the styles it is shown in, and where it leads.
type Cell = (char, BTreeSet<u32>, String);

/// The characters of a text as a terminal shows them.
fn cells(t: &str) -> Option<Vec<Cell>> {
    let mut on = BTreeSet::new();
    let mut link = String::new();
    let mut r = vec![];
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\u{1b}' {
            r.push((c, on.clone(), link.clone()));
            continue;
        }
        match it.next()? {
            '[' => {}
            ']' => {
                let mut n = String::new();
                loop {
                    match it.next()? {
                        '\u{1b}' if it.peek() == Some(&'\\') => {
                            it.next();
                            break;
                        }
                        '\u{7}' => break,
                        c => n.push(c),
                    }
                }
                link = n.strip_prefix("8;;")?.to_string();
                continue;
            }
            _ => return None,
        }
        let mut n = String::new();
        loop {
            match it.next()? {
                'm' => break,
                d if d.is_ascii_digit() => n.push(d),
                _ => return None,
            }
        }
        match n.parse::<u32>().unwrap_or(0) {
            0 => on.clear(),
            k => {
                // A colour takes the place of another.
                if k >= 30 {
                    on.retain(|x| *x < 30);
                }
                on.insert(k);
            }
        }
    }
    // Nothing stays switched on.
    if on.is_empty() && link.is_empty() { Some(r) } else { None }
}

fn c30_style(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 6) {
        return c30_strip(s, cx);
    }
    let v = if s.chance(3, 4) { st(gen::text(s, 20).replace('\u{1b}', "")) } else { shown(s, 2) };
    let plain = format!("{}", v);
    let mut p = Prog::new();
    let mut t = p.arg(s, &v);
    let mut set = BTreeSet::new();
    let mut link: Option<String> = None;
    let n = 1 + s.below(3);
    for _ in 0..n {
        if s.chance(1, 5) {
            let url = s.pick(&["https://example.com/a?b=c&d=e#f", "file:///tmp/x", "m", "", "https://example.com/m", "é", "mailto:me"]).to_string();
            let u = p.arg(s, &st(&url));
            t = format!("(fmt@href {} {})", u, t);
            // The innermost link is the one that leads somewhere.
            link.get_or_insert(url);
            continue;
        }
        let (f, k) = *s.pick(STYLES);
        t = format!("(fmt@{} {})", f, t);
        // The innermost colour is the one that shows.
        if k < 30 || !set.iter().any(|x| *x >= 30) {
            set.insert(k);
        }
    }
    p.text = t.clone();
    let link = link.unwrap_or_default();
    cx.nontrivial(n >= 2 && !plain.is_empty());
    cx.go(p.show())?;
    let out = match p.run() {
        Out::Val(E::String(x)) => x,
        o => fail!("{} gives {}", p.show(), o.show()),
    };
    match cells(&out) {
        Some(c) => {
            let x: String = c.iter().map(|c| c.0).collect();
            ensure!(x == plain, "{} shows {:?} instead of {:?}", p.show(), x, plain);
            ensure!(c.iter().all(|c| c.1 == set), "{} gives {:?}, which is not in the styles {:?}", p.show(), out, set);
            ensure!(c.iter().all(|c| c.2 == link), "{} gives {:?}, which does not lead to {:?}", p.show(), out, link);
        }
        None => fail!("{} gives {:?}, which leaves a style on or is not made of style codes", p.show(), out),
    }
    p.text = format!("fmt@strip {}", t);
    judge(&p, &p.run(), &V(st(&plain)))?;
    // In the middle of other text.
    p.text = format!("fmt@strip (\"<\" + {} + \">\")", t);
    judge(&p, &p.run(), &V(st(format!("<{}>", plain))))?;
    p.text = "fmt@strip zz".into();
    p.vars.push(("zz".into(), v));
    judge(&p, &p.run(), &V(st(&plain)))
}

/// Text between any control sequences.
fn c30_strip(s: &mut Src, cx: &mut Cx) -> R {
    let (mut t, mut plain) = (String::new(), String::new());
    let n = 1 + s.below(6);
    for _ in 0..n {
        let x = gen::text(s, 6).replace('\u{1b}', "");
        t.push_str(&x);
        plain.push_str(&x);
        match s.below(8) {
            0 => t.push_str(&format!("\u{1b}]8;;{}\u{1b}\\", s.pick(&["", "https://example.com/m?a=m;b", "m"]))),
            1 => t.push_str(&format!("\u{1b}]{};{}\u{7}", s.pick(&["0", "2", "52;c"]), s.pick(&["", "m", "a title", "日本"]))),
            _ => {
                let k = s.below(4);
                let nums: Vec<String> = (0..k).map(|_| s.below(256).to_string()).collect();
                t.push_str(&format!("\u{1b}[{}{}{}", s.pick(&["", "", "", "?", ">"]), nums.join(";"), s.pick(&["m", "m", "m", "K", "J", "H", "A", "h", "l", "~", "@", "n", "u"])));
            }
        }
    }
    let x = gen::text(s, 6).replace('\u{1b}', "");
    t.push_str(&x);
    plain.push_str(&x);
    cx.nontrivial(n >= 2);
    go(s, cx, "fmt@strip", vec![st(t)], V(st(plain)), true)
}

fn c30_wrap(s: &mut Src, cx: &mut Cx) -> R {
    let n = if s.chance(1, 12) { s.range(1, i64::MAX) } else { s.range(1, 30) };
    let t = words(s, 25);
    if s.chance(1, 15) {
        let v = s.pick(&[st("9"), E::None, E::Float(3.0), list(vec![])]).clone();
        cx.nontrivial(false);
        return go(s, cx, "fmt@wrap", vec![st(t), v], Fails, false);
    }
    let p = val::call(s, "fmt@wrap", &[st(&t), int(n)]);
    cx.go(p.show())?;
    let out = match p.run() {
        Out::Val(E::String(x)) => x,
        o => fail!("{} gives {}", p.show(), o.show()),
    };
    cx.nontrivial(out.contains('\n'));
    let n = n as usize;
    for l in out.split('\n') {
        ensure!(l.chars().count() <= n, "{} gives a line of {} characters: {:?}", p.show(), l.chars().count(), l);
    }
    ensure!(squeeze(&out) == squeeze(&t), "{} changes the text: {:?}", p.show(), out);
    if t.split_whitespace().all(|w| w.chars().count() <= n) {
        let (a, b): (Vec<&str>, Vec<&str>) = (t.split_whitespace().collect(), out.split_whitespace().collect());
        ensure!(a == b, "{} breaks a word: {:?}", p.show(), out);
    }
    // Line breaks of the text stay, and a line that fits stays as it is but for spaces at its end.
    let lines: Vec<&str> = t.split('\n').collect();
    ensure!(out.matches('\n').count() >= lines.len() - 1, "{} loses a line break: {:?}", p.show(), out);
    if lines.iter().all(|l| l.chars().count() <= n) {
        let want: Vec<&str> = lines.iter().map(|l| l.trim_end_matches(' ')).collect();
        let got: Vec<&str> = out.split('\n').map(|l| l.trim_end_matches(' ')).collect();
        ensure!(want == got, "{} gives {:?}, though every line fits", p.show(), out);
    }
    Ok(())
}

// ---------------------------------------------------------------- environment

fn c31_api(s: &mut Src, cx: &mut Cx) -> R {
    #[derive(Clone)]
    struct M {
        own: BTreeMap<String, E>,
        parent: Option<Box<M>>,
    }
    impl M {
        fn get(&self, n: &str) -> Option<&E> {
            self.own.get(n).or_else(|| self.parent.as_ref().and_then(|p| p.get(n)))
        }
    }
    let names = ["x", "y", "z", "CWD", "", "long name", "é"];
    enum Op {
        Def(usize, &'static str, E),
        Undef(usize, &'static str),
        Parent(usize, usize),
        Clone(usize),
        Cwd(usize, String),
        Module(usize, &'static str, BTreeMap<String, E>),
    }
    let k = 2 + s.usize(0, 2);
    let n = s.len(30) + 1;
    let mut ops = vec![];
    let mut live = k;
    let mut seen = BTreeSet::new();
    let mut twice = false;
    for _ in 0..n {
        let e = s.idx(live);
        let name = *s.pick(&names);
        ops.push(match s.below(8) {
            0..=2 => {
                twice |= !seen.insert((e, name));
                Op::Def(e, name, val::value(s, 1))
            }
            3 => {
                twice |= seen.contains(&(e, name));
                Op::Undef(e, name)
            }
            4 => Op::Parent(e, s.idx(live)),
            5 if live < 6 => {
                live += 1;
                Op::Clone(e)
            }
            6 => Op::Cwd(e, gen::text(s, 6)),
            _ => Op::Module(e, name, val::map(s, 1, 4)),
        });
    }
    cx.nontrivial(twice);
    let show: Vec<String> = ops
        .iter()
        .map(|o| match o {
            Op::Def(e, n, v) => format!("e{}.define({:?}, {:?})", e, n, v),
            Op::Undef(e, n) => format!("e{}.undefine({:?})", e, n),
            Op::Parent(e, p) => format!("e{}.set_parent(e{}.clone())", e, p),
            Op::Clone(e) => format!("e{}.clone()", e),
            Op::Cwd(e, c) => format!("e{}.set_cwd({:?})", e, c),
            Op::Module(e, n, m) => format!("e{}.define_module({:?}, {:?})", e, n, m),
        })
        .collect();
    cx.go(format!("{} environments: {}", k, show.join("; ")))?;
    let mut envs: Vec<Environment> = (0..k).map(|_| Environment::new()).collect();
    let mut ms: Vec<M> = (0..k).map(|_| M { own: BTreeMap::new(), parent: None }).collect();
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Def(e, n, v) => {
                envs[*e].define(n, v.clone());
                ms[*e].own.insert(n.to_string(), v.clone());
            }
            Op::Undef(e, n) => {
                envs[*e].undefine(n);
                ms[*e].own.remove(*n);
            }
            Op::Parent(e, p) => {
                let x = envs[*p].clone();
                envs[*e].set_parent(x);
                let x = ms[*p].clone();
                ms[*e].parent = Some(Box::new(x));
            }
            Op::Clone(e) => {
                let x = envs[*e].clone();
                envs.push(x);
                let x = ms[*e].clone();
                ms.push(x);
            }
            Op::Cwd(e, c) => {
                envs[*e].set_cwd(c);
                ms[*e].own.insert("CWD".into(), st(c));
            }
            Op::Module(e, n, m) => {
                envs[*e].define_module(n, m.clone());
                ms[*e].own.insert(n.to_string(), E::Map(m.clone()));
            }
        }
        for (j, (e, m)) in envs.iter().zip(&ms).enumerate() {
            for n in names {
                let (g, w) = (e.get(n), m.get(n));
                let same = match (&g, w) {
                    (Some(a), Some(b)) => val::same(a, b),
                    (None, None) => true,
                    _ => false,
                };
                ensure!(same, "after step {} ({}), {:?} in e{} is {:?} instead of {:?}", i, show[i], n, j, g, w);
                ensure!(e.is_defined(n) == w.is_some(), "after step {} ({}), is_defined({:?}) in e{} is {}", i, show[i], n, j, e.is_defined(n));
            }
            let cwd = match m.get("CWD") {
                Some(E::String(c)) => c.clone(),
                _ => "/".into(),
            };
            ensure!(e.get_cwd() == cwd, "after step {} ({}), the cwd of e{} is {:?} instead of {:?}", i, show[i], j, e.get_cwd(), cwd);
            let keys: Vec<&String> = e.bindings.keys().collect();
            let want: Vec<&String> = m.own.keys().collect();
            ensure!(keys == want, "after step {} ({}), e{} holds {:?} instead of {:?}", i, show[i], j, keys, want);
        }
    }
    Ok(())
}

fn c31_lang(s: &mut Src, cx: &mut Cx) -> R {
    let names = ["aa", "bb", "cc", "d-d", "e.e", "xs"];
    let mut m: BTreeMap<String, E> = BTreeMap::new();
    let mut env = sut::fresh_env();
    let base: BTreeSet<String> = env.bindings.keys().cloned().collect();
    let mut steps: Vec<(String, Want)> = vec![];
    let (mut rebound, mut removed) = (false, false);
    for _ in 0..s.len(16) + 1 {
        let n = *s.pick(&names);
        let step = match s.below(10) {
            0..=2 => {
                let v = loop {
                    let v = val::value(s, 1);
                    if val::lit(&v).is_some() {
                        break v;
                    }
                };
                rebound |= m.contains_key(n);
                let l = val::lit(&v).unwrap();
                m.insert(n.into(), v);
                let t = match s.below(4) {
                    1 => format!("{{ let {} = {}; None }}", n, l),
                    2 => format!("let other = 1; exec '(let {} = {}); None", n, l),
                    // This one stores the expression itself.
                    3 if !l.contains('(') => format!("sys@set {} {}; None", n, l),
                    _ => format!("let {} = {}; None", n, l),
                };
                (t, V(E::None))
            }
            3 => {
                removed |= m.remove(n).is_some();
                (format!("{} {}; None", s.pick(&["unbind", "sys@unset"]), n), V(E::None))
            }
            4 | 5 => (format!("sys@defined? {}", n), V(E::Boolean(m.contains_key(n)))),
            6 => match m.get(n) {
                Some(v) => (n.to_string(), V(v.clone())),
                None => (format!("sys@defined? {}", n), V(E::Boolean(false))),
            },
            7 => {
                // A definition inside a function or eval does not leave it.
                let l = format!("{}", s.below(100));
                (match s.below(4) {
                    0 => format!("(q -> {{ let {} = {}; None }}) 1", n, l),
                    1 => format!("eval '(let {} = {}); None", n, l),
                    2 => format!("sys@eval '(let {} = {}); None", n, l),
                    _ => format!("(q -> {{ sys@unset {}; None }}) 1", n),
                }, V(E::None))
            }
            8 => {
                let f = *s.pick(&["vars ()", "sys@env ()"]);
                match m.get(n) {
                    Some(v) => (format!("({})@{}", f, gen::quote(n)), V(v.clone())),
                    None => (format!("({})@{}", f, gen::quote(n)), V(E::None)),
                }
            }
            _ => ("sys@cwd ()".into(), V(st(sut::cwd_dir().to_str().unwrap()))),
        };
        steps.push(step);
    }
    cx.nontrivial(rebound || removed);
    cx.go(steps.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("   #then: "))?;
    for (i, (t, w)) in steps.iter().enumerate() {
        let o = sut::run_in(&mut env, t);
        let p = Prog { text: format!("step {}: {}", i, t), vars: vec![] };
        judge(&p, &o, w)?;
    }
    // Nothing else has been bound.
    for k in env.bindings.keys() {
        ensure!(base.contains(k) || m.contains_key(k) || k == "other", "{:?} got bound", k);
    }
    for k in base {
        ensure!(env.is_defined(&k), "{:?} got lost", k);
    }
    Ok(())
}

// ---------------------------------------------------------------- log

fn c33(s: &mut Src, cx: &mut Cx) -> R {
    const LEVELS: &[(&str, i64, &str)] = &[("error", 1, "91"), ("warn", 2, "93"), ("info", 3, "92"), ("debug", 4, "94"), ("trace", 5, "95")];
    let mut level = s.range(0, 5);
    let mut steps: Vec<(String, Want, String)> = vec![(format!("log@set-level {}", level), V(E::None), String::new())];
    let (mut on, mut off) = (0, 0);
    let mut vars = Prog::new();
    for _ in 0..s.len(12) + 2 {
        match s.below(9) {
            0 => {
                if s.bool() {
                    level = s.range(0, 5);
                    let t = match LEVELS.iter().find(|l| l.1 == level) {
                        Some(l) if s.bool() => format!("log@set-level (log@level@{})", l.0),
                        _ if level == 0 && s.bool() => "log@set-level (log@level@none)".into(),
                        _ => format!("log@set-level {}", level),
                    };
                    steps.push((t, V(E::None), String::new()));
                } else {
                    level = 0;
                    steps.push(("log@disable ()".into(), V(E::None), String::new()));
                }
            }
            1 => steps.push(("log@get-level ()".into(), V(int(level)), String::new())),
            2 => {
                let (n, k, _) = *s.pick(LEVELS);
                let t = if s.bool() { format!("log@enabled? (log@level@{})", n) } else { format!("log@enabled? {}", k) };
                steps.push((t, V(E::Boolean(k <= level)), String::new()));
            }
            3 => {
                let v = s.pick(&["\"3\"", "None", "[1]", "2.0"]);
                steps.push((format!("{} {}", s.pick(&["log@set-level", "log@enabled?"]), v), Fails, String::new()));
            }
            _ => {
                let (n, k, c) = *s.pick(LEVELS);
                let args: Vec<E> = (0..1 + s.below(3))
                    .map(|_| {
                        if s.chance(1, 4) {
                            let k = s.usize(1, 4);
                            let mut t = (0..k).map(|_| if s.chance(1, 6) { String::new() } else { flat(s, 8) + "w" }).collect::<Vec<_>>().join("\n");
                            if s.chance(1, 3) || t.is_empty() {
                                t.push('\n');
                            }
                            st(t)
                        } else if s.bool() {
                            st(flat(s, 8) + "w")
                        } else {
                            s.pick(&[int(5), E::Boolean(true), E::None, E::Float(2.5)]).clone()
                        }
                    })
                    .collect();
                let mut t = format!("log@{}", n);
                for a in &args {
                    t.push(' ');
                    t.push_str(&vars.arg(s, a));
                }
                let mut w = String::new();
                if k <= level {
                    on += 1;
                    // The arguments make up one text that ends its last line.
                    for (i, a) in args.iter().enumerate() {
                        w.push_str(&format!("{}", a));
                        if i + 1 < args.len() {
                            if !w.ends_with('\n') {
                                w.push(' ');
                            }
                        } else if !w.ends_with('\n') {
                            w.push('\n');
                        }
                    }
                    w = w.split_inclusive('\n').map(|l| format!("\u{1b}[{}m[{}]\u{1b}[m {}", c, n.to_uppercase(), l)).collect();
                } else {
                    off += 1;
                }
                steps.push((t, V(E::None), w));
            }
        }
    }
    cx.nontrivial(on > 0 && off > 0);
    vars.text = steps.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("   #then: ");
    cx.go(vars.show())?;
    let mut env = vars.env();
    for (i, (t, v, w)) in steps.iter().enumerate() {
        let (o, out) = sut::captured(|| sut::run_in(&mut env, t));
        let p = Prog { text: format!("step {}: {}", i, t), vars: vec![] };
        judge(&p, &o, v)?;
        ensure!(out == w.as_bytes(), "step {} ({}) prints {:?} instead of {:?}", i, t, String::from_utf8_lossy(&out), w);
    }
    Ok(())
}

// ---------------------------------------------------------------- console

#[derive(Default)]
struct Screen {
    at: BTreeMap<(i64, i64), char>,
    row: i64,
    col: i64,
    saved: (i64, i64),
    hidden: bool,
    alternate: bool,
}
impl Screen {
    fn feed(&mut self, t: &str) -> Result<(), String> {
        let mut it = t.chars();
        while let Some(c) = it.next() {
            match c {
                '\n' => {
                    self.row += 1;
                    self.col = 1;
                }
                '\u{1b}' => {
                    if it.next() != Some('[') {
                        return Err("an escape that is not a control sequence".into());
                    }
                    let mut p = String::new();
                    let f = loop {
                        match it.next() {
                            Some(c) if c.is_ascii_digit() || c == ';' || c == '?' => p.push(c),
                            Some(c) => break c,
                            None => return Err("an unfinished control sequence".into()),
                        }
                    };
                    let n: Vec<i64> = p.trim_start_matches('?').split(';').map(|x| x.parse().unwrap_or(1)).collect();
                    match (f, p.as_str()) {
                        ('H', "") => (self.row, self.col) = (1, 1),
                        ('H' | 'f', _) if n.len() == 2 => (self.row, self.col) = (n[0], n[1]),
                        ('A', _) => self.row -= n[0],
                        ('B', _) => self.row += n[0],
                        ('C', _) => self.col += n[0],
                        ('D', _) => self.col -= n[0],
                        ('s', "") => self.saved = (self.row, self.col),
                        ('u', "") => (self.row, self.col) = self.saved,
                        ('J', "2") => self.at.clear(),
                        ('h', "?25") => self.hidden = false,
                        ('l', "?25") => self.hidden = true,
                        ('h', "?1049") => self.alternate = true,
                        ('l', "?1049") => self.alternate = false,
                        _ => return Err(format!("the control sequence {:?}{}", p, f)),
                    }
                }
                c => {
                    self.at.insert((self.row, self.col), c);
                    self.col += 1;
                }
            }
        }
        Ok(())
    }
}

fn c36(s: &mut Src, cx: &mut Cx) -> R {
    let mut p = Prog::new();
    let mut m = Screen { row: 1000, col: 1000, ..Default::default() };
    let mut steps = vec![];
    let mut many = false;
    // The model of the screen after every step.
    let mut want = vec![];
    for _ in 0..s.len(10) + 1 {
        // Positions far out are no different.
        let mut place = || match s.below(8) {
            0 => s.range(1, 100_000),
            1 => *s.pick(&[80, 99, 100, 127, 128, 132, 255, 256, 999, 1000, 1001, 9999, 10_000, 32_767, 32_768, 65_535, 65_536]),
            _ => s.range(1, 60),
        };
        let (x, y) = (place(), place());
        let t = match s.below(14) {
            0..=4 => {
                let c = words(s, 6);
                let lines: Vec<&str> = c.lines().collect();
                many |= lines.len() > 1;
                for (k, l) in lines.iter().enumerate() {
                    for (j, ch) in l.chars().enumerate() {
                        m.at.insert((y + k as i64, x + j as i64), ch);
                    }
                }
                if !lines.is_empty() {
                    m.saved = (m.row, m.col);
                }
                format!("console@write {} {} {}", x, y, p.arg(s, &st(&c)))
            }
            5 => {
                (m.row, m.col) = (y, x);
                format!("console@cursor@move-to {} {}", x, y)
            }
            6 => {
                m.row -= y;
                format!("console@cursor@move-up {}", y)
            }
            7 => {
                m.row += y;
                format!("console@cursor@move-down {}", y)
            }
            8 => {
                m.col -= x;
                format!("console@cursor@move-left {}", x)
            }
            9 => {
                m.col += x;
                format!("console@cursor@move-right {}", x)
            }
            10 => {
                m.saved = (m.row, m.col);
                "console@cursor@save-position ()".into()
            }
            11 if steps.iter().any(|x: &String| x.contains("save-position") || x.contains("write")) => {
                (m.row, m.col) = m.saved;
                "console@cursor@restore-position ()".into()
            }
            12 => {
                m.at.clear();
                (m.row, m.col) = (1, 1);
                "console@clear ()".into()
            }
            _ => match s.below(4) {
                0 => {
                    m.hidden = true;
                    "console@cursor@hide ()".into()
                }
                1 => {
                    m.hidden = false;
                    "console@cursor@show ()".into()
                }
                2 => {
                    m.alternate = true;
                    "console@mode@alternate ()".into()
                }
                _ => {
                    m.alternate = false;
                    "console@mode@normal ()".into()
                }
            },
        };
        steps.push(t);
        want.push((m.at.clone(), m.row, m.col, m.hidden, m.alternate));
    }
    cx.nontrivial(many);
    p.text = steps.join("   #then: ");
    cx.go(p.show())?;
    let mut env = p.env();
    let mut scr = Screen { row: 1000, col: 1000, ..Default::default() };
    for (i, (t, w)) in steps.iter().zip(want).enumerate() {
        let (o, out) = sut::captured(|| sut::run_in(&mut env, t));
        ensure!(matches!(o, Out::Val(E::None)), "{} gives {}", t, o.show());
        let out = String::from_utf8_lossy(&out).into_owned();
        if let Err(e) = scr.feed(&out) {
            fail!("step {} ({}) prints {:?}: {}", i, t, out, e);
        }
        ensure!((scr.row, scr.col) == (w.1, w.2), "after step {} ({}) the cursor is at row {}, column {} instead of {}, {}", i, t, scr.row, scr.col, w.1, w.2);
        ensure!(scr.at == w.0, "after step {} ({}) the screen holds other text: {:?}", i, t, out);
        ensure!((scr.hidden, scr.alternate) == (w.3, w.4), "after step {} ({}) the mode of the screen is wrong", i, t);
    }
    Ok(())
}
