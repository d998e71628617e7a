//! Tokenizer, parser and error-report properties on arbitrary text.

use crate::engine::*;
use crate::{ensure, fail, gen, sut};
use dune::{tokenize, Diagnostic, Error, TokenKind};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "Texts: random unicode, soups of source fragments, and edited programs. Non-trivial: at least three tokens of two kinds, or a diagnostic.",
            subs: &[Sub { name: "lexer", quick: 1_500_000, thorough: 12_000_000, f: c01 }],
            cpu_limit: Some(60),
            assumptions: &["The token classes are those of the language at the pinned commit, restated in an independent lexer."],
        },
        Prop {
            id: "C02",
            rule: "Texts as for C01, plus deep nesting. Non-trivial: the text is rejected with a message, or parses to more than one node.",
            subs: &[
                Sub { name: "total", quick: 1_000_000, thorough: 10_000_000, f: c02 },
                Sub { name: "deep", quick: 2_000, thorough: 20_000, f: c02_deep },
            ],
            cpu_limit: Some(60),
            assumptions: &["Texts have at most a few thousand tokens on one operator chain, and an 8 MiB stack is available."],
        },
        Prop {
            id: "C05",
            rule: "Values: any text in which each character is written raw or by any escape that names it, any 64-bit integer, any finite decimal. Non-trivial: an escape, a non-ASCII character, or a number of more than one digit.",
            subs: &[
                Sub { name: "strings", quick: 1_000_000, thorough: 10_000_000, f: c05_str },
                Sub { name: "numbers", quick: 1_000_000, thorough: 10_000_000, f: c05_num },
            ],
            cpu_limit: None,
            assumptions: &[],
        },
        Prop {
            id: "C06",
            rule: "Programs of valid lines (statements, comments, blank lines, strings over several lines) with one error planted at a known place. Non-trivial: the error is not on the first line.",
            subs: &[Sub { name: "location", quick: 700_000, thorough: 6_000_000, f: c06 }],
            cpu_limit: None,
            assumptions: &["Lines of up to 72 characters are shown in full; longer ones may be cut."],
        },
        Prop {
            id: "C07",
            rule: "Texts as for C01 without escape characters. Non-trivial: the highlighted text differs from the plain one.",
            subs: &[
                Sub { name: "highlight", quick: 2_000_000, thorough: 20_000_000, f: c07 },
                Sub { name: "hint", quick: 20_000, thorough: 200_000, f: c07_hint },
            ],
            cpu_limit: Some(60),
            assumptions: &[],
        },
    ]
}

// ---------------------------------------------------------------- reference lexer

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum K {
    Punct,
    Op,
    Kw,
    Str,
    Int,
    Float,
    Bool,
    Sym,
    Ws,
    Com,
}

fn symchar(c: char) -> bool {
    c.is_ascii_alphanumeric() || "_+-.~\\/?&<>$%#^:".contains(c)
}

/// (kind, text, has a diagnostic)
pub fn reference_lex(t: &str) -> Vec<(K, String, bool)> {
    let cs: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let word = |w: &str| -> bool {
            let w: Vec<char> = w.chars().collect();
            cs[i..].starts_with(&w) && !cs.get(i + w.len()).map_or(false, |c| symchar(*c))
        };
        let first = |ws: &[&str]| ws.iter().find(|w| word(w)).map(|w| w.chars().count());
        let (k, n, bad);
        if let Some(l) = first(&["to", "==", "!=", ">=", "<=", "&&", "||", "//", "<<", ">>", ">>>"]) {
            (k, n, bad) = (K::Op, l, false);
        } else if "()[]{}',;=".contains(cs[i]) {
            (k, n, bad) = (K::Punct, 1, false);
        } else if let Some(l) = first(&["->", "~>"]) {
            (k, n, bad) = (K::Punct, l, false);
        } else if let Some(l) = first(&["None", "then", "else", "let", "for", "if", "in"]) {
            (k, n, bad) = (K::Kw, l, false);
        } else if first(&["<", ">", "+", "-", "*", "%", "|"]).is_some() || cs[i] == '@' || cs[i] == '!' {
            (k, n, bad) = (K::Op, 1, false);
        } else if let Some(l) = first(&["True", "False"]) {
            (k, n, bad) = (K::Bool, l, false);
        } else if cs[i] == '#' {
            (k, n, bad) = (K::Com, cs[i..].iter().take_while(|c| **c != '\n' && **c != '\r').count(), false);
        } else if cs[i] == '"' {
            let mut j = i + 1;
            let mut err = false;
            while j < cs.len() && cs[j] != '"' {
                if cs[j] != '\\' {
                    j += 1;
                    continue;
                }
                match cs.get(j + 1) {
                    Some('"' | '\\' | 'b' | 'f' | 'n' | 'r' | 't') => j += 2,
                    Some('u') if cs.get(j + 2) == Some(&'{') && cs.get(j + 3).map_or(false, |c| c.is_ascii_hexdigit()) => {
                        let hex: String = cs[j + 3..].iter().take(5).take_while(|c| c.is_ascii_hexdigit()).collect();
                        let valid = char::from_u32(u32::from_str_radix(&hex, 16).unwrap()).is_some();
                        j += 3 + hex.len();
                        if valid && cs.get(j) == Some(&'}') {
                            j += 1;
                        } else {
                            err = true;
                        }
                    }
                    Some(_) => {
                        j += 2;
                        err = true;
                    }
                    None => {
                        j += 1;
                        err = true;
                    }
                }
            }
            if j < cs.len() {
                j += 1;
            }
            (k, n, bad) = (K::Str, j - i, err);
        } else {
            let mut j = i;
            if cs[j] == '-' {
                j += 1;
            }
            let digits = |j: usize| cs[j.min(cs.len())..].iter().take_while(|c| c.is_ascii_digit()).count();
            let d = if cs.get(j) == Some(&'0') { 1 } else { digits(j) };
            if d > 0 {
                j += d;
                if cs.get(j) == Some(&'.') {
                    let f = digits(j + 1);
                    (k, n, bad) = (K::Float, j + 1 + f - i, f == 0);
                } else {
                    (k, n, bad) = (K::Int, j - i, false);
                }
            } else if symchar(cs[i]) {
                (k, n, bad) = (K::Sym, cs[i..].iter().take_while(|c| symchar(**c)).count(), false);
            } else if cs[i].is_ascii_whitespace() {
                (k, n, bad) = (K::Ws, cs[i..].iter().take_while(|c| c.is_ascii_whitespace()).count(), false);
            } else {
                (k, n, bad) = (K::Sym, 1, true);
            }
        }
        out.push((k, cs[i..i + n].iter().collect(), bad));
        i += n;
    }
    out
}

pub fn kind(k: TokenKind) -> K {
    match k {
        TokenKind::Punctuation => K::Punct,
        TokenKind::Operator => K::Op,
        TokenKind::Keyword => K::Kw,
        TokenKind::StringLiteral => K::Str,
        TokenKind::IntegerLiteral => K::Int,
        TokenKind::FloatLiteral => K::Float,
        TokenKind::BooleanLiteral => K::Bool,
        TokenKind::Symbol => K::Sym,
        TokenKind::Whitespace => K::Ws,
        TokenKind::Comment => K::Com,
    }
}

pub fn any_text(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 2, 2]) {
        0 => gen::soup(s, 40),
        1 => gen::long(s, 60),
        2 => {
            let t = gen::soup(s, 30);
            gen::mutate(s, &t)
        }
        _ => {
            // A string literal with escapes of every sort.
            let mut r = String::from("\"");
            for _ in 0..s.len(12) {
                match s.below(4) {
                    0 => r.push(gen::ch(s)),
                    1 => {
                        r.push('\\');
                        r.push(gen::ch(s));
                    }
                    2 => r.push_str(s.pick(&["\\n", "\\t", "\\\"", "\\\\", "\\b", "\\f", "\\r"])),
                    _ => {
                        r.push_str("\\u");
                        if s.chance(9, 10) {
                            r.push('{');
                        }
                        let digits = s.below(8);
                        for _ in 0..digits {
                            r.push(*s.pick(&['0', '1', '4', 'd', 'D', '8', 'f', 'F', 'a', 'g']));
                        }
                        if s.chance(9, 10) {
                            r.push('}');
                        }
                    }
                }
            }
            if s.chance(3, 4) {
                r.push('"');
            }
            r + &gen::soup(s, 4)
        }
    }
}

fn c01(s: &mut Src, cx: &mut Cx) -> R {
    let t = any_text(s);
    cx.go(format!("{:?}", t))?;
    let (tokens, diags) = tokenize(&t);
    let expect = reference_lex(&t);
    // Every character is in exactly one token, in order.
    let mut at = 0;
    for (i, tok) in tokens.iter().enumerate() {
        ensure!(tok.range.start() == at, "token {} starts at byte {} but the previous one ended at {} in {:?}", i, tok.range.start(), at, t);
        ensure!(tok.range.end() > at && tok.range.end() <= t.len() && t.is_char_boundary(tok.range.end()), "token {} has range {}..{} in {:?}", i, at, tok.range.end(), t);
        at = tok.range.end();
    }
    ensure!(at == t.len(), "the tokens cover only {} of {} bytes of {:?}", at, t.len(), t);
    ensure!(tokens.len() == diags.len(), "{} tokens but {} diagnostics for {:?}", tokens.len(), diags.len(), t);
    ensure!(tokens.len() == expect.len(), "{} tokens where the reference has {}: {:?} against {:?} for {:?}", tokens.len(), expect.len(), tokens, expect, t);
    let mut kinds = 0u32;
    for ((tok, d), (k, text, bad)) in tokens.iter().zip(&diags).zip(&expect) {
        let got = &t[tok.range.start()..tok.range.end()];
        ensure!(got == text && kind(tok.kind) == *k, "token {:?} {:?} where the reference has {:?} {:?} in {:?}", got, tok.kind, text, k, t);
        ensure!((*d != Diagnostic::Valid) == *bad, "token {:?} has diagnostic {:?} but the reference says {} in {:?}", got, d, if *bad { "invalid" } else { "valid" }, t);
        match d {
            Diagnostic::Valid => {}
            Diagnostic::InvalidNumber(r) | Diagnostic::IllegalChar(r) | Diagnostic::NotTokenized(r) => {
                ensure!(r.start() == tok.range.start() && r.end() == tok.range.end(), "the diagnostic of {:?} points elsewhere", got)
            }
            Diagnostic::InvalidStringEscapes(rs) => {
                let mut p = tok.range.start() + 1;
                ensure!(!rs.is_empty(), "no range for a bad escape");
                for r in rs.iter() {
                    ensure!(r.start() >= p && r.end() > r.start() && r.end() <= tok.range.end() && t.is_char_boundary(r.start()) && t.is_char_boundary(r.end()), "bad escape range {}..{} in {:?}", r.start(), r.end(), t);
                    p = r.end();
                }
            }
        }
        kinds |= 1 << (*k as u32);
        if *bad {
            cx.label(format!("diagnostic in {:?}", k));
        }
    }
    cx.nontrivial((tokens.len() >= 3 && kinds.count_ones() >= 2) || expect.iter().any(|e| e.2));
    Ok(())
}

// ---------------------------------------------------------------- parser totality

fn check_total(t: &str, cx: &mut Cx) -> R {
    let shown: String = if t.chars().count() > 200 { t.chars().take(200).collect::<String>() + "..." } else { t.to_string() };
    let r = sut::guarded_parse(t);
    match r {
        Err(p) => fail!("parsing {:?} gives a {}", shown, p),
        Ok(Ok(e)) => {
            cx.label("accepted");
            let d = match guarded(|| format!("{:?}", e)) {
                Ok(d) => d,
                Err(p) => fail!("printing the program {:?} gives a {}", shown, p),
            };
            cx.nontrivial(d.len() > 8);
        }
        Ok(Err(e)) => {
            cx.label("rejected");
            let err = Error::SyntaxError(t.into(), e);
            match guarded(|| format!("{}", err)) {
                Ok(m) => {
                    ensure!(m.contains("error"), "the report for {:?} does not say that there is an error: {:?}", shown, m);
                }
                Err(p) => fail!("reporting the syntax error in {:?} gives a {}", shown, p),
            }
            cx.nontrivial(true);
        }
    }
    Ok(())
}

fn c02(s: &mut Src, cx: &mut Cx) -> R {
    let t = any_text(s);
    cx.go(format!("{:?}", t))?;
    check_total(&t, cx)
}

fn c02_deep(s: &mut Src, cx: &mut Cx) -> R {
    let depth = 1 + s.below(if s.size > 80 { 3000 } else { 40 }) as usize;
    let mut t = String::new();
    let mut close: Vec<&str> = vec![];
    let kind = s.below(9);
    for _ in 0..depth {
        let k = if kind == 8 { s.below(8) } else { kind };
        let (o, c) = match k {
            0 => ("(", ")"),
            1 => ("[", "]"),
            2 => ("{ ", " }"),
            3 => ("'", ""),
            4 => ("x -> ", ""),
            5 => ("if x ", " else y"),
            6 => ("{ k = ", " }"),
            _ => ("let x = ", ""),
        };
        t.push_str(o);
        close.push(c);
    }
    t.push('1');
    let closed = s.chance(3, 4);
    if closed {
        for c in close.iter().rev() {
            t.push_str(c);
        }
    }
    cx.go(format!("kind {} depth {} closed {}", kind, depth, closed))?;
    check_total(&t, cx)
}

// ---------------------------------------------------------------- literals

fn single(t: &str) -> Result<dune::Expression, Fail> {
    match sut::guarded_parse(t) {
        Err(p) => fail!("parsing {:?} gives a {}", t, p),
        Ok(Err(e)) => fail!("{:?} is rejected: {:?}", t, e),
        Ok(Ok(dune::Expression::Do(mut v))) if v.len() == 1 => Ok(v.remove(0)),
        Ok(Ok(e)) => fail!("{:?} parses to {:?}", t, e),
    }
}

fn c05_str(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.len(60);
    let mut want = String::new();
    let mut lit = String::from("\"");
    let mut special = false;
    for _ in 0..n {
        let c = gen::ch(s);
        want.push(c);
        let style = s.below(4);
        let short = match c {
            '\n' => Some('n'),
            '\t' => Some('t'),
            '\r' => Some('r'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '"' => Some('"'),
            '\\' => Some('\\'),
            _ => None,
        };
        let must = c == '"' || c == '\\';
        special |= must || !c.is_ascii();
        if style == 3 && (c as u32) < 0x10_0000 {
            special = true;
            match s.below(3) {
                0 => lit.push_str(&format!("\\u{{{:x}}}", c as u32)),
                1 => lit.push_str(&format!("\\u{{{:X}}}", c as u32)),
                _ => lit.push_str(&format!("\\u{{{:05x}}}", c as u32)),
            }
        } else if let (Some(e), true) = (short, must || style >= 1) {
            special = true;
            lit.push('\\');
            lit.push(e);
        } else {
            lit.push(c);
        }
    }
    lit.push('"');
    cx.go(lit.clone())?;
    cx.nontrivial(special);
    let got = single(&lit)?;
    ensure!(got == dune::Expression::String(want.clone()), "the literal {:?} means {:?}, not {:?}", lit, got, want);
    // The literal keeps its meaning inside a program.
    let text = format!("[{}, {}]", lit, lit);
    let got = single(&text)?;
    let e = dune::Expression::String(want);
    ensure!(got == dune::Expression::List(vec![e.clone(), e]), "{:?} means {:?}", text, got);
    Ok(())
}

fn c05_num(s: &mut Src, cx: &mut Cx) -> R {
    use dune::Expression as E;
    match s.below(5) {
        0 | 1 => {
            let n = gen::int(s);
            let t = n.to_string();
            cx.go(t.clone())?;
            cx.nontrivial(t.len() > 1);
            let got = single(&t)?;
            ensure!(got == E::Integer(n), "the literal {} means {:?}", t, got);
        }
        2 => {
            // Integers that do not fit are refused, not changed.
            let n = i64::MAX as i128 + 1 + s.below(1 << 60) as i128 * s.range(0, 8) as i128;
            let t = if s.bool() { format!("{}", n) } else { format!("-{}", n + 1) };
            cx.go(t.clone())?;
            cx.nontrivial(true);
            match sut::guarded_parse(&t) {
                Err(p) => fail!("parsing {:?} gives a {}", t, p),
                Ok(Ok(e)) => fail!("the literal {} does not fit 64 bits but means {:?}", t, e),
                Ok(Err(_)) => {}
            }
        }
        3 => {
            let digits = |s: &mut Src, max: u64| -> String { (0..1 + s.below(max)).map(|_| (b'0' + s.below(10) as u8) as char).collect() };
            let a = if s.bool() { "0".to_string() } else { format!("{}{}", 1 + s.below(9), digits(s, 18)) };
            let b = digits(s, 20);
            let t = format!("{}{}.{}", if s.bool() { "-" } else { "" }, a, b);
            cx.go(t.clone())?;
            cx.nontrivial(true);
            let want: f64 = t.parse().unwrap();
            match single(&t)? {
                E::Float(f) if f.to_bits() == want.to_bits() => {}
                got => fail!("the literal {} means {:?}", t, got),
            }
        }
        _ => {
            let f = gen::float(s);
            let t = gen::float_lit(f);
            cx.go(t.clone())?;
            cx.nontrivial(true);
            match single(&t)? {
                E::Float(g) if g.to_bits() == f.to_bits() => {}
                got => fail!("the literal {} means {:?}", t, got),
            }
        }
    }
    for (t, e) in [("True", E::Boolean(true)), ("False", E::Boolean(false)), ("None", E::None), ("()", E::None)] {
        let got = single(t)?;
        ensure!(got == e, "{} means {:?}", t, got);
    }
    Ok(())
}

// ---------------------------------------------------------------- error reports

fn strip_color(t: &str) -> String {
    let mut r = String::new();
    let mut cs = t.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '\u{1b}' && cs.peek() == Some(&'[') {
            cs.next();
            while let Some(d) = cs.next() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            r.push(c);
        }
    }
    r
}

fn c06(s: &mut Src, cx: &mut Cx) -> R {
    let valid = |s: &mut Src| -> String {
        match s.below(8) {
            0 => String::new(),
            1 => "# comment é \"x".to_string(),
            2 => format!("let {} = {};", gen::name(s), s.range(0, 99)),
            3 => "print \"日本 🏖\";".to_string(),
            4 => "let x = \"a\nb é\n\";".to_string(),
            5 => "for i in 0 to 3 { print i }".to_string(),
            6 => "let f = x -> {\n    x + 1\n};".to_string(),
            _ => format!("   [1, 2,\n\t3] | len {};", gen::name(s)),
        }
    };
    let nl = *s.pick(&["\n", "\n", "\r\n"]);
    let mut t = String::new();
    for _ in 0..s.len(12) {
        t.push_str(&valid(s));
        t.push_str(nl);
    }
    if let Some(n) = s.big() {
        // A long program: numbers of lines with more digits.
        let line = *s.pick(&["let x = 5;", "# é", "", "print \"日\";"]);
        for _ in 0..n.saturating_sub(s.idx(3)) {
            t.push_str(line);
            t.push_str(nl);
        }
    }
    let far = s.big().map(|n| format!("print \"{}\"; ", s.pick(&["x", "é", "日", " "]).repeat(n)));
    let lead = *s.pick(&["", "", " ", "    ", "\t", "let y = 1; ", "# no\n", "z 日", "print \"é\"; "]);
    let lead = if lead.ends_with('日') { "print \"日\"; " } else { lead };
    // (text before the error on its line, the error, text after it)
    let long: String;
    let (pre, bad, post) = match s.below(14) {
        0 => ("let q = ", *s.pick(&["é", "日", "$é"]), ";"),
        1 => ("let q = ", "1.", ";"),
        2 => ("let q = \"ab", "\\q", "cd\";"),
        3 => ("let q = \"ab", "\\é", "cd\";"),
        4 => ("for ", "5", " in 0 to 3 { x }"),
        5 => ("let ", "5", " = 3;"),
        6 => ("let x ", "3", ";"),
        7 => ("for x ", "3", ";"),
        // What is wrong may take several lines.
        8 | 9 => {
            let mut b = String::from("\"");
            for i in 0..1 + s.len(6) {
                if i > 0 {
                    b.push_str(nl);
                }
                b.push_str(*s.pick(&["", "", " ", "ab", "x = 日", "  end é", "12 | 3", "\t# no"]));
            }
            b.push('"');
            long = b;
            if s.bool() { ("let ", &long[..], " = 3;") } else { ("for ", &long[..], " in [1] { x }") }
        }
        // An error at the very beginning of a line.
        10 => ("", *s.pick(&["é", "日", "1.", "-0.", "5abc", "0. ["]), " + 1;"),
        11 => ("let q =\n", *s.pick(&["é", "7.", "5abc"]), ";"),
        12 => ("let q = \"ab\n", "\\q", "cd\";"),
        _ => ("let q = ", "5abc", ";"),
    };
    let bad = bad.trim_end_matches(" [");
    let (pre, bad) = if bad == "$é" { ("let q = $", "é") } else { (pre, bad) };
    t.push_str(far.as_deref().unwrap_or(lead));
    t.push_str(pre);
    let start = t.len();
    t.push_str(bad);
    t.push_str(post);
    for _ in 0..s.len(4) {
        t.push_str(nl);
        t.push_str(&valid(s));
    }
    cx.go(t.clone())?;
    let line_no = t[..start].matches('\n').count() + 1;
    let line_start = t[..start].rfind('\n').map_or(0, |i| i + 1);
    cx.nontrivial(line_no > 1);
    let report = match sut::guarded_parse(&t) {
        Err(p) => fail!("a {}", p),
        Ok(Ok(e)) => fail!("the program is accepted as {:?}", e),
        Ok(Err(e)) => match guarded(|| format!("{}", Error::SyntaxError(t.as_str().into(), e))) {
            Ok(m) => m,
            Err(p) => fail!("the report gives a {}", p),
        },
    };
    let plain = strip_color(&report);
    ensure!(plain.contains("error"), "the report does not say error: {:?}", plain);
    // Every line of what is wrong is shown, with its number; the marked part of each is what is wrong.
    let count = bad.matches('\n').count() + 1;
    cx.label(if count > 1 { "several lines" } else { "one line" });
    let number = |l: &str| l.split_once(" |").map_or(false, |(n, _)| n.trim().parse::<usize>().is_ok());
    let found: Vec<&str> = report.split('\n').filter(|l| number(&strip_color(l))).collect();
    ensure!(found.len() == count, "the report shows {:?} but the error is on {} lines", plain, count);
    let end = start + bad.len();
    let (first, last) = (&t[line_start..start], t[end..].split(['\n', '\r']).next().unwrap_or(""));
    for (i, (l, part)) in found.iter().zip(bad.lines().chain(bad.is_empty().then_some(""))).enumerate() {
        let before = if i == 0 { first } else { "" };
        let after = if i + 1 == count { last } else { "" };
        let (n, l) = l.split_once(" | ").unwrap_or((l, ""));
        ensure!(n.trim() == (line_no + i).to_string(), "the report gives {:?} the number {} instead of {}: {:?}", part, n.trim(), line_no + i, report);
        let bits = l.split_once("\u{1b}[38;5;9m").and_then(|(b, x)| x.split_once("\u{1b}[m\u{1b}[0m").map(|(m, a)| (b, m, a)));
        let Some((b, m, a)) = bits else { fail!("the report does not mark {:?} in {:?}", part, l) };
        let a = a.strip_suffix("\u{1b}[m\u{1b}[0m").unwrap_or(a);
        let chars = |t: &str| t.chars().count();
        if chars(before) + chars(part) + chars(after) <= 72 {
            ensure!(m == part, "the report marks {:?} instead of {:?}: {:?}", m, part, l);
            ensure!(b == before && a.trim_end() == after.trim_end(), "the report shows {:?} instead of the line {:?}", strip_color(l), format!("{}{}{}", before, part, after));
        } else {
            // Long lines may be cut, but what is shown is theirs.
            cx.label("a long line");
            let b = b.trim_matches(['.', '…']);
            ensure!(before.contains(b), "the report shows {:?} before the error instead of {:?}", b, before);
            ensure!(if chars(part) <= 60 { m == part } else { chars(m) >= 40 && part.starts_with(m.trim_end_matches(['.', '…'])) }, "the report marks {:?} instead of {:?}: {:?}", m, part, l);
            ensure!(after.contains(a.trim_end_matches(['.', '…', ' '])), "the report shows {:?} after the error instead of {:?}", a, after);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- line editor

fn c07(s: &mut Src, cx: &mut Cx) -> R {
    let t: String = any_text(s).chars().filter(|c| *c != '\u{1b}').collect();
    cx.go(format!("{:?}", t))?;
    let h = match guarded(|| dunebin::verif_hooks::highlight(&t)) {
        Ok(h) => h,
        Err(p) => fail!("highlighting {:?} gives a {}", t, p),
    };
    ensure!(strip_color(&h) == t, "highlighting {:?} shows {:?}", t, strip_color(&h));
    if h != t {
        cx.nontrivial(true);
        // Colour does not leak into what follows the line.
        let tail = h.rfind("\u{1b}[").map(|i| &h[i..]).unwrap_or("");
        ensure!(tail.starts_with("\u{1b}[m") || tail.starts_with("\u{1b}[0m"), "colour is left on after {:?}: {:?}", t, h);
    }
    let st = match guarded(|| dunebin::verif_hooks::strip(&h)) {
        Ok(x) => x,
        Err(p) => fail!("stripping {:?} gives a {}", h, p),
    };
    ensure!(st == t, "the visible part of {:?} is taken to be {:?}", h, st);
    Ok(())
}

fn c07_hint(s: &mut Src, cx: &mut Cx) -> R {
    const CMDS: &[&str] = &["exit 0", "ls ", "rm -ri ", "cp -r ", "head ", "tail ", "cd ", "clear"];
    let t = match s.below(4) {
        0 => {
            let c = *s.pick(CMDS);
            let n = s.idx(c.len() + 1);
            c[..n].to_string()
        }
        1 => {
            let c = *s.pick(CMDS);
            let i = s.idx(c.len());
            let n = i + s.idx(c.len() - i + 1);
            c[i..n].to_string()
        }
        2 => gen::text(s, 8),
        _ => gen::soup(s, 5),
    };
    cx.go(format!("{:?}", t))?;
    let h = match guarded(|| dunebin::verif_hooks::hint(&t)) {
        Ok(h) => h,
        Err(p) => fail!("the hint for {:?} gives a {}", t, p),
    };
    let known = !t.trim().is_empty() && CMDS.iter().any(|c| c.starts_with(&t));
    cx.nontrivial(known);
    match h {
        Some(h) => ensure!(known && CMDS.contains(&format!("{}{}", t, h).as_str()), "after {:?} the hint is {:?}, which does not make a known command", t, h),
        None => ensure!(!known, "no hint for {:?}", t),
    }
    Ok(())
}
