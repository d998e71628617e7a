//! The data libraries: list, dict, string, fn, math and rand.

use crate::engine::*;
use crate::sut::{self, Out};
use crate::val::{self, Prog};
use crate::{ensure, fail, gen};
use dune::Expression as E;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "Calls of every function of the list library, direct and partially applied, with literals, variables and nested data, in an environment that holds other variables. Non-trivial: the list has at least two elements.",
            subs: &[
                Sub { name: "call", quick: 250_000, thorough: 4_000_000, f: c17 },
                Sub { name: "laws", quick: 60_000, thorough: 1_000_000, f: c17_laws },
            ],
            cpu_limit: Some(60),
            assumptions: &["Lengths and counts are not negative; ranges are short."],
        },
        Prop {
            id: "C18",
            rule: "Calls of every function of the dict library. Non-trivial: a map has at least two keys.",
            subs: &[Sub { name: "call", quick: 250_000, thorough: 4_000_000, f: c18 }],
            cpu_limit: Some(60),
            assumptions: &[],
        },
        Prop {
            id: "C19",
            rule: "Calls of every function of the string library on any text, with separators and substrings that often occur in it. Non-trivial: the text has at least two characters.",
            subs: &[
                Sub { name: "call", quick: 300_000, thorough: 5_000_000, f: c19 },
                Sub { name: "laws", quick: 60_000, thorough: 1_000_000, f: c19_laws },
            ],
            cpu_limit: Some(60),
            assumptions: &["Character classes and case mappings are those of Rust's standard library; to-title is given characters whose mapping is one character."],
        },
        Prop {
            id: "C20",
            rule: "fn@map, fn@filter, fn@reduce, list@foldl, list@foldr and loops with the same function, in every calling form, against a direct computation. Non-trivial: the list has at least two elements.",
            subs: &[Sub { name: "higher", quick: 150_000, thorough: 2_500_000, f: c20 }],
            cpu_limit: Some(60),
            assumptions: &[],
        },
        Prop {
            id: "C21",
            rule: "Calls of every function of the math library, with integers at the edges of the range and floats of every magnitude. Non-trivial: the model says the result is a number.",
            subs: &[Sub { name: "call", quick: 300_000, thorough: 5_000_000, f: c21 }],
            cpu_limit: Some(60),
            assumptions: &["Real functions are compared with Rust's standard library to a relative error of 1e-9."],
        },
        Prop {
            id: "C34",
            rule: "Repeated draws from rand@int, rand@choose and rand@shuffle over ranges and lists of every size: every outcome of a few, every place of every element of up to 24, every sixteenth of a range or a list and every last digit. Non-trivial: at least two outcomes are possible.",
            subs: &[
                Sub { name: "draw", quick: 30_000, thorough: 500_000, f: c34 },
                Sub { name: "coverage", quick: 300, thorough: 4_000, f: c34_cover },
            ],
            cpu_limit: Some(60),
            assumptions: &["An outcome that is missing in 60 n (ln n + 1) draws out of n cannot occur (the chance of a false alarm is below 1e-24), and neither can a place of an element that is missing in 5 n ln n + 30 n shuffles or a sixteenth that is missing in 700 draws (below 1e-10 for all cases together)."],
        },
    ]
}

pub enum Want {
    V(E),
    Fails,
    /// An error or None.
    Refused,
    Near(f64),
}
use Want::*;

pub fn int(i: i64) -> E {
    E::Integer(i)
}
pub fn st(s: impl ToString) -> E {
    E::String(s.to_string())
}
pub fn list(v: Vec<E>) -> E {
    E::List(v)
}

/// Variables that a correct library never looks at.
pub fn noise(s: &mut Src, p: &mut Prog) {
    if s.chance(1, 3) {
        for n in ["arg0", "arg1", "arg2", "x", "y", "f", "g", "lst", "item", "acc", "result", "xs", "n", "i"] {
            if s.bool() {
                let v = s.pick(&[E::Integer(77), st("noise"), list(vec![int(8), int(9)]), E::None]).clone();
                p.vars.push((n.into(), v));
            }
        }
    }
}

/// A call in one of several forms; `curried` functions may also be applied step by step.
pub fn form(s: &mut Src, f: &str, args: &[E], curried: bool) -> Prog {
    let mut p = Prog::new();
    let mut a: Vec<String> = args.iter().map(|e| p.arg(s, e)).collect();
    // A string that is passed bare is passed as it is, an expression in brackets too.
    for x in a.iter_mut() {
        if s.chance(1, 10) {
            *x = format!("(fn@id {})", x);
        }
    }
    p.text = match s.below(if curried && a.len() == 2 { 5 } else { 3 }) {
        0 => format!("{} {}", f, a.join(" ")),
        1 => format!("let ff = {}; ff {}", f, a.join(" ")),
        2 => format!("({} {})", f, a.join(" ")),
        3 => format!("({} {}) {}", f, a[0], a[1]),
        _ => format!("let pp = {} {}; pp {}", f, a[0], a[1]),
    };
    noise(s, &mut p);
    p
}

pub fn judge(p: &Prog, out: &Out, want: &Want) -> R {
    match (out, want) {
        (Out::Val(v), V(w)) if val::same(v, w) => Ok(()),
        (Out::Err(_), Fails | Refused) => Ok(()),
        (Out::Val(E::None), Refused) => Ok(()),
        (Out::Val(v), Near(w)) => {
            let f = match v {
                E::Float(f) => *f,
                E::Integer(i) => *i as f64,
                _ => fail!("{} gives {:?} instead of {}", p.show(), v, w),
            };
            let ok = (f.is_nan() && w.is_nan()) || f == *w || (f - w).abs() <= 1e-9 * w.abs().max(1e-9);
            ensure!(ok, "{} gives {:?} instead of {}", p.show(), v, w);
            Ok(())
        }
        (o, V(w)) => fail!("{} gives {} instead of {:?}", p.show(), o.show(), w),
        (o, Near(w)) => fail!("{} gives {} instead of {}", p.show(), o.show(), w),
        (o, Fails) => fail!("{} gives {} instead of an error", p.show(), o.show()),
        (o, Refused) => fail!("{} gives {} instead of an error or None", p.show(), o.show()),
    }
}

pub fn go(s: &mut Src, cx: &mut Cx, f: &str, args: Vec<E>, want: Want, curried: bool) -> R {
    let p = form(s, f, &args, curried);
    cx.label(f.to_string());
    cx.go(p.show())?;
    judge(&p, &p.run(), &want)
}

// ---------------------------------------------------------------- list

fn nonlist(s: &mut Src) -> E {
    loop {
        let v = val::value_b(s, 1);
        if !matches!(v, E::List(_)) {
            return v;
        }
    }
}

fn c17(s: &mut Src, cx: &mut Cx) -> R {
    let l = if s.bool() { val::ints(s, 12) } else { val::list(s, 2, 12) };
    let n = l.len() as i64;
    let k = if s.chance(1, 12) { s.range(0, i64::MAX) } else { s.range(0, n + 2) };
    let at = |k: i64| (k.min(n)) as usize;
    let x = val::value(s, 1);
    cx.nontrivial(l.len() >= 2);
    let wrong = s.chance(1, 12);
    let some = nonlist(s);
    let (f, args, want, curried): (&str, Vec<E>, Want, bool) = match s.below(19) {
        0 => {
            let v = val::list(s, 1, 6);
            if v.is_empty() {
                return discard();
            }
            ("list@list", v.clone(), V(list(v)), false)
        }
        1 if wrong => ("list@tail", vec![some], Fails, false),
        1 => ("list@tail", vec![list(l.clone())], V(list(l.iter().skip(1).cloned().collect())), false),
        2 if wrong => ("list@head", vec![some], Fails, false),
        2 => ("list@head", vec![list(l.clone())], V(l.first().cloned().unwrap_or(E::None)), false),
        3 => {
            let k = 1 + k % 1_000_000;
            if wrong {
                ("list@chunk", vec![int(k), some], Fails, false)
            } else {
                ("list@chunk", vec![int(k), list(l.clone())], V(list(l.chunks(k as usize).map(|c| list(c.to_vec())).collect())), false)
            }
        }
        4 if wrong => ("list@cons", vec![x, some], Fails, false),
        4 => ("list@cons", vec![x.clone(), list(l.clone())], V(list([vec![x], l].concat())), false),
        5 if wrong => ("list@append", vec![some, x], Fails, false),
        5 => ("list@append", vec![list(l.clone()), x.clone()], V(list([l, vec![x]].concat())), false),
        6 => match s.below(4) {
            0 => ("list@len", vec![list(l.clone())], V(int(n)), false),
            1 => {
                let m = val::map(s, 1, 5);
                ("list@len", vec![E::Map(m.clone())], V(int(m.len() as i64)), false)
            }
            2 => ("len", vec![list(l.clone())], V(int(n)), false),
            _ => ("list@len", vec![int(k)], Fails, false),
        },
        7 => match s.below(4) {
            0 | 1 => ("list@rev", vec![list(l.clone())], V(list(l.iter().rev().cloned().collect())), false),
            2 => {
                let b: Vec<u8> = (0..s.below(8)).map(|_| s.below(256) as u8).collect();
                ("list@rev", vec![E::Bytes(b.clone())], V(E::Bytes(b.into_iter().rev().collect())), false)
            }
            _ => ("list@rev", vec![int(k)], Fails, false),
        },
        8 => {
            let a = if s.chance(1, 10) { *s.pick(&[i64::MAX - 3, i64::MIN, i64::MAX]) } else { s.range(-20, 20) };
            let b = a.saturating_add(s.range(-5, 30));
            if s.bool() {
                ("list@range", vec![int(a), int(b)], V(list((a..=b).map(int).collect())), false)
            } else {
                ("to", vec![int(a), int(b)], V(list((a..b).map(int).collect())), false)
            }
        }
        9 => {
            let acc = int(s.range(-9, 9));
            let l = val::ints(s, 8);
            let (f, m) = bin(s, &l);
            let want = l.iter().fold(Some(acc.clone()), |a, x| m(&a?, x));
            return fold(s, cx, "list@foldl", f, acc, l, want);
        }
        10 => {
            let acc = int(s.range(-9, 9));
            let l = val::ints(s, 8);
            let (f, m) = bin(s, &l);
            let want = l.iter().rev().fold(Some(acc.clone()), |a, x| m(x, &a?));
            return fold(s, cx, "list@foldr", f, acc, l, want);
        }
        11 => {
            let m = val::list(s, 1, 12);
            if wrong {
                ("list@zip", vec![list(l), some], Fails, false)
            } else {
                let z = l.iter().zip(&m).map(|(a, b)| list(vec![a.clone(), b.clone()])).collect();
                ("list@zip", vec![list(l), list(m)], V(list(z)), false)
            }
        }
        12 => {
            let mut pairs: Vec<E> = l.iter().map(|a| list(vec![a.clone(), val::value(s, 0)])).collect();
            let first = pairs.iter().map(|p| if let E::List(v) = p { v[0].clone() } else { E::None }).collect();
            let second = pairs.iter().map(|p| if let E::List(v) = p { v[1].clone() } else { E::None }).collect();
            if wrong && !pairs.is_empty() {
                let i = s.idx(pairs.len());
                pairs[i] = s.pick(&[list(vec![int(1)]), list(vec![]), list(vec![int(1), int(2), int(3)]), int(1), st("ab")]).clone();
                ("list@unzip", vec![list(pairs)], Fails, false)
            } else {
                ("list@unzip", vec![list(pairs)], V(list(vec![list(first), list(second)])), false)
            }
        }
        13 | 14 if wrong => (*s.pick(&["list@take", "list@drop"]), vec![int(k), some], Fails, true),
        13 => ("list@take", vec![int(k), list(l.clone())], V(list(l[..at(k)].to_vec())), true),
        14 => ("list@drop", vec![int(k), list(l.clone())], V(list(l[at(k)..].to_vec())), true),
        15 if wrong => ("list@split-at", vec![int(k), some], Fails, false),
        15 => ("list@split-at", vec![int(k), list(l.clone())], V(list(vec![list(l[..at(k)].to_vec()), list(l[at(k)..].to_vec())])), false),
        16 | 17 => {
            let k = if s.chance(1, 8) { gen::int(s) } else { s.range(-n - 2, n + 1) };
            let i = if k < 0 { k as i128 + n as i128 } else { k as i128 };
            let want = if i >= 0 && i < n as i128 { V(l[i as usize].clone()) } else { Fails };
            if wrong {
                ("list@nth", vec![int(k), some], Fails, false)
            } else {
                ("list@nth", vec![int(k), list(l)], want, false)
            }
        }
        _ => {
            // An index that is not a number.
            let f = *s.pick(&["list@take", "list@drop", "list@split-at", "list@nth", "list@chunk"]);
            let v = match val::value(s, 1) {
                E::Integer(_) => st("1"),
                v => v,
            };
            (f, vec![v, list(l)], Fails, false)
        }
    };
    go(s, cx, f, args, want, curried)
}

type Bin = (&'static str, fn(&E, &E) -> Option<E>);
fn i2(a: &E, b: &E, f: fn(i64, i64) -> i64) -> Option<E> {
    match (a, b) {
        (E::Integer(a), E::Integer(b)) => Some(E::Integer(f(*a, *b))),
        _ => None,
    }
}
/// A function to fold such a list with; nesting is only for short ones.
fn bin(s: &mut Src, l: &[E]) -> Bin {
    let b = *s.pick(BIN);
    if l.len() > 20 && b.0.contains("[a, b]") {
        return BIN[0];
    }
    b
}
const BIN: &[Bin] = &[
    ("(a -> b -> a - b)", |a, b| i2(a, b, |a, b| a - b)),
    ("(a -> b -> a + b)", |a, b| i2(a, b, |a, b| a + b)),
    ("(a -> b -> [a, b])", |a, b| Some(E::List(vec![a.clone(), b.clone()]))),
    ("(a -> b -> b)", |_, b| Some(b.clone())),
    ("(p -> q -> { let x = p; x })", |a, _| Some(a.clone())),
    ("ops@\"-\"", |a, b| i2(a, b, |a, b| a - b)),
    ("math@max", |a, b| i2(a, b, |a, b| a.max(b))),
    ("(a -> b -> None)", |_, _| Some(E::None)),
    ("(a -> b -> if (a == None || b == None) { 5 } else { None })", |a, b| Some(if *a == E::None || *b == E::None { E::Integer(5) } else { E::None })),
    ("(fn@flip (a -> b -> a - b))", |a, b| i2(a, b, |a, b| b - a)),
];

fn fold(s: &mut Src, cx: &mut Cx, name: &str, f: &str, acc: E, l: Vec<E>, want: Option<E>) -> R {
    let mut p = Prog::new();
    let a = p.arg(s, &acc);
    let b = p.arg(s, &list(l));
    p.text = if s.bool() { format!("{} {} {} {}", name, f, a, b) } else { format!("let ff = {}; {} ff {} {}", f, name, a, b) };
    noise(s, &mut p);
    cx.label(name.to_string());
    cx.go(p.show())?;
    judge(&p, &p.run(), &want.map_or(Fails, V))
}

/// Identities between functions, on the real ones only.
fn c17_laws(s: &mut Src, cx: &mut Cx) -> R {
    let l = val::list(s, 2, 10);
    let m = val::list(s, 1, 10);
    let k = s.range(0, l.len() as i64 + 2);
    let mut env = sut::fresh_env();
    env.define("l", list(l.clone()));
    env.define("m", list(m.clone()));
    env.define("k", int(k));
    cx.nontrivial(l.len() >= 2);
    cx.go(format!("l = {:?}, m = {:?}, k = {}", l, m, k))?;
    for (law, need) in [
        ("(list@take k l) + (list@drop k l) == l", true),
        ("list@split-at k l == [list@take k l, list@drop k l]", true),
        ("list@rev (list@rev l) == l", true),
        ("list@rev (l + m) == (list@rev m) + (list@rev l)", true),
        ("list@cons (list@head l) (list@tail l) == l", !l.is_empty()),
        ("list@foldl (a -> b -> list@append a b) [] l == l", true),
        ("list@foldr (a -> b -> list@cons a b) [] l == l", true),
        ("list@foldl (a -> b -> a + b) [] (list@chunk (k + 1) l) == l", true),
        ("list@unzip (list@zip l m) == [list@take (len m) l, list@take (len l) m]", true),
        ("len (l + m) == (len l) + (len m)", true),
        ("list@nth k l == (l@(k))", k < l.len() as i64),
        ("list@nth (0 - 1) l == list@head (list@rev l)", !l.is_empty()),
        ("fn@map (i -> list@nth i l) (0 to (len l)) == l", true),
    ] {
        // Floats that are not equal to themselves are not generated.
        if need {
            let o = sut::run_in(&mut env, &format!("[{}]", law.replacen(" == ", ", ", 1)));
            match &o {
                Out::Val(E::List(v)) if v.len() == 2 => ensure!(val::same(&v[0], &v[1]), "{} fails: {:?} and {:?}", law, v[0], v[1]),
                o => fail!("{} gives {}", law, o.show()),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- dict

fn flat(e: &E) -> Vec<E> {
    match e {
        E::List(l) => l.iter().flat_map(flat).collect(),
        E::Map(m) => m.values().flat_map(flat).collect(),
        e => vec![e.clone()],
    }
}

fn key_of(e: &E) -> Option<String> {
    Some(match e {
        E::String(s) => s.clone(),
        E::Integer(i) => i.to_string(),
        E::Boolean(b) => if *b { "True" } else { "False" }.to_string(),
        _ => return None,
    })
}

fn c18(s: &mut Src, cx: &mut Cx) -> R {
    let m = val::map(s, 1, 6);
    let m2 = {
        // Share some keys.
        let mut r = val::map(s, 1, 4);
        for k in m.keys() {
            if s.chance(1, 3) {
                r.insert(k.clone(), val::value(s, 0));
            }
        }
        r
    };
    let key = match s.below(8) {
        0..=2 if !m.is_empty() => st(m.keys().nth(s.idx(m.len())).unwrap()),
        3 => int(s.range(-3, 9)),
        4 => E::Boolean(s.bool()),
        _ => st(val::key(s)),
    };
    let k = key_of(&key).unwrap();
    let v = val::value(s, 1);
    let x = val::value_b(s, 2);
    cx.nontrivial(m.len() >= 2 || m2.len() >= 2);
    let mm = E::Map(m.clone());
    let other = loop {
        let v = val::value(s, 1);
        if !matches!(v, E::Map(_)) {
            break v;
        }
    };
    let (f, args, want): (&str, Vec<E>, Want) = match s.below(16) {
        0 => ("dict@flatten", vec![x.clone()], V(list(flat(&x)))),
        1 => ("dict@items", vec![mm], V(list(m.iter().map(|(k, v)| list(vec![st(k), v.clone()])).collect()))),
        2 => {
            let l = val::list(s, 1, 6);
            ("dict@items", vec![list(l.clone())], V(list(l.into_iter().enumerate().map(|(i, v)| list(vec![int(i as i64), v])).collect())))
        }
        3 => (*s.pick(&["dict@keys", "keys"]), vec![mm], V(list(m.keys().map(st).collect()))),
        4 => (*s.pick(&["dict@values", "vals"]), vec![mm], V(list(m.values().cloned().collect()))),
        5 => {
            let mut r = m.clone();
            r.insert(k, v.clone());
            ("dict@insert", vec![mm, key, v], V(E::Map(r)))
        }
        6 => {
            let mut r = m.clone();
            r.remove(&k);
            ("dict@remove", vec![mm, key], V(E::Map(r)))
        }
        7 => ("dict@has?", vec![mm, key], V(E::Boolean(m.contains_key(&k)))),
        8 => (*s.pick(&["dict@len", "len"]), vec![mm], V(int(m.len() as i64))),
        9 => {
            let t = gen::text(s, 8);
            let l = val::list(s, 0, 5);
            match s.below(2) {
                0 => ("dict@len", vec![st(&t)], V(int(t.len() as i64))),
                _ => ("dict@len", vec![list(l.clone())], V(int(l.len() as i64))),
            }
        }
        10 => {
            // Later pairs win, and what is no pair is left out.
            let mut r = BTreeMap::new();
            let mut items = vec![];
            for _ in 0..s.below(7) {
                if s.chance(1, 8) {
                    items.push(s.pick(&[int(1), list(vec![]), list(vec![st("a")]), list(vec![st("a"), int(1), int(2)])]).clone());
                } else {
                    let (k, v) = (val::key(s), val::value(s, 0));
                    items.push(list(vec![st(&k), v.clone()]));
                    r.insert(k, v);
                }
            }
            ("dict@from-items", vec![list(items)], V(E::Map(r)))
        }
        11 => {
            let mut r = m.clone();
            r.extend(m2.clone());
            ("dict@union", vec![mm, E::Map(m2)], V(E::Map(r)))
        }
        12 => {
            let r = m.clone().into_iter().filter(|(k, _)| m2.contains_key(k)).collect();
            ("dict@intersect", vec![mm, E::Map(m2)], V(E::Map(r)))
        }
        13 => {
            let r = m.clone().into_iter().filter(|(k, _)| !m2.contains_key(k)).collect();
            ("dict@difference", vec![mm, E::Map(m2)], V(E::Map(r)))
        }
        14 => match s.below(6) {
            0 => ("dict@keys", vec![other], Refused),
            1 => ("dict@values", vec![other], Refused),
            2 => ("dict@insert", vec![other, key, v], Refused),
            3 => ("dict@has?", vec![other, key], Refused),
            4 => ("dict@remove", vec![other, key], Refused),
            _ => (*s.pick(&["dict@union", "dict@intersect", "dict@difference"]), if s.bool() { vec![mm, other] } else { vec![other, mm] }, Refused),
        },
        _ => {
            // Round trip.
            let mut p = Prog::new();
            let a = p.var(&mm);
            p.text = format!("dict@from-items (dict@items {})", a);
            cx.label("round trip");
            cx.go(p.show())?;
            return judge(&p, &p.run(), &V(mm));
        }
    };
    go(s, cx, f, args, want, false)
}

// ---------------------------------------------------------------- string

fn subtext(s: &mut Src, t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    if c.is_empty() || s.chance(1, 4) {
        return gen::text(s, 3);
    }
    let i = s.idx(c.len());
    let j = (i + 1 + s.idx(3)).min(c.len());
    match s.below(4) {
        0 => c[..j].iter().collect(),
        1 => c[i..].iter().collect(),
        _ => c[i..j].iter().collect(),
    }
}

fn title(t: &str) -> String {
    let mut up = true;
    t.chars()
        .map(|c| {
            let r = if up { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
            up = c.is_whitespace();
            r
        })
        .collect()
}

fn words(s: &mut Src) -> String {
    let n = s.len(8);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(s.pick(&["a", "Bc", "é", "日本", "x1", "", "Ab cD", "ß"]));
        t.push_str(s.pick(&[" ", "  ", "\n", "\n\n", "\r\n", "\t", ",", ", ", "", "\n\n\n"]));
    }
    t
}

fn c19(s: &mut Src, cx: &mut Cx) -> R {
    let t = match s.below(3) {
        0 => words(s),
        1 => gen::long(s, 16),
        _ => gen::plain(s, 16),
    };
    cx.nontrivial(t.chars().count() >= 2);
    let sub = subtext(s, &t);
    let strs = |v: Vec<&str>| V(list(v.into_iter().map(st).collect()));
    let bad = match val::value_b(s, 1) {
        E::String(_) => int(5),
        v => v,
    };
    let (f, args, want, curried): (&str, Vec<E>, Want, bool) = match s.below(32) {
        0 => {
            let v = s.pick(&[int(-7), E::Boolean(true), E::Boolean(false), E::None, st(&t)]).clone();
            let w = match &v {
                E::Integer(i) => i.to_string(),
                E::Boolean(b) => if *b { "True" } else { "False" }.into(),
                E::None => "None".into(),
                E::String(t) => t.clone(),
                _ => unreachable!(),
            };
            (*s.pick(&["string@to-string", "str"]), vec![v], V(st(w)), false)
        }
        1 => {
            let k = gen::int(s);
            let shift = |c: char, base: u8| (((c as u8 - base) as i64 + k.rem_euclid(26)) % 26) as u8 + base;
            let w: String = t
                .chars()
                .map(|c| match c {
                    'a'..='z' => shift(c, b'a') as char,
                    'A'..='Z' => shift(c, b'A') as char,
                    c => c,
                })
                .collect();
            ("string@caesar", vec![st(&t), int(k)], V(st(w)), false)
        }
        2 => (*s.pick(&["string@len", "list@len", "dict@len"]), vec![st(&t)], V(int(t.len() as i64)), false),
        3 => ("len", vec![st(&t)], V(int(t.chars().count() as i64)), false),
        4 => ("string@get-width", vec![st(&t)], V(int(t.split('\n').map(|l| l.chars().count()).max().unwrap_or(0) as i64)), false),
        5 => {
            let u = if s.bool() { words(s).chars().filter(|c| c.is_whitespace()).collect() } else { t };
            ("string@is-whitespace?", vec![st(&u)], V(E::Boolean(u.chars().all(char::is_whitespace))), false)
        }
        6 => {
            let u: String = if s.bool() { t.chars().filter(|c| c.is_alphabetic()).collect() } else { t };
            ("string@is-alpha?", vec![st(&u)], V(E::Boolean(u.chars().all(char::is_alphabetic))), false)
        }
        7 => {
            let u: String = if s.bool() { t.chars().filter(|c| c.is_alphanumeric()).collect() } else { t };
            ("string@is-alphanumeric?", vec![st(&u)], V(E::Boolean(u.chars().all(char::is_alphanumeric))), false)
        }
        8 => {
            let u: String = if s.bool() { t.chars().filter(|c| c.is_numeric()).collect() } else { t };
            ("string@is-numeric?", vec![st(&u)], V(E::Boolean(u.chars().all(char::is_numeric))), false)
        }
        9 | 10 => ("string@split", vec![st(&sub), st(&t)], strs(t.split(&sub).collect()), true),
        11 => ("string@to-lower", vec![st(&t)], V(st(t.to_lowercase())), false),
        12 => ("string@to-upper", vec![st(&t)], V(st(t.to_uppercase())), false),
        13 | 14 => {
            if t.chars().any(|c| c.to_lowercase().count() != 1 || c.to_uppercase().count() != 1) {
                return discard();
            }
            let w = title(&t);
            if s.bool() {
                ("string@to-title", vec![st(&t)], V(st(w)), false)
            } else {
                let u = if s.bool() { w } else { t };
                ("string@is-title", vec![st(&u)], V(E::Boolean(u == title(&u))), false)
            }
        }
        15 => {
            let u = if s.bool() { t.to_lowercase().chars().filter(|c| c.is_alphabetic()).collect() } else { t };
            ("string@is-lower", vec![st(&u)], V(E::Boolean(u.chars().all(char::is_lowercase))), false)
        }
        16 => {
            let u = if s.bool() { t.to_uppercase().chars().filter(|c| c.is_alphabetic()).collect() } else { t };
            ("string@is-upper", vec![st(&u)], V(E::Boolean(u.chars().all(char::is_uppercase))), false)
        }
        17 => (*s.pick(&["string@rev", "list@rev"]), vec![st(&t)], V(st(t.chars().rev().collect::<String>())), false),
        18 => {
            let l: Vec<E> = (0..s.below(6)).map(|_| if s.chance(1, 4) { int(s.range(-9, 99)) } else { st(gen::text(s, 4)) }).collect();
            let w: Vec<String> = l.iter().map(|e| key_of(e).unwrap()).collect();
            ("string@join", vec![list(l), st(&sub)], V(st(w.join(&sub))), false)
        }
        19 => (*s.pick(&["string@lines", "lines"]), vec![st(&t)], strs(t.lines().collect()), false),
        20 => ("string@chars", vec![st(&t)], V(list(t.chars().map(st).collect())), false),
        21 => ("string@words", vec![st(&t)], strs(t.split_whitespace().collect()), false),
        22 => ("string@paragraphs", vec![st(&t)], strs(t.split("\n\n").collect()), false),
        23 | 24 => {
            let i = if s.chance(1, 8) { gen::int(s) } else { s.range(0, t.len() as i64 + 1) };
            let w = match usize::try_from(i) {
                Ok(i) if t.is_char_boundary(i) => strs(vec![&t[..i], &t[i..]]),
                _ => Fails,
            };
            ("string@split-at", vec![st(&t), int(i)], w, false)
        }
        25 => ("string@trim", vec![st(&t)], V(st(t.trim())), false),
        26 => ("string@trim-start", vec![st(&t)], V(st(t.trim_start())), false),
        27 => ("string@trim-end", vec![st(&t)], V(st(t.trim_end())), false),
        28 => {
            let new = gen::text(s, 4);
            ("string@replace", vec![st(&t), st(&sub), st(&new)], V(st(t.replace(&sub, &new))), false)
        }
        29 => match s.below(3) {
            0 => ("string@starts-with?", vec![st(&t), st(&sub)], V(E::Boolean(t.starts_with(&sub))), false),
            1 => ("string@ends-with?", vec![st(&t), st(&sub)], V(E::Boolean(t.ends_with(&sub))), false),
            _ => ("string@contains?", vec![st(&t), st(&sub)], V(E::Boolean(t.contains(&sub))), false),
        },
        30 => {
            // Digits to a number.
            let u = match s.below(3) {
                0 => gen::int(s).to_string(),
                1 => format!("{}{}", gen::int(s), s.pick(&["0", "x", " ", ".0", "99999999999"])),
                _ => t,
            };
            ("int", vec![st(&u)], u.parse::<i64>().map_or(Fails, |i| V(int(i))), false)
        }
        _ => {
            let f = *s.pick(&["string@chars", "string@to-lower", "string@to-upper", "string@trim", "string@is-alpha?", "string@words", "string@lines", "string@paragraphs", "string@to-title"]);
            (f, vec![bad], Refused, false)
        }
    };
    go(s, cx, f, args, want, curried)
}

fn c19_laws(s: &mut Src, cx: &mut Cx) -> R {
    let t = if s.bool() { words(s) } else { gen::long(s, 14) };
    let u = gen::text(s, 6);
    let sep = subtext(s, &t);
    let cuts: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    let k = *s.pick(&cuts);
    let r = s.range(-100, 100);
    let mut env = sut::fresh_env();
    for (n, v) in [("t", st(&t)), ("u", st(&u)), ("sep", st(&sep)), ("k", int(k as i64)), ("r", int(r))] {
        env.define(n, v);
    }
    cx.nontrivial(t.chars().count() >= 2);
    cx.go(format!("t = {:?}, u = {:?}, sep = {:?}, k = {}, r = {}", t, u, sep, k, r))?;
    for (law, need) in [
        ("string@join (string@split sep t) sep == t", true),
        ("string@join (string@chars t) \"\" == t", true),
        ("string@rev (string@rev t) == t", true),
        ("string@rev (t + u) == (string@rev u) + (string@rev t)", true),
        ("string@join (string@split-at t k) \"\" == t", true),
        ("insert ((string@split-at t k)@0) k ((string@split-at t k)@1) == t", true),
        ("string@caesar (string@caesar t r) (0 - r) == t", true),
        ("string@caesar (string@caesar t) == t", true),
        ("string@caesar t == string@caesar t 13", true),
        ("string@trim t == string@trim-start (string@trim-end t)", true),
        ("string@join (string@words t) \"\" == string@join (string@split \" \" (string@join (string@words t) \" \")) \"\"", true),
        ("string@replace t sep sep == t", true),
        ("string@starts-with? (u + t) u == True", true),
        ("string@ends-with? (t + u) u == True", true),
        ("string@contains? (t + u + t) u == True", true),
        ("len (t + u) == (len t) + (len u)", true),
        ("string@len (t + u) == (string@len t) + (string@len u)", true),
        ("string@join (string@paragraphs t) \"\n\n\" == t", true),
        ("int (str r) == r", true),
        ("string@to-lower (string@to-lower t) == string@to-lower t", true),
    ] {
        if need {
            let o = sut::run_in(&mut env, &format!("[{}]", law.replacen(" == ", ", ", 1)));
            match &o {
                Out::Val(E::List(v)) if v.len() == 2 => ensure!(val::same(&v[0], &v[1]), "{} fails: {:?} and {:?}", law, v[0], v[1]),
                o => fail!("{} gives {}", law, o.show()),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- higher order

fn c20(s: &mut Src, cx: &mut Cx) -> R {
    type Un = (&'static str, fn(&E) -> Option<E>);
    let unary: &[Un] = &[
        ("(q -> q + 1)", |e| super::ops::model("+", e, &int(1))),
        ("(q -> [q])", |e| Some(E::List(vec![e.clone()]))),
        ("(q -> [q, q == 2])", |e| Some(E::List(vec![e.clone(), E::Boolean(*e == E::Integer(2))]))),
        ("fn@id", |e| Some(e.clone())),
        ("(fn@const 3)", |_| Some(E::Integer(3))),
        ("((a -> b -> [a, b]) 9)", |e| Some(E::List(vec![E::Integer(9), e.clone()]))),
        ("(q -> { let t = q; let item = 5; let f = 6; [t] })", |e| Some(E::List(vec![e.clone()]))),
        ("(fn@compose (q -> [q]) (q -> [q]))", |e| Some(E::List(vec![E::List(vec![e.clone()])]))),
        ("ops@\"!\"", |e| Some(E::Boolean(!super::ops::truthy(e)))),
        ("len", |e| match e {
            E::List(l) => Some(E::Integer(l.len() as i64)),
            E::String(t) => Some(E::Integer(t.chars().count() as i64)),
            E::Map(m) => Some(E::Integer(m.len() as i64)),
            _ => Option::None,
        }),
        ("(ops@\"*\" 3)", |e| super::ops::model("*", e, &int(3))),
        ("(q -> if (q == 2) { True } else { False })", |e| Some(E::Boolean(*e == E::Integer(2)))),
        ("(q -> q)", |e| Some(e.clone())),
        ("(q ~> [q])", |e| Some(E::List(vec![e.clone()]))),
        ("(q -> None)", |_| Some(E::None)),
        ("(q -> if (q == 2) { None } else { q })", |e| Some(if *e == E::Integer(2) { E::None } else { e.clone() })),
    ];
    let kind = s.below(3);
    let ints = s.chance(2, 3);
    let l = if ints || kind == 2 { val::ints(s, 10) } else { val::list(s, 1, 10) };
    let mut p = Prog::new();
    let lt = p.arg(s, &list(l.clone()));
    cx.nontrivial(l.len() >= 2);
    let want: Option<E>;
    let pre;
    match kind {
        0 | 1 => {
            let (f, m) = *s.pick(unary);
            let r: Option<Vec<E>> = l.iter().map(m).collect();
            let named = s.bool();
            pre = if named { format!("let fun = {}; ", f) } else { String::new() };
            let f = if named { "fun" } else { f };
            // The function applied to nothing is not evaluated, whatever it is.
            if kind == 0 {
                want = r.map(list);
                p.text = match s.below(5) {
                    0 | 1 => format!("fn@map {} {}", f, lt),
                    2 => format!("(fn@map {}) {}", f, lt),
                    3 => format!("let mp = fn@map {}; mp {}", f, lt),
                    _ => format!("for it in {} {{ {} it }}", lt, f),
                };
            } else {
                want = r.map(|r| list(l.iter().zip(r).filter(|x| super::ops::truthy(&x.1)).map(|x| x.0.clone()).collect()));
                p.text = match s.below(3) {
                    0 => format!("fn@filter {} {}", f, lt),
                    1 => format!("(fn@filter {}) {}", f, lt),
                    _ => format!("let fl = fn@filter {}; fl {}", f, lt),
                };
            }
        }
        _ => {
            let (f, m) = bin(s, &l);
            let acc = int(s.range(-9, 9));
            let from_right = s.chance(1, 6);
            want = if from_right { l.iter().rev().fold(Some(acc.clone()), |a, x| m(x, &a?)) } else { l.iter().fold(Some(acc.clone()), |a, x| m(&a?, x)) };
            let named = s.bool();
            pre = if named { format!("let fun = {}; ", f) } else { String::new() };
            let f = if named { "fun" } else { f };
            let at = p.arg(s, &acc);
            p.text = match s.below(6) {
                _ if from_right => format!("list@foldr {} {} {}", f, at, lt),
                0 => format!("fn@reduce {} {} {}", f, at, lt),
                1 => format!("(fn@reduce {} {}) {}", f, at, lt),
                2 => format!("((fn@reduce {}) {}) {}", f, at, lt),
                3 => format!("let r1 = fn@reduce {}; let r2 = r1 {}; r2 {}", f, at, lt),
                4 => format!("list@foldl {} {} {}", f, at, lt),
                _ => format!("{{ let total = {}; for it in {} {{ let total = {} total it }}; total }}", at, lt, f),
            };
        }
    }
    p.text = format!("{}{}", pre, p.text);
    noise(s, &mut p);
    // A filter keeps its list in the variable that the function is applied to.
    cx.go(p.show())?;
    judge(&p, &p.run(), &want.map_or(Fails, V))
}

// ---------------------------------------------------------------- math

fn num(s: &mut Src) -> E {
    if s.bool() {
        int(gen::int(s))
    } else {
        E::Float(gen::float(s))
    }
}
fn f64_of(e: &E) -> f64 {
    match e {
        E::Integer(i) => *i as f64,
        E::Float(f) => *f,
        _ => unreachable!(),
    }
}

fn pow(b: i64, e: i64) -> Option<i64> {
    if e < 0 {
        return match b {
            1 => Some(1),
            -1 => Some(if e % 2 == 0 { 1 } else { -1 }),
            _ => None,
        };
    }
    let mut r: i128 = 1;
    if b == 0 {
        return Some((e == 0) as i64);
    }
    if b == 1 || b == -1 {
        return Some(if b == 1 || e % 2 == 0 { 1 } else { -1 });
    }
    for _ in 0..e {
        r *= b as i128;
        if r > i64::MAX as i128 || r < i64::MIN as i128 {
            // Once outside, it stays there.
            return None;
        }
    }
    Some(r as i64)
}

fn c21(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 60) {
        // The constants, and the factorial of a float, which is an approximation.
        let k = s.range(-9, 9);
        let (f, n) = (s.range(0, 170), *s.pick(&["PI", "E", "TAU"]));
        let (text, want, eps) = if s.bool() {
            let c = match n {
                "PI" => 3.141592653589793,
                "E" => 2.718281828459045,
                _ => 6.283185307179586,
            };
            (format!("math@{} * ({})", n, k), c * k as f64, 1e-15)
        } else {
            (format!("math@fact {}.0", f), (1..=f).map(|x| x as f64).product(), 1e-7)
        };
        cx.nontrivial(true);
        cx.go(text.clone())?;
        return match sut::run(&text) {
            Out::Val(E::Float(v)) if (v - want).abs() <= eps * want.abs() => Ok(()),
            o => fail!("{} gives {} instead of {}", text, o.show(), want),
        };
    }
    let i = gen::int(s);
    let sh = if s.chance(1, 5) { gen::int(s) } else { s.range(-1, 66) };
    let opt = |o: Option<i64>| o.map_or(Fails, |i| V(int(i)));
    let x = num(s);
    let fx = f64_of(&x);
    let (f, args, want, curried): (&str, Vec<E>, Want, bool) = match s.below(23) {
        0 => ("math@l-rsh", vec![int(i), int(sh)], if sh < 0 { Fails } else { V(int(if sh > 63 { 0 } else { ((i as u64) >> sh) as i64 })) }, true),
        1 => (*s.pick(&["math@a-rsh", "math@rsh"]), vec![int(i), int(sh)], if sh < 0 { Fails } else { V(int(i >> sh.min(63))) }, true),
        2 => ("math@lsh", vec![int(i), int(sh)], if sh < 0 { Fails } else { V(int(if sh > 63 { 0 } else { ((i as u64) << sh) as i64 })) }, false),
        3 | 4 => {
            let n = 1 + s.below(5);
            let v: Vec<i64> = (0..n).map(|_| if s.bool() { gen::int(s) } else { s.range(-50, 50) }).collect();
            let sum = s.bool();
            let mut t: i128 = if sum { 0 } else { 1 };
            let mut ok = true;
            for i in &v {
                t = if sum { t + *i as i128 } else { t * *i as i128 };
                // An intermediate result that does not fit is an error as well.
                if t > i64::MAX as i128 || t < i64::MIN as i128 {
                    ok = false;
                    break;
                }
            }
            let args: Vec<E> = v.iter().map(|i| int(*i)).collect();
            let args = if s.bool() { vec![list(args)] } else { args };
            if !ok {
                // Whether a later operand would bring it back is not looked at.
                let total: i128 = v.iter().map(|i| *i as i128).sum();
                if sum && i64::try_from(total).is_ok() || !sum && v.contains(&0) {
                    return discard();
                }
            }
            (if sum { "math@sum" } else { "math@product" }, args, if ok { V(int(t as i64)) } else { Fails }, false)
        }
        5 => {
            let v: Vec<E> = (0..1 + s.below(4)).map(|_| if s.bool() { int(s.range(-99, 99)) } else { E::Float(s.range(-99, 99) as f64 / 4.0) }).collect();
            let sum = s.bool();
            let w = if sum { v.iter().map(f64_of).sum::<f64>() } else { v.iter().map(f64_of).product::<f64>() };
            (if sum { "math@sum" } else { "math@product" }, vec![list(v)], Near(w), false)
        }
        6 => {
            let n = if s.chance(1, 5) { gen::int(s).min(1000) } else { s.range(-1, 23) };
            let mut r = Some(1i64);
            for k in 1..=n.max(0) {
                r = r.and_then(|r| r.checked_mul(k));
            }
            ("math@fact", vec![int(n)], if n < 0 { Fails } else { opt(r) }, false)
        }
        7 => ("math@abs", vec![x.clone()], match &x {
            E::Integer(i) => opt(i.checked_abs()),
            _ => V(E::Float(fx.abs())),
        }, false),
        8 | 9 => {
            let (f, w) = *s.pick(&[("math@floor", f64::floor as fn(f64) -> f64), ("math@ceil", f64::ceil), ("math@round", f64::round), ("math@trunc", f64::trunc)]);
            (f, vec![x.clone()], match &x {
                E::Integer(_) => V(x),
                _ => V(E::Float(w(fx))),
            }, false)
        }
        10 | 11 if s.chance(1, 3) => {
            // A whole float is odd or even as well.
            let f = match s.below(3) {
                0 => i as f64,
                1 => s.range(-1000, 1000) as f64,
                _ => (gen::float(s) * 4.0).trunc(),
            };
            if !f.is_finite() {
                return discard();
            }
            let odd = s.bool();
            (if odd { "math@isodd" } else { "math@iseven" }, vec![E::Float(f)], V(E::Boolean((f.abs() % 2.0 == 1.0) == odd)), false)
        }
        10 => ("math@isodd", vec![int(i)], V(E::Boolean(i.rem_euclid(2) == 1)), false),
        11 => ("math@iseven", vec![int(i)], V(E::Boolean(i.rem_euclid(2) == 0)), false),
        21 => {
            // Arguments of any size, for the functions that take them without losing accuracy.
            type F = fn(f64) -> f64;
            let fs: &[(&str, F)] = &[
                ("math@sqrt", f64::sqrt),
                ("math@cbrt", f64::cbrt),
                ("math@ln", f64::ln),
                ("math@log2", f64::log2),
                ("math@log10", f64::log10),
                ("math@atan", f64::atan),
                ("math@tanh", f64::tanh),
                ("math@asinh", |x| if x.abs() < 1e8 { x.asinh() } else { (x.abs().ln() + std::f64::consts::LN_2).copysign(x) }),
                ("math@acosh", |x| if x < 1e8 { x.acosh() } else { x.ln() + std::f64::consts::LN_2 }),
            ];
            let (f, w) = *s.pick(fs);
            let m = s.range(1 << 20, 1 << 22) as f64;
            let x = m * 2f64.powi(if s.bool() { s.range(-1000, 1000) } else { s.range(-30, 0) } as i32);
            let x = if s.chance(1, 4) { -x } else { x };
            (f, vec![E::Float(x)], Near(w(x)), false)
        }
        12 | 13 => {
            let b = if s.chance(1, 4) { gen::int(s) } else { s.range(-12, 12) };
            let e = if s.chance(1, 6) { gen::int(s) } else { s.range(-3, 66) };
            ("math@pow", vec![int(b), int(e)], opt(pow(b, e)), false)
        }
        14 => {
            let (a, b) = (num(s), E::Float(s.range(-40, 40) as f64 / 4.0));
            let w = f64_of(&a).powf(f64_of(&b));
            ("math@pow", vec![a, b], Near(w), false)
        }
        15 | 16 => {
            let (a, b) = match s.below(3) {
                0 => (int(i), int(if s.bool() { i.wrapping_add(s.range(-1, 1)) } else { gen::int(s) })),
                1 => (E::Float(gen::float(s)), E::Float(gen::float(s))),
                _ => (st(gen::plain(s, 4)), st(gen::plain(s, 4))),
            };
            if matches!((&a, &b), (E::Float(x), E::Float(y)) if x == y) {
                return discard();
            }
            let gt = super::ops::cmp(&a, &b) == Some(std::cmp::Ordering::Greater);
            if s.bool() {
                ("math@max", vec![a.clone(), b.clone()], V(if gt { a } else { b }), true)
            } else {
                ("math@min", vec![a.clone(), b.clone()], V(if gt { b } else { a }), true)
            }
        }
        17 => {
            let b = E::Float(*s.pick(&[2.0, 10.0, 3.5, 0.5]));
            let a = E::Float(fx.abs().max(1e-200));
            let w = f64_of(&a).ln() / f64_of(&b).ln();
            ("math@log", vec![b, a], Near(w), true)
        }
        18..=20 => {
            type F = fn(f64) -> f64;
            let pi = |f: F| f;
            let fs: &[(&str, F)] = &[
                ("math@sqrt", f64::sqrt),
                ("math@cbrt", f64::cbrt),
                ("math@ln", f64::ln),
                ("math@log2", f64::log2),
                ("math@log10", f64::log10),
                ("math@sin", f64::sin),
                ("math@cos", f64::cos),
                ("math@tan", f64::tan),
                ("math@asin", f64::asin),
                ("math@acos", f64::acos),
                ("math@atan", f64::atan),
                ("math@sinh", f64::sinh),
                ("math@cosh", f64::cosh),
                ("math@tanh", f64::tanh),
                ("math@asinh", f64::asinh),
                ("math@acosh", f64::acosh),
                ("math@atanh", f64::atanh),
                ("math@sinpi", |x| (x * std::f64::consts::PI).sin()),
                ("math@cospi", |x| (x * std::f64::consts::PI).cos()),
                ("math@tanpi", |x| (x * std::f64::consts::PI).tan()),
            ];
            let (f, w) = *s.pick(fs);
            let w = pi(w);
            // Large or near-singular arguments are ill-conditioned.
            let a = match s.below(3) {
                0 => int(s.range(-20, 20)),
                1 => E::Float(s.range(-400, 400) as f64 / 400.0),
                _ => E::Float(s.range(-1000, 1000) as f64 / 16.0),
            };
            let v = w(f64_of(&a));
            if f.contains("pi") && (v.abs() < 1e-3 || v.abs() > 1e3) {
                return discard();
            }
            (f, vec![a], Near(v), false)
        }
        _ => {
            let f = *s.pick(&["math@abs", "math@floor", "math@sqrt", "math@sin", "math@fact", "math@isodd", "math@ln", "math@round", "math@sinh", "math@log10"]);
            let v = s.pick(&[st("1"), E::None, list(vec![int(1)]), E::Boolean(true), E::Map(Default::default())]).clone();
            (f, vec![v], Fails, false)
        }
    };
    cx.nontrivial(!matches!(want, Fails));
    go(s, cx, f, args, want, curried)
}

// ---------------------------------------------------------------- rand

fn c34_places(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.usize(5, 24);
    let draws = (2.5 * n as f64 * ((n * n) as f64).ln()) as usize + 30 * n;
    cx.nontrivial(true);
    cx.go(format!("rand@shuffle of {} elements, {} times", n, draws))?;
    let mut env = sut::fresh_env();
    env.define("items", list((0..n as i64).map(int).collect()));
    let e = sut::parse("rand@shuffle items").map_err(|m| Fail::Violation { sig: String::new(), msg: m })?;
    let mut seen = vec![vec![false; n]; n];
    for _ in 0..draws {
        match sut::eval_in(&mut env, &e) {
            Out::Val(E::List(v)) if v.len() == n => {
                for (at, x) in v.iter().enumerate() {
                    match x {
                        E::Integer(i) if (0..n as i64).contains(i) => seen[at][*i as usize] = true,
                        o => fail!("a shuffle of 0 to {} has {:?}", n, o),
                    }
                }
            }
            o => fail!("a shuffle of {} elements gives {}", n, o.show()),
        }
    }
    for (at, row) in seen.iter().enumerate() {
        for (i, ok) in row.iter().enumerate() {
            ensure!(*ok, "element {} of {} never comes to place {} in {} shuffles", i, n, at, draws);
        }
    }
    Ok(())
}

fn c34_parts(s: &mut Src, cx: &mut Cx) -> R {
    // A range or list in sixteen parts.
    let choose = s.bool();
    let (l, w): (i64, i64) = if choose {
        (0, s.range(10, 100))
    } else {
        let bits = s.range(4, 58) as u32;
        let w = s.range(1 << bits >> 1, 1 << bits).max(10);
        (s.range(-(1 << 62), (1 << 62) - 1 - 16 * (w >> 4)) >> s.range(0, 60), w)
    };
    let (parts, draws) = (16i64, 700);
    let h = l as i128 + parts as i128 * w as i128;
    if h > i64::MAX as i128 {
        return discard();
    }
    let text = if choose { "rand@choose items".to_string() } else { "rand@int low high".to_string() };
    cx.nontrivial(true);
    cx.go(format!("{} from {} to {}", text, l, h))?;
    let mut env = sut::fresh_env();
    if choose {
        env.define("items", list((l..h as i64).map(int).collect()));
    }
    env.define("low", int(l));
    env.define("high", int(h as i64));
    let e = sut::parse(&text).map_err(|m| Fail::Violation { sig: String::new(), msg: m })?;
    let (mut seen, mut last) = ([0usize; 16], [0usize; 10]);
    for _ in 0..draws {
        match sut::eval_in(&mut env, &e) {
            Out::Val(E::Integer(i)) if l <= i && (i as i128) < h => {
                seen[((i as i128 - l as i128) / w as i128) as usize] += 1;
                last[i.rem_euclid(10) as usize] += 1;
            }
            o => fail!("{} from {} to {} gives {}", text, l, h, o.show()),
        }
    }
    ensure!(!seen.contains(&0), "{} from {} to {}: of its 16 parts of {} some never come in {} draws: {:?}", text, l, h, w, draws, seen);
    ensure!(!last.contains(&0), "{} from {} to {}: some last digit never comes in {} draws: {:?}", text, l, h, draws, last);
    Ok(())
}

fn c34(s: &mut Src, cx: &mut Cx) -> R {
    match s.below(3) {
        0 => {
            let (l, h) = match s.below(4) {
                0 => (gen::int(s), gen::int(s)),
                1 => (i64::MIN, i64::MAX),
                _ => {
                    let l = s.range(-20, 20);
                    (l, l.saturating_add(s.range(-2, 8)))
                }
            };
            let p = form(s, "rand@int", &[int(l), int(h)], false);
            cx.nontrivial((h as i128 - l as i128) >= 2);
            cx.go(p.show())?;
            for _ in 0..4 {
                match p.run() {
                    Out::Val(E::Integer(i)) => ensure!(l < h && l <= i && i < h, "{} gives {}", p.show(), i),
                    Out::Err(_) if l >= h => {}
                    o => fail!("{} gives {}", p.show(), o.show()),
                }
            }
        }
        1 => {
            let l = val::list(s, 1, 10);
            let p = form(s, "rand@choose", &[list(l.clone())], false);
            cx.nontrivial(l.len() >= 2);
            cx.go(p.show())?;
            for _ in 0..4 {
                match p.run() {
                    Out::Val(v) => ensure!(l.iter().any(|x| val::same(x, &v)), "{} gives {:?}", p.show(), v),
                    Out::Err(_) if l.is_empty() => {}
                    o => fail!("{} gives {}", p.show(), o.show()),
                }
            }
        }
        _ => {
            let l = val::list(s, 1, 14);
            let p = form(s, "rand@shuffle", &[list(l.clone())], false);
            cx.nontrivial(l.len() >= 2);
            cx.go(p.show())?;
            match p.run() {
                Out::Val(E::List(v)) => {
                    let sort = |l: &[E]| {
                        let mut t: Vec<String> = l.iter().map(|e| format!("{:?}", e)).collect();
                        t.sort();
                        t
                    };
                    ensure!(sort(&l) == sort(&v), "{} gives {:?}", p.show(), v)
                }
                o => fail!("{} gives {}", p.show(), o.show()),
            }
        }
    }
    Ok(())
}

/// Everything that may come, comes: of many elements each at every place, and every part of a wide range.
fn c34_cover(s: &mut Src, cx: &mut Cx) -> R {
    match s.below(6) {
        0 => return c34_places(s, cx),
        1 => return c34_parts(s, cx),
        _ => {}
    }
    let kind = s.below(3);
    let n = s.range(2, if kind == 2 { 4 } else { 9 });
    let l = s.range(-5, 5);
    let outcomes = if kind == 2 { (1..=n).product::<i64>() } else { n };
    let draws = (60.0 * outcomes as f64 * ((outcomes as f64).ln() + 1.0)) as usize;
    let items = list((l..l + n).map(int).collect());
    let text = match kind {
        0 => format!("rand@int {} {}", if l < 0 { format!("({})", l) } else { l.to_string() }, if l + n < 0 { format!("({})", l + n) } else { (l + n).to_string() }),
        1 => "rand@choose items".to_string(),
        _ => "rand@shuffle items".to_string(),
    };
    cx.nontrivial(true);
    cx.go(format!("{} for {} numbers from {}", text, n, l))?;
    let mut env = sut::fresh_env();
    env.define("items", items);
    let e = sut::parse(&text).map_err(|m| Fail::Violation { sig: String::new(), msg: m })?;
    let mut seen = BTreeMap::new();
    for _ in 0..draws {
        match sut::eval_in(&mut env, &e) {
            Out::Val(v) => *seen.entry(format!("{:?}", v)).or_insert(0usize) += 1,
            o => fail!("{} gives {}", text, o.show()),
        }
    }
    ensure!(seen.len() as i64 == outcomes, "{}: only {} of {} outcomes come in {} draws: {:?}", text, seen.len(), outcomes, draws, seen);
    Ok(())
}
