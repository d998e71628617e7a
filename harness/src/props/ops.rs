//! Operators, comparison, truth and indexing.

use crate::engine::*;
use crate::sut::{self, Out};
use crate::val::{self, expect, Prog};
use crate::{ensure, fail, gen};
use dune::Expression as E;
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "Operator applications to operands of every pair of kinds, infix, by name and partially applied, with literals or variables. Non-trivial: the model says the result is a value, or an operand is at the edge of the 64-bit range.",
            subs: &[
                Sub { name: "binary", quick: 400_000, thorough: 8_000_000, f: c08 },
                Sub { name: "unary", quick: 60_000, thorough: 1_000_000, f: c08_neg },
            ],
            cpu_limit: Some(60),
            assumptions: &["Rust's i128 and f64 arithmetic is the reference."],
        },
        Prop {
            id: "C09",
            rule: "Pairs and triples of values of all kinds, often equal or nearly equal, under every comparison and logic operator. Non-trivial: the values are of the same kind, or truthiness decides.",
            subs: &[
                Sub { name: "compare", quick: 300_000, thorough: 6_000_000, f: c09 },
                Sub { name: "logic", quick: 150_000, thorough: 3_000_000, f: c09_logic },
            ],
            cpu_limit: Some(60),
            assumptions: &[],
        },
        Prop {
            id: "C22",
            rule: "Histories of insertions, removals, lookups and length queries on lists, maps and strings, compared with a model after every step; earlier values are looked at again at the end. Non-trivial: at least three steps that return a value.",
            subs: &[Sub { name: "history", quick: 120_000, thorough: 2_000_000, f: c22 }],
            cpu_limit: Some(60),
            assumptions: &[],
        },
    ]
}

// ---------------------------------------------------------------- arithmetic

fn exact(v: i128) -> Option<E> {
    i64::try_from(v).ok().map(E::Integer)
}

fn repeat(n: i64, unit: usize) -> Option<usize> {
    if n <= 0 || unit == 0 {
        return Some(0);
    }
    // The generator only makes small counts and ones that cannot be stored.
    if n > 1 << 40 {
        return None;
    }
    Some(n as usize)
}

pub fn model(op: &str, a: &E, b: &E) -> Option<E> {
    use E::*;
    match (op, a, b) {
        ("+", Integer(x), Integer(y)) => exact(*x as i128 + *y as i128),
        ("-", Integer(x), Integer(y)) => exact(*x as i128 - *y as i128),
        ("*", Integer(x), Integer(y)) => exact(*x as i128 * *y as i128),
        ("//", Integer(x), Integer(y)) if *y != 0 => exact(*x as i128 / *y as i128),
        ("%", Integer(x), Integer(y)) if *y != 0 => {
            // The overflowing quotient is refused for the remainder as well.
            if *x == i64::MIN && *y == -1 {
                return Option::None;
            }
            exact(*x as i128 % *y as i128)
        }
        ("+" | "-" | "*" | "//", Integer(_) | Float(_), Integer(_) | Float(_)) => {
            if let (Integer(_), Integer(_)) = (a, b) {
                return Option::None;
            }
            let f = |e: &E| match e {
                Integer(i) => *i as f64,
                Float(f) => *f,
                _ => unreachable!(),
            };
            let (x, y) = (f(a), f(b));
            Some(Float(match op {
                "+" => x + y,
                "-" => x - y,
                "*" => x * y,
                _ => x / y,
            }))
        }
        ("+", String(x), String(y)) => Some(String(format!("{}{}", x, y))),
        ("+", Bytes(x), Bytes(y)) => Some(Bytes([&x[..], &y[..]].concat())),
        ("+", List(x), List(y)) => Some(List([&x[..], &y[..]].concat())),
        ("*", String(x), Integer(n)) | ("*", Integer(n), String(x)) => repeat(*n, x.len()).map(|n| String(x.repeat(n))),
        ("*", List(x), Integer(n)) | ("*", Integer(n), List(x)) => repeat(*n, x.len()).map(|n| List((0..n).flat_map(|_| x.clone()).collect())),
        ("-", Map(m), String(k)) => m.get(k).cloned(),
        ("-", List(l), Integer(n)) => usize::try_from(*n).ok().and_then(|n| l.get(n).cloned()),
        _ => Option::None,
    }
}

pub fn operand(s: &mut Src, kind: u64) -> E {
    match kind {
        0 => E::Integer(gen::int(s)),
        1 => E::Float(gen::float(s)),
        2 => E::String(gen::long(s, 10)),
        3 => E::List(val::list(s, 1, 5)),
        4 => E::Map(val::map(s, 1, 4)),
        5 => {
            let n = s.len(8);
            E::Bytes((0..n).map(|_| s.below(256) as u8).collect())
        }
        _ => val::value(s, 1),
    }
}

/// How often to repeat: small, negative, or more than can ever be stored.
fn count(s: &mut Src) -> E {
    E::Integer(match s.below(6) {
        0..=3 => s.range(0, 30),
        4 => -gen::int(s).saturating_abs().max(1),
        _ => i64::MAX - s.range(0, 1 << 40),
    })
}

fn operands(s: &mut Src, op: &str) -> (E, E) {
    let pairs: &[(u64, u64)] = match op {
        "+" => &[(0, 0), (0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (3, 3), (5, 5), (6, 6)],
        "-" => &[(0, 0), (0, 0), (0, 1), (1, 0), (1, 1), (3, 10), (4, 11), (6, 6)],
        "*" => &[(0, 0), (0, 0), (0, 1), (1, 0), (1, 1), (2, 12), (12, 2), (3, 12), (12, 3), (6, 6)],
        "//" => &[(0, 0), (0, 0), (0, 1), (1, 0), (1, 1), (6, 6)],
        _ => &[(0, 0), (0, 0), (0, 0), (6, 6), (0, 1)],
    };
    let (ka, kb) = *s.pick(pairs);
    match (ka, kb) {
        (3, 10) => {
            let l = val::list(s, 1, 6);
            let i = s.range(-2, l.len() as i64 + 1);
            (E::List(l), E::Integer(i))
        }
        (4, 11) => {
            let m = val::map(s, 1, 5);
            let k = if s.bool() && !m.is_empty() { m.keys().nth(s.idx(m.len())).unwrap().clone() } else { val::key(s) };
            (E::Map(m), E::String(k))
        }
        (12, k) => (count(s), operand(s, k)),
        (k, 12) => (operand(s, k), count(s)),
        (a, b) => {
            let x = operand(s, a);
            let y = operand(s, b);
            // Operands of the same size make the edges of the range likely.
            match (&x, &y) {
                (E::Integer(i), E::Integer(_)) if s.chance(1, 6) => {
                    let j = match op {
                        "+" => (i64::MAX as i128 - *i as i128 + s.range(-1, 1) as i128) as i64,
                        "-" => i.wrapping_sub(i64::MIN).wrapping_add(s.range(-1, 1)),
                        "*" if *i != 0 => (i64::MAX / i).wrapping_add(s.range(-1, 1)),
                        _ => *s.pick(&[-1, 0, 1, i64::MIN, i64::MAX]),
                    };
                    let x = if op != "*" && op != "+" && op != "-" && s.bool() { E::Integer(i64::MIN) } else { x };
                    (x, E::Integer(j))
                }
                _ => (x, y),
            }
        }
    }
}

/// A value that repetition by it would not exhaust the memory.
pub fn harmless(op: &str, a: &E, b: &E) -> bool {
    if op != "*" {
        return true;
    }
    let n = match (a, b) {
        (E::Integer(n), E::String(x)) | (E::String(x), E::Integer(n)) if !x.is_empty() => *n,
        (E::Integer(n), E::List(x)) | (E::List(x), E::Integer(n)) if !x.is_empty() => *n,
        _ => return true,
    };
    n <= 1000 || n > 1 << 60
}

fn c08(s: &mut Src, cx: &mut Cx) -> R {
    let op = *s.pick(&["+", "-", "*", "//", "%"]);
    let (a, b) = operands(s, op);
    if !harmless(op, &a, &b) {
        return discard();
    }
    let mut vals = vec![a, b];
    let mut p = Prog::new();
    let form = s.below(4);
    if form != 2 && s.chance(1, 4) {
        let (c, _) = operands(s, op);
        vals.push(c);
    }
    let args: Vec<String> = vals.iter().map(|v| p.arg(s, v)).collect();
    p.text = match form {
        0 | 1 => args.join(&format!(" {} ", op)),
        2 if op != "+" && op != "-" => format!("(ops@{:?} {}) {}", op, args[0], args[1]),
        _ => {
            // Only these two take any number of arguments.
            if op != "+" && op != "-" {
                vals.truncate(2);
            }
            format!("ops@{:?} {}", op, args[..vals.len()].join(" "))
        }
    };
    let mut want = Some(vals[0].clone());
    for v in &vals[1..] {
        if let Some(w) = &want {
            if !harmless(op, w, v) {
                return discard();
            }
            want = model(op, w, v);
        }
    }
    // An element that is None is not told apart from an element that is not there.
    if op == "-" && want == Some(E::None) {
        return discard();
    }
    cx.label(op);
    cx.nontrivial(want.is_some() || vals.iter().all(|v| matches!(v, E::Integer(_))));
    cx.go(p.show())?;
    expect(&p, &p.run(), &want)
}

fn c08_neg(s: &mut Src, cx: &mut Cx) -> R {
    let kind = s.below(7);
    let v = if s.chance(1, 8) { E::Boolean(s.bool()) } else { operand(s, kind) };
    let mut p = Prog::new();
    let a = p.arg(s, &v);
    p.text = format!("ops@\"-\" {}", a);
    let want = match &v {
        E::Integer(i) => exact(-(*i as i128)),
        E::Float(f) => Some(E::Float(-f)),
        E::Boolean(b) => Some(E::Boolean(!b)),
        _ => None,
    };
    cx.nontrivial(want.is_some());
    cx.go(p.show())?;
    expect(&p, &p.run(), &want)
}

// ---------------------------------------------------------------- comparison

pub fn eq(a: &E, b: &E) -> bool {
    match (a, b) {
        (E::Integer(x), E::Integer(y)) => x == y,
        (E::Float(x), E::Float(y)) => x == y,
        (E::String(x), E::String(y)) => x == y,
        (E::Boolean(x), E::Boolean(y)) => x == y,
        (E::Bytes(x), E::Bytes(y)) => x == y,
        (E::None, E::None) => true,
        (E::List(x), E::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| eq(a, b)),
        (E::Map(x), E::Map(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| eq(v, w))),
        _ => false,
    }
}

pub fn cmp(a: &E, b: &E) -> Option<Ordering> {
    match (a, b) {
        (E::Integer(x), E::Integer(y)) => Some(x.cmp(y)),
        (E::Float(x), E::Float(y)) => x.partial_cmp(y),
        (E::String(x), E::String(y)) => {
            // By code points.
            Some(x.chars().map(|c| c as u32).cmp(y.chars().map(|c| c as u32)))
        }
        (E::Bytes(x), E::Bytes(y)) => Some(x.cmp(y)),
        (E::List(x), E::List(y)) => {
            for (p, q) in x.iter().zip(y) {
                match cmp(p, q) {
                    Some(Ordering::Equal) => {}
                    o => return o,
                }
            }
            Some(x.len().cmp(&y.len()))
        }
        (E::Map(x), E::Map(y)) => {
            for ((k, p), (l, q)) in x.iter().zip(y) {
                match k.cmp(l) {
                    Ordering::Equal => {}
                    o => return Some(o),
                }
                match cmp(p, q) {
                    Some(Ordering::Equal) => {}
                    o => return o,
                }
            }
            Some(x.len().cmp(&y.len()))
        }
        _ => None,
    }
}

pub fn truthy(e: &E) -> bool {
    match e {
        E::Integer(i) => *i != 0,
        E::Float(f) => *f != 0.0,
        E::String(t) => !t.is_empty(),
        E::Bytes(t) => !t.is_empty(),
        E::Boolean(b) => *b,
        E::List(l) => !l.is_empty(),
        E::Map(m) => !m.is_empty(),
        E::None => false,
        _ => true,
    }
}

/// A value close to `v`.
pub fn near(s: &mut Src, v: &E) -> E {
    match v {
        E::Integer(i) => match s.below(3) {
            0 => E::Integer(i.wrapping_add(s.range(-1, 1))),
            1 => E::Float(*i as f64),
            _ => E::Integer(i.wrapping_neg()),
        },
        E::Float(f) => match s.below(4) {
            0 => E::Float(f64::from_bits(f.to_bits() ^ 1)),
            1 => E::Float(-f),
            2 => E::Float(f64::NAN),
            _ => E::Integer(*f as i64),
        },
        E::String(t) => {
            let mut c: Vec<char> = t.chars().collect();
            match s.below(3) {
                0 => c.push(gen::ch(s)),
                1 if !c.is_empty() => {
                    let i = s.idx(c.len());
                    c[i] = gen::ch(s);
                }
                _ => {
                    c.pop();
                }
            }
            E::String(c.into_iter().collect())
        }
        E::List(l) => {
            let mut l = l.clone();
            match s.below(3) {
                0 => l.push(val::value(s, 0)),
                1 if !l.is_empty() => {
                    let i = s.idx(l.len());
                    l[i] = near(s, &l[i].clone());
                }
                _ => {
                    l.pop();
                }
            }
            E::List(l)
        }
        E::Map(m) => {
            let mut m = m.clone();
            match s.below(3) {
                0 => {
                    m.insert(val::key(s), val::value(s, 0));
                }
                1 if !m.is_empty() => {
                    let k = m.keys().nth(s.idx(m.len())).unwrap().clone();
                    let v = near(s, &m[&k].clone());
                    m.insert(k, v);
                }
                _ => {
                    if let Some(k) = m.keys().next().cloned() {
                        m.remove(&k);
                    }
                }
            }
            E::Map(m)
        }
        E::Boolean(b) => s.pick(&[E::Boolean(!b), E::Integer(*b as i64)]).clone(),
        _ => val::value_b(s, 1),
    }
}

fn c09(s: &mut Src, cx: &mut Cx) -> R {
    let a = val::value_b(s, 2);
    let b = match s.below(4) {
        0 => a.clone(),
        1 | 2 => near(s, &a),
        _ => val::value_b(s, 2),
    };
    let mut p = Prog::new();
    let x = p.arg(s, &a);
    let y = p.arg(s, &b);
    p.text = if s.bool() {
        format!("[{x} == {y}, {x} != {y}, {x} < {y}, {x} <= {y}, {x} > {y}, {x} >= {y}]")
    } else {
        format!("[ops@\"==\" {x} {y}, ops@\"!=\" {x} {y}, ops@\"<\" {x} {y}, ops@\"<=\" {x} {y}, ops@\">\" {x} {y}, ops@\">=\" {x} {y}]")
    };
    let e = eq(&a, &b);
    let c = cmp(&a, &b);
    cx.nontrivial(std::mem::discriminant(&a) == std::mem::discriminant(&b));
    if c.is_some() {
        cx.label("ordered");
    }
    let o = |f: fn(Ordering) -> bool| E::Boolean(c.map_or(false, f));
    let want = E::List(vec![E::Boolean(e), E::Boolean(!e), o(Ordering::is_lt), o(Ordering::is_le), o(Ordering::is_gt), o(Ordering::is_ge)]);
    cx.go(p.show())?;
    expect(&p, &p.run(), &Some(want))
}

fn c09_logic(s: &mut Src, cx: &mut Cx) -> R {
    let mut any = |s: &mut Src| match s.below(12) {
        0 => E::None,
        1 => E::Integer(0),
        2 => E::Float(*s.pick(&[0.0, -0.0, f64::NAN, 1e-320, 0.1])),
        3 => E::String(String::new()),
        4 => E::List(vec![]),
        5 => E::Map(Default::default()),
        6 => E::Bytes(vec![]),
        7 => E::Boolean(s.bool()),
        _ => val::value_b(s, 1),
    };
    let (a, b, c) = (any(s), any(s), any(s));
    let mut p = Prog::new();
    let (x, y, z) = (p.arg(s, &a), p.arg(s, &b), p.arg(s, &c));
    let (ta, tb, tc) = (truthy(&a), truthy(&b), truthy(&c));
    let f = E::Boolean;
    p.text = format!(
        "[{x} && {y}, {x} || {y}, ! {x}, ops@\"&&\" {x} {y} {z}, ops@\"||\" {x} {y} {z}, ops@\"!\" {x} {y}, {x} && {y} || {z}, ! (x0 -> x0), if {x} {{ 1 }} else {{ 2 }}, fn@? {y} 1 2, fn@filter (q -> q) [{x}, {y}, {z}]]"
    );
    let want = E::List(vec![
        f(ta && tb),
        f(ta || tb),
        f(!ta),
        f(ta && tb && tc),
        f(ta || tb || tc),
        f(!ta && !tb),
        f(ta && tb || tc),
        f(false),
        E::Integer(if ta { 1 } else { 2 }),
        E::Integer(if tb { 1 } else { 2 }),
        E::List([(ta, &a), (tb, &b), (tc, &c)].iter().filter(|t| t.0).map(|t| t.1.clone()).collect()),
    ]);
    cx.nontrivial(ta != tb || tb != tc);
    cx.go(p.show())?;
    expect(&p, &p.run(), &Some(want))
}

// ---------------------------------------------------------------- collections

fn c22(s: &mut Src, cx: &mut Cx) -> R {
    let mut cur = match s.below(3) {
        0 => E::List(val::list(s, 1, 6)),
        1 => E::Map(val::map(s, 1, 6)),
        _ => E::String(gen::long(s, 10)),
    };
    let start = cur.clone();
    let n = 1 + s.len(10);
    let mut steps: Vec<(String, Option<E>, bool)> = vec![];
    let mut vars: Vec<(String, E)> = vec![("c".into(), cur.clone()), ("c0".into(), cur.clone())];
    let mut good = 0;
    for i in 0..n {
        let ki = match &cur {
            E::List(l) => E::Integer(if s.chance(1, 10) { gen::int(s) } else { s.range(-2, l.len() as i64 + 2) }),
            E::Map(m) => E::String(if s.bool() && !m.is_empty() { m.keys().nth(s.idx(m.len())).unwrap().clone() } else { val::key(s) }),
            E::String(t) => E::Integer(if s.chance(1, 10) { gen::int(s) } else { s.range(-2, t.len() as i64 + 2) }),
            _ => unreachable!(),
        };
        let ki = if s.chance(1, 15) { val::value(s, 0) } else { ki };
        let kv = format!("k{}", i);
        let literal = if s.bool() { val::lit(&ki) } else { None };
        let kt = match literal {
            Some(t) => t,
            None => {
                vars.push((kv.clone(), ki.clone()));
                // An index must not be a name, because a name stands for itself there.
                format!("({})", kv)
            }
        };
        let idx = |len: usize| match &ki {
            E::Integer(i) if *i >= 0 && (*i as u64) < len as u64 => Some(*i as usize),
            _ => None,
        };
        match s.below(6) {
            0 | 1 => {
                let v = val::value(s, 1);
                let vv = format!("w{}", i);
                vars.push((vv.clone(), v.clone()));
                let next = match (&cur, &ki) {
                    (E::List(l), E::Integer(_)) => idx(l.len() + 1).map(|i| {
                        let mut l = l.clone();
                        l.splice(i..i, [v.clone()]);
                        E::List(l)
                    }),
                    (E::Map(m), E::String(k)) => {
                        let mut m = m.clone();
                        m.insert(k.clone(), v.clone());
                        Some(E::Map(m))
                    }
                    (E::String(t), E::Integer(_)) => {
                        let E::String(vs) = (match &v {
                            E::String(x) => E::String(x.clone()),
                            E::Integer(x) => E::String(x.to_string()),
                            E::Boolean(b) => E::String(if *b { "True" } else { "False" }.into()),
                            _ => return discard(),
                        }) else { unreachable!() };
                        idx(t.len() + 1).and_then(|i| {
                            let head = t.as_bytes().get(..i).and_then(|b| std::str::from_utf8(b).ok())?;
                            Some(E::String(format!("{}{}{}", head, vs, &t[i..])))
                        })
                    }
                    _ => None,
                };
                if let Some(nx) = next {
                    steps.push((format!("{{ let c = insert c {} {}; c }}", kt, vv), Some(nx.clone()), false));
                    cur = nx;
                    good += 1;
                } else {
                    steps.push((format!("insert c {} {}", kt, vv), None, false));
                }
            }
            2 | 3 => {
                let want = match (&cur, &ki) {
                    (E::List(l), E::Integer(_)) => idx(l.len()).map(|i| l[i].clone()),
                    (E::Map(m), E::String(k)) => m.get(k).cloned(),
                    _ => None,
                };
                good += want.is_some() as usize;
                steps.push((format!("c@{}", kt), Some(want.unwrap_or(E::None)), false));
            }
            4 => {
                let want = match &cur {
                    E::List(l) => l.len(),
                    E::Map(m) => m.len(),
                    E::String(t) => t.chars().count(),
                    _ => unreachable!(),
                };
                good += 1;
                steps.push(("len c".into(), Some(E::Integer(want as i64)), false));
            }
            _ => {
                let (k, v) = match &cur {
                    E::Map(m) => (Some(E::List(m.keys().map(|k| E::String(k.clone())).collect())), Some(E::List(m.values().cloned().collect()))),
                    _ => (None, None),
                };
                good += k.is_some() as usize;
                let b = s.bool();
                steps.push((if b { "keys c" } else { "vals c" }.into(), if b { k } else { v }, false));
            }
        }
    }
    steps.push(("c0".into(), Some(start), true));
    cx.nontrivial(good >= 3);
    cx.go(format!("{}   # {:?}", steps.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join(" ; "), vars))?;
    let mut env = sut::fresh_env();
    for (n, v) in &vars {
        env.define(n, v.clone());
    }
    for (t, want, last) in steps {
        let out = sut::run_in(&mut env, &t);
        let what = if last { "afterwards the first value is changed: " } else { "" };
        match (&out, &want) {
            (Out::Val(v), Some(w)) => ensure!(val::same(v, w), "{}{} gives {} instead of {:?}", what, t, out.show(), w),
            (Out::Err(_), None) => {}
            (_, None) => fail!("{} gives {} instead of an error", t, out.show()),
            (_, Some(w)) => fail!("{}{} gives {} instead of {:?}", what, t, out.show(), w),
        }
    }
    Ok(())
}
