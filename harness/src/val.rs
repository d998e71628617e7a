//! Values: generating, comparing, writing as literals, and passing them to builtins.

use crate::engine::*;
use crate::gen;
use crate::sut::{self, Out};
use dune::{Environment, Expression as E};
use std::collections::BTreeMap;

/// Any value made of data.
pub fn value(s: &mut Src, depth: usize) -> E {
    let top = if depth == 0 { 6 } else { 8 };
    match s.below(top) {
        0 => E::Integer(gen::int(s)),
        1 => E::String(gen::long(s, 12)),
        2 => E::Boolean(s.bool()),
        3 => E::Float(gen::float(s)),
        4 => E::None,
        5 => E::Integer(s.range(-3, 5)),
        6 => E::List(list(s, depth - 1, 6)),
        _ => E::Map(map(s, depth - 1, 5)),
    }
}
/// Any value, bytes among them.
pub fn value_b(s: &mut Src, depth: usize) -> E {
    if s.chance(1, 12) {
        let n = s.len(10);
        return E::Bytes((0..n).map(|_| s.below(256) as u8).collect());
    }
    value(s, depth)
}
pub fn list(s: &mut Src, depth: usize, max: usize) -> Vec<E> {
    if let Some(n) = s.big() {
        return long(s, n);
    }
    let n = s.len(max);
    (0..n).map(|_| value(s, depth)).collect()
}
/// A long list, of numbers and a few other things.
fn long(s: &mut Src, n: usize) -> Vec<E> {
    let few: Vec<E> = (0..1 + s.below(5)).map(|_| value(s, 0)).collect();
    (0..n).map(|i| if i % 3 == 2 { few[i / 3 % few.len()].clone() } else { E::Integer(i as i64) }).collect()
}
pub fn ints(s: &mut Src, max: usize) -> Vec<E> {
    if let Some(n) = s.big() {
        let (a, b) = (s.range(0, 40), s.range(1, 20));
        return (0..n as i64).map(|i| E::Integer((i * b + a) % 41 - 20)).collect();
    }
    let n = s.len(max);
    (0..n).map(|_| E::Integer(s.range(-20, 20))).collect()
}
pub fn key(s: &mut Src) -> String {
    match s.below(4) {
        0 | 1 => gen::name(s),
        2 => gen::ident(s),
        _ => gen::text(s, 5),
    }
}
pub fn map(s: &mut Src, depth: usize, max: usize) -> BTreeMap<String, E> {
    if let Some(n) = s.big() {
        let mut m: BTreeMap<String, E> = long(s, n).into_iter().enumerate().map(|(i, v)| (format!("k{}", i * 7 % 1000), v)).collect();
        m.insert(key(s), value(s, 0));
        return m;
    }
    let n = s.len(max);
    (0..n).map(|_| (key(s), value(s, depth))).collect()
}

/// Equal in kind and content; all NaN are the same, and the zeros differ.
pub fn same(a: &E, b: &E) -> bool {
    match (a, b) {
        (E::Float(x), E::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (E::List(x), E::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (E::Map(x), E::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && same(p, q)),
        (E::Float(_), _) | (_, E::Float(_)) => false,
        _ => a == b,
    }
}

/// The value as program text, in brackets where it needs them.
pub fn lit(e: &E) -> Option<String> {
    Some(match e {
        E::None => "None".into(),
        E::Boolean(b) => if *b { "True" } else { "False" }.into(),
        E::Integer(i) if *i < 0 => format!("({})", i),
        E::Integer(i) => format!("{}", i),
        E::Float(f) if !f.is_finite() => return None,
        E::Float(f) if f.is_sign_negative() => format!("({})", gen::float_lit(*f)),
        E::Float(f) => gen::float_lit(*f),
        E::String(t) => gen::quote(t),
        E::List(l) => format!("[{}]", l.iter().map(lit).collect::<Option<Vec<_>>>()?.join(", ")),
        _ => return None,
    })
}

/// A program and the variables it reads.
#[derive(Default)]
pub struct Prog {
    pub text: String,
    pub vars: Vec<(String, E)>,
}
impl Prog {
    pub fn new() -> Self {
        Prog::default()
    }
    /// The text that stands for a value: a literal or a variable.
    pub fn arg(&mut self, s: &mut Src, e: &E) -> String {
        if s.bool() {
            if let Some(t) = lit(e) {
                return t;
            }
        }
        self.var(e)
    }
    pub fn var(&mut self, e: &E) -> String {
        let n = format!("v{}", self.vars.len());
        self.vars.push((n.clone(), e.clone()));
        n
    }
    pub fn show(&self) -> String {
        let mut t = self.text.clone();
        for (n, v) in &self.vars {
            t.push_str(&format!("   # {} = {:?}", n, v));
        }
        t
    }
    pub fn env(&self) -> Environment {
        let mut env = sut::fresh_env();
        for (n, v) in &self.vars {
            env.define(n, v.clone());
        }
        env
    }
    pub fn run(&self) -> Out {
        sut::run_in(&mut self.env(), &self.text)
    }
}

/// `f x y z` as a program.
pub fn call(s: &mut Src, f: &str, args: &[E]) -> Prog {
    let mut p = Prog::new();
    let mut t = f.to_string();
    for a in args {
        t.push(' ');
        let x = p.arg(s, a);
        t.push_str(&x);
    }
    p.text = t;
    p
}

/// Check a result against what is expected: a value, or (`None`) an error.
pub fn expect(p: &Prog, out: &Out, want: &Option<E>) -> R {
    match (out, want) {
        (Out::Val(v), Some(w)) if same(v, w) => Ok(()),
        (Out::Err(_), None) => Ok(()),
        (o, Some(w)) => crate::fail!("{} gives {} instead of {:?}", p.show(), o.show(), w),
        (o, None) => crate::fail!("{} gives {} instead of an error", p.show(), o.show()),
    }
}
