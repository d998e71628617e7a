//! The core language against a reference interpreter.

use super::ops;
use crate::engine::*;
use crate::sut::{self, Out};
use crate::val;
use crate::{ensure, fail, gen};
use dune::Expression as E;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "Programs that define a function over some variables, call it, rebind every variable in every way the language has, and call it again with the same arguments. Non-trivial: the function reads a variable that is rebound in between.",
            subs: &[
                Sub { name: "rebind", quick: 150_000, thorough: 3_000_000, f: c10 },
                Sub { name: "loop", quick: 40_000, thorough: 600_000, f: c10_loop },
                Sub { name: "forms", quick: 60_000, thorough: 1_000_000, f: c10_forms },
            ],
            cpu_limit: Some(60),
            assumptions: &["Functions are compared by what they return and print."],
        },
        Prop {
            id: "C11",
            rule: "Random programs of definitions, blocks, conditionals, loops, functions, macros, operators, errors and their handlers, and output, run by a reference interpreter and by dune; results, printed text and final variables are compared. Non-trivial: at least five constructs are executed and something is printed or called.",
            subs: &[Sub { name: "program", quick: 250_000, thorough: 5_000_000, f: c11 }],
            cpu_limit: Some(60),
            assumptions: &["Macros are applied at the top level only, where their body can see every builtin."],
        },
        Prop {
            id: "C12",
            rule: "Functions of one to four parameters applied to all arguments at once, one by one, in random groups, through a variable, through fn@curry, fn@apply, fn@flip and fn@compose, where other variables are bound or not; and the same for the functions of the library that take their arguments one by one. Non-trivial: at least two parameters are used.",
            subs: &[Sub { name: "curry", quick: 120_000, thorough: 2_500_000, f: c12 }, Sub { name: "builtins", quick: 40_000, thorough: 800_000, f: c12_builtins }],
            cpu_limit: Some(60),
            assumptions: &[],
        },
        Prop {
            id: "C15",
            rule: "An error of every kind planted at a random place of a program under nested handlers. Non-trivial: the error reaches a handler through at least two constructs.",
            subs: &[Sub { name: "try", quick: 120_000, thorough: 2_000_000, f: c15 }],
            cpu_limit: Some(60),
            assumptions: &[],
        },
    ]
}

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug)]
pub enum T {
    Lit(E),
    Var(String),
    List(Vec<T>),
    Bin(&'static str, Box<T>, Box<T>),
    Not(Box<T>),
    Len(Box<T>),
    At(Box<T>, Box<T>),
    Do(Vec<T>),
    Let(String, Box<T>),
    If(Box<T>, Box<T>, Option<Box<T>>),
    /// `fn@?`: a conditional as a function.
    Cond(Box<T>, Box<T>, Box<T>),
    For(String, Box<T>, Box<T>),
    Lam(String, Rc<T>),
    Mac(String, Rc<T>),
    App(Box<T>, Vec<T>),
    Print(Vec<T>),
    /// The value of the expression, or the code of its error.
    Try(Box<T>),
}

pub fn show(t: &T) -> String {
    match t {
        T::Lit(e) => val::lit(e).unwrap(),
        T::Var(n) => n.clone(),
        T::List(l) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(", ")),
        T::Bin(op, a, b) => format!("({} {} {})", show(a), op, show(b)),
        T::Not(a) => format!("(! {})", show(a)),
        T::Len(a) => format!("(len {})", show(a)),
        T::At(a, b) => format!("({}@({}))", show(a), show(b)),
        T::Do(l) => format!("{{ {} }}", l.iter().map(show).collect::<Vec<_>>().join("; ")),
        T::Let(n, a) => format!("(let {} = {})", n, show(a)),
        T::If(c, a, None) => format!("(if {} {{ {} }})", show(c), show(a)),
        T::If(c, a, Some(b)) => format!("(if {} {{ {} }} else {{ {} }})", show(c), show(a), show(b)),
        T::Cond(c, a, b) => format!("(fn@? {} {{ {} }} {{ {} }})", show(c), show(a), show(b)),
        T::For(n, l, b) => format!("(for {} in {} {{ {} }})", n, show(l), show(b)),
        T::Lam(p, b) => format!("({} -> {})", p, show(b)),
        T::Mac(p, b) => format!("({} ~> {})", p, show(b)),
        T::App(f, a) => format!("({} {})", show(f), a.iter().map(show).collect::<Vec<_>>().join(" ")),
        T::Print(a) => format!("(debug {})", a.iter().map(show).collect::<Vec<_>>().join(" ")),
        T::Try(a) => format!("(err@try {} (e -> e@code))", show(a)),
    }
}

// ---------------------------------------------------------------- reference interpreter

pub type Env = BTreeMap<String, V>;

#[derive(Clone, Debug)]
pub enum V {
    D(E),
    Lam(String, Rc<T>, Rc<Env>),
    Mac(String, Rc<T>),
}
pub enum Stop {
    /// An error with this code.
    Error(i64),
    /// The program is outside what the reference interpreter covers.
    Outside,
}
pub struct Interp {
    pub out: String,
    pub fuel: usize,
    pub calls: usize,
    pub handled: usize,
}
impl Interp {
    pub fn new() -> Self {
        Interp { out: String::new(), fuel: 3000, calls: 0, handled: 0 }
    }
    fn data(&mut self, t: &T, env: &mut Env) -> Result<E, Stop> {
        match self.eval(t, env)? {
            V::D(e) => Ok(e),
            _ => Err(Stop::Outside),
        }
    }
    pub fn eval(&mut self, t: &T, env: &mut Env) -> Result<V, Stop> {
        if self.fuel == 0 {
            return Err(Stop::Outside);
        }
        self.fuel -= 1;
        Ok(V::D(match t {
            T::Lit(e) => e.clone(),
            T::Var(n) => return Ok(env.get(n).cloned().unwrap_or(V::D(E::Symbol(n.clone())))),
            T::List(l) => E::List(l.iter().map(|x| self.data(x, env)).collect::<Result<_, _>>()?),
            T::Bin(op, a, b) => {
                let x = self.data(a, env)?;
                let y = self.data(b, env)?;
                if matches!(x, E::Symbol(_)) || matches!(y, E::Symbol(_)) {
                    return Err(Stop::Outside);
                }
                let o = |f: fn(std::cmp::Ordering) -> bool| E::Boolean(ops::cmp(&x, &y).map_or(false, f));
                match *op {
                    "==" => E::Boolean(ops::eq(&x, &y)),
                    "!=" => E::Boolean(!ops::eq(&x, &y)),
                    "<" => o(|o| o.is_lt()),
                    "<=" => o(|o| o.is_le()),
                    ">" => o(|o| o.is_gt()),
                    ">=" => o(|o| o.is_ge()),
                    "&&" => E::Boolean(ops::truthy(&x) && ops::truthy(&y)),
                    "||" => E::Boolean(ops::truthy(&x) || ops::truthy(&y)),
                    "to" => match (&x, &y) {
                        (E::Integer(m), E::Integer(n)) => {
                            if n.saturating_sub(*m) > 60 {
                                return Err(Stop::Outside);
                            }
                            E::List((*m..*n).map(E::Integer).collect())
                        }
                        _ => return Err(Stop::Error(9)),
                    },
                    op => {
                        let size = |e: &E| match e {
                            E::List(l) => l.len(),
                            E::String(s) => s.len(),
                            _ => 0,
                        };
                        if size(&x) + size(&y) > 300 || (op == "*" && !matches!((&x, &y), (E::Integer(_), E::Integer(_)))) {
                            return Err(Stop::Outside);
                        }
                        match ops::model(op, &x, &y) {
                            // An element that is None is not told apart from one that is not there.
                            Some(E::None) => return Err(Stop::Outside),
                            Some(v) => v,
                            None => return Err(Stop::Error(9)),
                        }
                    }
                }
            }
            T::Not(a) => E::Boolean(!ops::truthy(&self.data(a, env)?)),
            T::Len(a) => match self.data(a, env)? {
                E::List(l) => E::Integer(l.len() as i64),
                E::String(s) => E::Integer(s.chars().count() as i64),
                E::Symbol(_) => return Err(Stop::Outside),
                _ => return Err(Stop::Error(9)),
            },
            T::At(a, b) => {
                let x = self.data(a, env)?;
                let i = self.data(b, env)?;
                match (x, i) {
                    (E::List(l), E::Integer(i)) => usize::try_from(i).ok().and_then(|i| l.get(i).cloned()).unwrap_or(E::None),
                    (E::Symbol(_), _) | (_, E::Symbol(_)) => return Err(Stop::Outside),
                    _ => E::None,
                }
            }
            T::Do(l) => {
                for x in &l[..l.len() - 1] {
                    self.eval(x, env)?;
                }
                return self.eval(&l[l.len() - 1], env);
            }
            T::Let(n, a) => {
                let v = self.eval(a, env)?;
                env.insert(n.clone(), v);
                E::None
            }
            T::If(c, a, b) => {
                let c = match self.eval(c, env)? {
                    V::D(E::Symbol(_)) => return Err(Stop::Outside),
                    V::D(e) => ops::truthy(&e),
                    _ => true,
                };
                return if c {
                    self.eval(a, env)
                } else {
                    match b {
                        Some(b) => self.eval(b, env),
                        None => Ok(V::D(E::None)),
                    }
                };
            }
            T::Cond(c, a, b) => {
                let (c, a, b) = (c.clone(), a.clone(), b.clone());
                return self.eval(&T::If(c, a, Some(b)), env);
            }
            T::For(n, l, b) => match self.eval(l, env)? {
                V::D(E::List(items)) => {
                    let mut r = vec![];
                    for x in items {
                        env.insert(n.clone(), V::D(x));
                        match self.eval(b, env)? {
                            V::D(e) => r.push(e),
                            _ => return Err(Stop::Outside),
                        }
                    }
                    E::List(r)
                }
                _ => return Err(Stop::Error(4)),
            },
            T::Lam(p, b) => return Ok(V::Lam(p.clone(), b.clone(), Rc::new(env.clone()))),
            T::Mac(p, b) => return Ok(V::Mac(p.clone(), b.clone())),
            T::App(f, args) => {
                let mut f = self.eval(f, env)?;
                for (i, a) in args.iter().enumerate() {
                    match f {
                        V::Lam(p, b, c) => {
                            let x = self.eval(a, env)?;
                            let mut inner = (*c).clone();
                            inner.insert(p, x);
                            self.calls += 1;
                            f = self.eval(&b, &mut inner)?;
                        }
                        V::Mac(p, b) => {
                            let x = self.eval(a, env)?;
                            env.insert(p, x);
                            self.calls += 1;
                            f = self.eval(&b, env)?;
                        }
                        // A name that is not bound is the name of a program.
                        V::D(E::String(_) | E::Symbol(_)) => {
                            for a in &args[i..] {
                                self.data(a, env)?;
                            }
                            return Err(Stop::Error(7));
                        }
                        V::D(_) => return Err(Stop::Error(1)),
                    }
                }
                return Ok(f);
            }
            T::Print(a) => {
                for (i, x) in a.iter().enumerate() {
                    let e = self.data(x, env)?;
                    if matches!(e, E::Symbol(_)) {
                        return Err(Stop::Outside);
                    }
                    self.out.push_str(&format!("{:?}", e));
                    self.out.push(if i + 1 < a.len() { ' ' } else { '\n' });
                }
                E::None
            }
            T::Try(a) => match self.eval(a, env) {
                Err(Stop::Error(c)) => {
                    self.handled += 1;
                    E::Integer(c)
                }
                r => return r,
            },
        }))
    }
}

// ---------------------------------------------------------------- generator

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    I,
    B,
    S,
    L,
    F,
    F2,
    M,
}
const NAMES: &[&str] = &["x", "y", "z", "a", "b", "c", "n", "f", "g", "h"];

#[derive(Clone)]
pub struct Scope {
    pub vars: BTreeMap<String, K>,
    pub in_lambda: bool,
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub fuel: i64,
    /// How often an expression of the wrong kind is made: 1 in this many.
    pub wrong: u64,
    /// Leave out what prints or binds.
    pub pure: bool,
}

impl G<'_> {
    fn kind(&mut self) -> K {
        *self.s.pick(&[K::I, K::I, K::I, K::B, K::S, K::L, K::L, K::F, K::F2])
    }
    fn b(&mut self, k: K, sc: &Scope) -> Box<T> {
        Box::new(self.expr(k, sc))
    }
    pub fn lit(&mut self, k: K) -> T {
        let s = &mut *self.s;
        match k {
            K::I => T::Lit(E::Integer(if s.chance(1, 25) { gen::int(s) } else { s.range(-9, 20) })),
            K::B => T::Lit(E::Boolean(s.bool())),
            K::S => T::Lit(E::String(s.pick(&["", "a", "b", "ab", "é", "x y", "nosuch"]).to_string())),
            K::L => {
                let n = s.below(4);
                T::Lit(E::List((0..n).map(|_| E::Integer(s.range(-5, 9))).collect()))
            }
            K::F => T::Lam("x".into(), Rc::new(T::Bin("+", Box::new(T::Var("x".into())), Box::new(T::Lit(E::Integer(s.range(0, 5))))))),
            K::F2 => T::Lam(
                "x".into(),
                Rc::new(T::Lam("y".into(), Rc::new(T::Bin("-", Box::new(T::Var("x".into())), Box::new(T::Var("y".into())))))),
            ),
            K::M => T::Mac("x".into(), Rc::new(T::Var("x".into()))),
        }
    }
    fn var(&mut self, k: K, sc: &Scope) -> Option<T> {
        let c: Vec<&String> = sc.vars.iter().filter(|v| *v.1 == k).map(|v| v.0).collect();
        if c.is_empty() {
            return None;
        }
        Some(T::Var(self.s.pick(&c).to_string()))
    }
    /// Some expression; none of the names it binds are visible afterwards.
    pub fn expr(&mut self, k: K, sc: &Scope) -> T {
        self.fuel -= 1;
        let k = if self.wrong > 0 && self.s.chance(1, self.wrong) { self.kind() } else { k };
        if self.fuel <= 0 || self.s.chance(1, 4) {
            if self.s.chance(2, 3) {
                if let Some(v) = self.var(k, sc) {
                    return v;
                }
            }
            return self.lit(k);
        }
        // Constructs that fit every kind.
        match self.s.below(14) {
            0 if self.s.chance(1, 3) => return T::Cond(self.b(K::B, sc), self.b(k, sc), self.b(k, sc)),
            0 => return T::If(self.b(K::B, sc), self.b(k, sc), Some(self.b(k, sc))),
            1 => {
                let mut sc = sc.clone();
                let mut l = self.stmts(&mut sc, 3);
                l.push(self.expr(k, &sc));
                return T::Do(l);
            }
            2 if k == K::I => return T::App(self.b(K::F, sc), vec![self.expr(K::I, sc)]),
            3 if k == K::I => {
                let f = self.b(K::F2, sc);
                let x = self.expr(K::I, sc);
                let y = self.expr(K::I, sc);
                return if self.s.bool() { T::App(f, vec![x, y]) } else { T::App(Box::new(T::App(f, vec![x])), vec![y]) };
            }
            4 => {
                // (p -> body) arg
                let (p, pk) = (self.s.pick(NAMES).to_string(), self.kind());
                let mut inner = sc.clone();
                inner.vars.insert(p.clone(), pk);
                inner.in_lambda = true;
                let body = self.expr(k, &inner);
                let a = self.expr(pk, sc);
                return T::App(Box::new(T::Lam(p, Rc::new(body))), vec![a]);
            }
            5 if !self.pure && !sc.in_lambda && k == K::I => {
                if let Some(m) = self.var(K::M, sc) {
                    return T::App(Box::new(m), vec![self.expr(K::I, sc)]);
                }
            }
            6 if self.wrong > 0 => return T::Try(self.b(k, sc)),
            _ => {}
        }
        match k {
            K::I => match self.s.below(8) {
                0..=3 => T::Bin(*self.s.pick(&["+", "-", "*", "+", "-", "//", "%"]), self.b(K::I, sc), self.b(K::I, sc)),
                4 => T::Len(self.b(K::L, sc)),
                5 => T::At(self.b(K::L, sc), self.b(K::I, sc)),
                6 => T::Len(self.b(K::S, sc)),
                _ => T::App(self.b(K::F, sc), vec![self.expr(K::I, sc)]),
            },
            K::B => match self.s.below(7) {
                0 | 1 => T::Bin(*self.s.pick(&["==", "!=", "<", "<=", ">", ">="]), self.b(K::I, sc), self.b(K::I, sc)),
                2 => T::Bin(*self.s.pick(&["&&", "||"]), self.b(K::B, sc), self.b(K::B, sc)),
                3 => T::Not(self.b(K::B, sc)),
                4 => T::Bin(*self.s.pick(&["==", "!=", "<"]), self.b(K::L, sc), self.b(K::L, sc)),
                5 => T::Bin(*self.s.pick(&["==", "!=", "<"]), self.b(K::S, sc), self.b(K::S, sc)),
                _ => T::Not(self.b(K::L, sc)),
            },
            K::S => T::Bin("+", self.b(K::S, sc), self.b(K::S, sc)),
            K::L => match self.s.below(6) {
                0 => {
                    let n = self.s.below(4);
                    T::List((0..n).map(|_| self.expr(K::I, sc)).collect())
                }
                1 | 2 => {
                    let n = self.s.pick(NAMES).to_string();
                    let l = self.b(K::L, sc);
                    let mut inner = sc.clone();
                    inner.vars.insert(n.clone(), K::I);
                    let b = if self.pure {
                        self.b(K::I, &inner)
                    } else {
                        let mut v = self.stmts(&mut inner, 2);
                        v.push(self.expr(K::I, &inner));
                        Box::new(T::Do(v))
                    };
                    T::For(n, l, b)
                }
                3 => {
                    // Ranges stay small.
                    let lo = T::Lit(E::Integer(self.s.range(-3, 5)));
                    let hi = T::Bin("%", self.b(K::I, sc), Box::new(T::Lit(E::Integer(self.s.range(3, 12)))));
                    T::Bin("to", Box::new(lo), Box::new(hi))
                }
                _ => T::Bin("+", self.b(K::L, sc), self.b(K::L, sc)),
            },
            K::F | K::F2 => {
                let p = self.s.pick(NAMES).to_string();
                let mut inner = sc.clone();
                inner.vars.insert(p.clone(), K::I);
                inner.in_lambda = true;
                let body = self.expr(if k == K::F { K::I } else { K::F }, &inner);
                T::Lam(p, Rc::new(body))
            }
            K::M => {
                let p = self.s.pick(NAMES).to_string();
                let mut inner = sc.clone();
                inner.vars.insert(p.clone(), K::I);
                // Its body runs wherever it is applied, so it reads nothing but its parameter there.
                let mut v = self.stmts(&mut inner, 2);
                v.push(self.expr(K::I, &inner));
                T::Mac(p, Rc::new(T::Do(v)))
            }
        }
    }
    /// Statements; what they certainly bind becomes visible.
    pub fn stmts(&mut self, sc: &mut Scope, max: u64) -> Vec<T> {
        let n = self.s.below(max + 1);
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.stmt(sc));
        }
        v
    }
    pub fn stmt(&mut self, sc: &mut Scope) -> T {
        self.fuel -= 1;
        match self.s.below(if self.pure { 4 } else { 10 }) {
            0..=3 => {
                let n = self.s.pick(NAMES).to_string();
                let k = if !sc.in_lambda && !self.pure && self.s.chance(1, 8) { K::M } else { self.kind() };
                let e = self.expr(k, sc);
                sc.vars.insert(n.clone(), k);
                T::Let(n, Box::new(e))
            }
            4 | 5 => {
                let n = 1 + self.s.below(2);
                T::Print(
                    (0..n)
                        .map(|_| {
                            let k = *self.s.pick(&[K::I, K::L, K::S, K::B]);
                            self.expr(k, sc)
                        })
                        .collect(),
                )
            }
            6 => {
                let c = self.b(K::B, sc);
                let mut one = sc.clone();
                let a = self.stmts(&mut one, 2);
                let mut two = sc.clone();
                let b = self.stmts(&mut two, 2);
                let body = |mut v: Vec<T>| {
                    if v.is_empty() {
                        v.push(T::Lit(E::None));
                    }
                    Box::new(T::Do(v))
                };
                if b.is_empty() {
                    T::If(c, body(a), None)
                } else {
                    let (a, b) = (body(a), body(b));
                    if self.s.chance(1, 4) {
                        T::Cond(c, a, b)
                    } else {
                        T::If(c, a, Some(b))
                    }
                }
            }
            7 => {
                let e = self.expr(K::L, sc);
                e
            }
            _ => {
                let k = self.kind();
                self.expr(k, sc)
            }
        }
    }
}

pub fn to_e(v: &V) -> Option<E> {
    match v {
        V::D(E::Symbol(_)) => None,
        V::D(e) => Some(e.clone()),
        _ => None,
    }
}

fn c11(s: &mut Src, cx: &mut Cx) -> R {
    let fuel = s.range(5, 70);
    let wrong = *s.pick(&[0, 40, 40, 12]);
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: false };
    let mut g = G { s, fuel, wrong, pure: false };
    let mut prog = vec![];
    while g.fuel > 0 && prog.len() < 12 {
        prog.push(g.stmt(&mut sc));
    }
    let k = g.kind();
    prog.push(g.expr(k, &sc));
    let mut m = Interp::new();
    let mut env = Env::new();
    let mut want = Ok(V::D(E::None));
    for t in &prog {
        want = m.eval(t, &mut env);
        if want.is_err() {
            break;
        }
    }
    let text = prog.iter().map(show).collect::<Vec<_>>().join(";\n");
    if m.calls > 0 {
        cx.label("calls");
    }
    if m.handled > 0 {
        cx.label("handled error");
    }
    cx.nontrivial(3000 - m.fuel >= 5 && (m.calls > 0 || !m.out.is_empty()));
    if matches!(want, Err(Stop::Outside)) {
        return discard();
    }
    cx.go(text.clone())?;
    let mut denv = sut::fresh_env();
    sut::clean_cwd();
    let (out, printed) = sut::captured(|| sut::run_in(&mut denv, &text));
    let printed = String::from_utf8_lossy(&printed).to_string();
    match (&want, &out) {
        (Err(Stop::Outside), _) => return discard(),
        (Err(Stop::Error(c)), Out::Err(e)) => ensure!(e.code() == *c, "{}\nends with error code {} ({:?}) instead of {}", text, e.code(), e, c),
        (Ok(v), Out::Val(e)) => {
            if let Some(w) = to_e(v) {
                ensure!(val::same(e, &w), "{}\ngives {:?} instead of {:?}", text, e, w);
            } else {
                match v {
                    V::Lam(..) => ensure!(matches!(e, E::Lambda(..)), "{}\ngives {:?} instead of a function", text, e),
                    V::Mac(..) => ensure!(matches!(e, E::Macro(..)), "{}\ngives {:?} instead of a macro", text, e),
                    _ => {}
                }
            }
        }
        (Err(Stop::Error(c)), o) => fail!("{}\ngives {} instead of an error with code {}", text, o.show(), c),
        (Ok(v), o) => fail!("{}\ngives {} instead of {:?}", text, o.show(), v),
    }
    ensure!(printed == m.out, "{}\nprints {:?} instead of {:?}", text, printed, m.out);
    for n in NAMES {
        match (env.get(*n), denv.get(n)) {
            (None, None) => {}
            (Some(v), Some(e)) => {
                if let Some(w) = to_e(v) {
                    ensure!(val::same(&e, &w), "{}\nleaves {} = {:?} instead of {:?}", text, n, e, w);
                }
            }
            (v, e) => fail!("{}\nleaves {} = {:?} instead of {:?}", text, n, e, v),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- functions are pure

fn uses(t: &T, out: &mut Vec<String>) {
    match t {
        T::Lit(_) => {}
        T::Var(n) => out.push(n.clone()),
        T::List(l) | T::Do(l) | T::Print(l) => l.iter().for_each(|x| uses(x, out)),
        T::Bin(_, a, b) | T::At(a, b) => {
            uses(a, out);
            uses(b, out)
        }
        T::Not(a) | T::Len(a) | T::Let(_, a) | T::Try(a) => uses(a, out),
        T::If(c, a, b) => {
            uses(c, out);
            uses(a, out);
            b.iter().for_each(|b| uses(b, out))
        }
        T::Cond(c, a, b) => {
            uses(c, out);
            uses(a, out);
            uses(b, out)
        }
        T::For(_, a, b) => {
            uses(a, out);
            uses(b, out)
        }
        T::Lam(_, b) | T::Mac(_, b) => uses(b, out),
        T::App(f, a) => {
            uses(f, out);
            a.iter().for_each(|x| uses(x, out))
        }
    }
}

fn rebind(s: &mut Src, n: &str) -> String {
    let v = match s.below(5) {
        0 => "99".to_string(),
        1 => "\"changed\"".into(),
        2 => "[7, 7]".into(),
        3 => "(q -> 5)".into(),
        _ => "None".into(),
    };
    match s.below(8) {
        0 | 1 => format!("let {} = {}", n, v),
        2 => format!("for {} in [{}] {{ 0 }}", n, v),
        3 => format!("({} ~> 0) {}", n, v),
        4 => format!("sys@set {} {}", n, v),
        5 => format!("unbind {}", n),
        6 => format!("exec '(let {} = {})", n, v),
        _ => format!("sys@unset {}", n),
    }
}

fn c10(s: &mut Src, cx: &mut Cx) -> R {
    let fuel = s.range(4, 40);
    let wrong = *s.pick(&[0, 0, 25]);
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: false };
    let mut g = G { s, fuel, wrong, pure: true };
    let mut prog = vec![];
    for _ in 0..g.s.below(5) {
        prog.push(g.stmt(&mut sc));
    }
    // Only data and functions are captured.
    g.fuel = g.fuel.max(12);
    g.pure = g.s.bool();
    let two = g.s.bool();
    let f = loop {
        let f = g.expr(if two { K::F2 } else { K::F }, &sc);
        if matches!(f, T::Lam(..)) || g.fuel < -20 {
            break f;
        }
    };
    let mut used = vec![];
    uses(&f, &mut used);
    let argv: Vec<T> = (0..if two { 2 } else { 1 }).map(|_| g.lit(K::I)).collect();
    let args: Vec<String> = argv.iter().map(show).collect();
    // Programs that the reference interpreter does not cover may need too much time or memory.
    let mut whole = prog.clone();
    whole.push(T::App(Box::new(f.clone()), argv));
    let model = match Interp::new().eval(&T::Do(whole), &mut Env::new()) {
        Err(Stop::Outside) => return discard(),
        Ok(V::D(e)) => Some(Ok(e)),
        Ok(_) => None,
        Err(Stop::Error(c)) => Some(Err(c)),
    };
    let s = g.s;
    let defs: Vec<String> = prog.iter().map(show).collect();
    let mut changes = vec![];
    let mut hit = false;
    let mut names: Vec<String> = sc.vars.keys().cloned().collect();
    // Builtins that the function uses are captured as well.
    names.extend(["len", "+", "debug", "err"].iter().map(|x| x.to_string()));
    for n in names {
        if s.chance(2, 3) {
            hit |= used.contains(&n);
            if n == "+" || n == "err" {
                if !n.starts_with('+') {
                    changes.push(format!("let {} = 1", n));
                }
            } else {
                changes.push(rebind(s, &n));
            }
        }
    }
    let partial = two && s.bool();
    let def = if partial { format!("let ff = {}; let fp = ff {}", show(&f), args[0]) } else { format!("let ff = {}", show(&f)) };
    let call = if partial { format!("fp {}", args[1]) } else { format!("ff {}", args.join(" ")) };
    cx.nontrivial(hit);
    cx.go(format!("{}; {}; {}; {}; {}", defs.join("; "), def, call, changes.join("; "), call))?;
    let mut env = sut::fresh_env();
    for d in &defs {
        if !matches!(sut::run_in(&mut env, d), Out::Val(_)) {
            return discard();
        }
    }
    if !matches!(sut::run_in(&mut env, &def), Out::Val(_)) || !matches!(env.get("ff"), Some(E::Lambda(..))) {
        return discard();
    }
    let before = env.bindings.clone();
    let (r1, p1) = sut::captured(|| sut::run_in(&mut env, &call));
    // Builtins are compared by name only: their addresses are not reliable.
    match (&model, &r1) {
        (Some(Ok(w)), Out::Val(v)) => ensure!(val::same(v, w), "{} in {} gives {:?} instead of {:?}", call, cx.case, v, w),
        (Some(Err(c)), Out::Err(e)) => ensure!(e.code() == *c, "{} in {} fails with {:?} instead of code {}", call, cx.case, e, c),
        (None, _) => {}
        (w, o) => fail!("{} in {} gives {} instead of {:?}", call, cx.case, o.show(), w),
    }
    let same_env = |a: &BTreeMap<String, E>, b: &BTreeMap<String, E>| a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k == l && format!("{:?}", v) == format!("{:?}", w));
    ensure!(same_env(&before, &env.bindings), "calling {} in {} changes the variables of the caller", call, cx.case);
    for c in &changes {
        match sut::run_in(&mut env, c) {
            Out::Val(_) => {}
            // The builtin that the change needs may be gone by now.
            Out::Err(_) => {}
            o => fail!("{} gives {}", c, o.show()),
        }
    }
    let (r2, p2) = sut::captured(|| sut::run_in(&mut env, &call));
    ensure!(p1 == p2, "{}\nprints {:?} first and {:?} afterwards", cx.case, String::from_utf8_lossy(&p1), String::from_utf8_lossy(&p2));
    match (&r1, &r2) {
        (Out::Val(a), Out::Val(b)) => ensure!(
            val::same(a, b) || (matches!(a, E::Lambda(..) | E::Macro(..) | E::Builtin(..)) && format!("{:?}", a) == format!("{:?}", b)) || contains_code(a),
            "{}\ngives {:?} first and {:?} afterwards",
            cx.case,
            a,
            b
        ),
        (Out::Err(a), Out::Err(b)) => ensure!(a.code() == b.code(), "{}\nfails with {:?} first and {:?} afterwards", cx.case, a, b),
        (a, b) => fail!("{}\ngives {} first and {} afterwards", cx.case, a.show(), b.show()),
    }
    Ok(())
}

fn contains_code(e: &E) -> bool {
    match e {
        E::List(l) => l.iter().any(contains_code),
        E::Map(m) => m.values().any(contains_code),
        E::Lambda(..) | E::Macro(..) | E::Builtin(..) | E::Symbol(_) => true,
        _ => false,
    }
}

/// Where a function can mention a name. `$` is the mention; every other name is bound in the form.
/// The second part says what the name stands for: a list, a number, a function, a map or anything.
const MENTIONS: &[(&str, char)] = &[
    ("$", 'a'),
    ("[$]", 'a'),
    ("[x, [$, x]]", 'a'),
    ("{ $ }", 'a'),
    ("{ $; x }", 'a'),
    ("{ x; $ }", 'a'),
    ("{ let t = $; [t, x] }", 'a'),
    ("{ let $n = $; [$n, x] }", 'a'),
    ("{ let t = { let t = $; t }; t }", 'a'),
    ("if $ { 1 } else { 2 }", 'a'),
    ("if x { $ } else { 0 }", 'a'),
    ("if x { 0 } else { $ }", 'a'),
    ("if True { if False { 0 } else { $ } }", 'a'),
    ("for q in $ { q }", 'l'),
    ("for q in $ { [q, x] }", 'l'),
    ("for q in [1, 2] { $ }", 'a'),
    ("for q in [x] { for r in [q] { [q, r, $] } }", 'a'),
    ("for q in $ { for r in $ { [q, r] } }", 'l'),
    ("for $n in $ { $n }", 'l'),
    ("{ for q in $ { 0 }; x }", 'l'),
    ("{ a = $, b = x }", 'a'),
    ("{ a = { b = [$] } }", 'a'),
    ("{ a = $ }@a", 'a'),
    ("(w -> $) x", 'a'),
    ("(w -> v -> [$, w, v]) x 2", 'a'),
    ("(w -> w) $", 'a'),
    ("($n -> [$n, x]) $", 'a'),
    ("((w -> (v -> $)) 1) 2", 'a'),
    ("(w ~> $) x", 'a'),
    ("(w ~> [w, x]) $", 'a'),
    ("(w ~> v ~> [w, $]) 1 2", 'a'),
    ("$ == x", 'a'),
    ("x == $", 'a'),
    ("$ && x", 'a'),
    ("False || $", 'a'),
    ("! $", 'a'),
    ("$ + x", 'i'),
    ("x - $", 'i'),
    ("0 - $", 'i'),
    ("$ * $ + x", 'i'),
    ("0 to $", 'i'),
    ("[5, 6, 7]@($)", 'i'),
    ("$@0", 'l'),
    ("$@0 == x", 'l'),
    ("len $", 'l'),
    ("$ + [x]", 'l'),
    ("$@a", 'm'),
    ("[$@a, x]", 'm'),
    ("$ x", 'f'),
    ("($ x)", 'f'),
    ("($) x", 'f'),
    ("[$ 1, $ x]", 'f'),
    ("$ ($ x)", 'f'),
    ("fn@map $ [x, 1]", 'f'),
    ("fn@map (q -> $ q) [x, 1]", 'f'),
    ("fn@map (q -> [q, $]) [x, 1]", 'a'),
    ("fn@map (q -> [q, x]) $", 'l'),
    ("fn@filter (q -> q == $) [x, 1, 2]", 'a'),
    ("fn@reduce (p -> q -> [p, q, $]) x [1, 2]", 'a'),
    ("fn@apply $ [x]", 'f'),
    ("fn@compose $ $ x", 'f'),
    ("fn@const $ x", 'a'),
    ("err@try ($) (e -> 1)", 'a'),
    ("err@try (err@throw 1) (e -> $)", 'a'),
    ("err@try ([$, x]@0) (e -> 1)", 'a'),
    ("list@rev $", 'l'),
    ("{ let g = w -> [w, $]; g x }", 'a'),
    ("{ let g = w -> v -> [w, v, $]; let h = g x; h 3 }", 'a'),
    ("{ let g = w ~> [w, $]; g x }", 'a'),
    ("{ let z = if x { $ } else { 1 }; z }", 'a'),
    ("[for q in [1] { if q { [$] } }]", 'a'),
];

/// A function says the same as the function in which each outer name is replaced by what it stood for
/// when the function was made: wherever the name is mentioned, whatever happens to the name afterwards,
/// and wherever the function is called.
fn c10_forms(s: &mut Src, cx: &mut Cx) -> R {
    let k = s.usize(1, 3);
    let names = ["out", "far", "items"];
    let mut body = vec![];
    let mut plain = vec![];
    let mut lets = vec![];
    for n in names.iter().take(k) {
        let (form, kind) = *s.pick(MENTIONS);
        let v = match kind {
            'i' => val::lit(&E::Integer(s.range(-3, 5))).unwrap(),
            'l' => val::lit(&E::List(val::ints(s, 4))).unwrap(),
            'm' => "{ a = 4 }".to_string(),
            'f' => s.pick(&["(r -> [r])", "(r -> [r, [r]])", "(r -> 8)"]).to_string(),
            _ => loop {
                let v = val::value(s, 1);
                if let Some(t) = val::lit(&v) {
                    break t;
                }
            },
        };
        lets.push(format!("let {} = {}", n, v));
        // What the name stands for, where it is meant; where the form binds the name, another name will do.
        body.push(form.replace("$n", n).replace('$', n));
        plain.push(form.replace("$n", "unrelated").replace('$', &v));
    }
    let join = |l: &[String]| if l.len() == 1 { l[0].clone() } else { format!("[{}]", l.iter().map(|x| format!("({})", x)).collect::<Vec<_>>().join(", ")) };
    let (b, p) = (join(&body), join(&plain));
    // A block is a block also where a map could be.
    let arg = s.pick(&["1", "0", "True", "2"]).to_string();
    let (pre, make, call) = match s.below(10) {
        0 => ("", "let f = x -> BODY", "f ARG"),
        1 => ("", "let f = x -> { BODY }", "f ARG"),
        2 => ("", "let fs = [x -> BODY]", "fs@0 ARG"),
        3 => ("", "let o = { run = x -> BODY }", "o@run ARG"),
        4 => ("", "let f = x -> y -> BODY", "f ARG 5"),
        5 => ("", "let f = y -> x -> BODY; let f = f 5", "f ARG"),
        6 => ("let mk = y -> x -> BODY", "let f = mk 3", "f ARG"),
        7 => ("let use = out -> far -> items -> h -> h ARG", "let f = x -> BODY", "use 91 92 93 f"),
        8 => ("", "let f = { 0; x -> BODY }", "{ let far = 0; f ARG }"),
        _ => ("", "let f = if True { x -> BODY } else { 0 }", "fn@apply f [ARG]"),
    };
    let spoil: Vec<String> = {
        let mut v = vec![];
        for n in names.iter().take(k) {
            if s.chance(3, 4) {
                v.push(rebind(s, n));
            }
        }
        v
    };
    let put = |t: &str, b: &str| t.replace("BODY", b).replace("ARG", &arg);
    let text = [lets.clone(), vec![put(pre, &b), put(make, &b)], spoil.clone(), vec![put(call, "")]].concat().into_iter().filter(|t| !t.is_empty()).collect::<Vec<_>>().join(";\n");
    let bare = [vec![put(pre, &p), put(make, &p)], vec![put(call, "")]].concat().into_iter().filter(|t| !t.is_empty()).collect::<Vec<_>>().join(";\n");
    cx.nontrivial(!spoil.is_empty());
    cx.go(format!("{}\n# should be as\n{}", text, bare))?;
    let (a, pa) = sut::captured(|| sut::run(&text));
    let (b, pb) = sut::captured(|| sut::run(&bare));
    ensure!(pa == pb, "{}\nprints {:?} and {:?}", cx.case, String::from_utf8_lossy(&pa), String::from_utf8_lossy(&pb));
    match (&a, &b) {
        (Out::Val(a), Out::Val(b)) => ensure!(val::same(a, b) || contains_code(a) && contains_code(b), "{}\ngives {:?} and {:?}", cx.case, a, b),
        (Out::Err(a), Out::Err(b)) => ensure!(a.code() == b.code(), "{}\nfails with {:?} and {:?}", cx.case, a, b),
        (a, b) => fail!("{}\ngives {} and {}", cx.case, a.show(), b.show()),
    }
    Ok(())
}

/// Functions made in a loop, or by another function, each keep the value they saw.
fn c10_loop(s: &mut Src, cx: &mut Cx) -> R {
    let items = val::list(s, 1, 6);
    if items.is_empty() {
        return discard();
    }
    let n = items.len();
    let i = s.idx(n);
    let arg = E::Integer(s.range(0, 9));
    let mut env = sut::fresh_env();
    env.define("items", E::List(items.clone()));
    env.define("arg", arg.clone());
    let maker = match s.below(5) {
        0 => "let fs = for it in items { q -> [it, q] }",
        1 => "let mk = it -> q -> [it, q]; let fs = for k in items { mk k }",
        2 => "let fs = fn@map (it -> (q -> [it, q])) items",
        3 => "let fs = []; for it in items { let fs = fs + [q -> [it, q]] }",
        _ => "let fs = for it in items { let loc = it; { let it = 0; q -> [loc, q] } }",
    };
    let spoil = *s.pick(&["let it = 0", "for it in [1, 2] { it }", "let items = []", "let loc = 3; let k = 4; let q = 5", "let mk = 1", "unbind items"]);
    let call = match s.below(3) {
        0 => format!("fs@{} arg", i),
        1 => format!("let one = fs@{}; one arg", i),
        _ => format!("fn@apply (fs@{}) [arg]", i),
    };
    let text = format!("{}; {}; {}", maker, spoil, call);
    cx.nontrivial(n >= 2);
    cx.go(format!("{}   # items = {:?}", text, items))?;
    let out = sut::run_in(&mut env, &text);
    let want = E::List(vec![items[i].clone(), arg]);
    match &out {
        Out::Val(v) if val::same(v, &want) => Ok(()),
        o => fail!("{} gives {} instead of {:?}", cx.case, o.show(), want),
    }
}

// ---------------------------------------------------------------- currying

fn c12(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.usize(1, 4);
    let names: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for c in ["x", "y", "z", "w"].iter().take(n) {
            v.push(c.to_string());
        }
        v
    };
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: true };
    let kinds: Vec<K> = (0..n).map(|_| *s.pick(&[K::I, K::I, K::L, K::B, K::S])).collect();
    for (p, k) in names.iter().zip(&kinds) {
        sc.vars.insert(p.clone(), *k);
    }
    let fuel = s.range(3, 25);
    let mut g = G { s, fuel, wrong: 0, pure: false };
    let k = *g.s.pick(&[K::I, K::L, K::B, K::S]);
    let body = if g.s.chance(1, 3) { T::List(names.iter().map(|n| T::Var(n.clone())).collect()) } else { g.expr(k, &sc) };
    let mut used = vec![];
    uses(&body, &mut used);
    let argv: Vec<T> = kinds.iter().map(|k| g.lit(*k)).collect();
    let args: Vec<String> = argv.iter().map(show).collect();
    let s = g.s;
    let lam = names.iter().rev().fold(body.clone(), |b, p| T::Lam(p.clone(), Rc::new(b)));
    let mut m = Interp::new();
    let want = match m.eval(&T::App(Box::new(lam), argv), &mut Env::new()) {
        Err(Stop::Outside) | Ok(V::Lam(..)) | Ok(V::Mac(..)) => return discard(),
        Ok(V::D(e)) => Ok(e),
        Err(Stop::Error(c)) => Err(c),
    };
    let f = names.iter().rev().fold(show(&body), |b, p| format!("({} -> {})", p, b));
    let mut forms: Vec<String> = vec![];
    forms.push(format!("{} {}", f, args.join(" ")));
    forms.push(args.iter().fold(f.clone(), |acc, a| format!("({} {})", acc, a)));
    // Random groups, with a name for every step.
    let mut t = format!("let p0 = {}", f);
    let mut i = 0;
    let mut step = 0;
    while i < n {
        let m = s.usize(1, n - i);
        t.push_str(&format!("; let p{} = p{} {}", step + 1, step, args[i..i + m].join(" ")));
        step += 1;
        i += m;
    }
    t.push_str(&format!("; p{}", step));
    forms.push(t);
    forms.push(format!("fn@apply {} [{}]", f, args.join(", ")));
    forms.push(format!("(fn@curry {} {}) {}", f, n, args.join(" ")));
    forms.push(format!("let ff = {}; let c = fn@curry ff {}; {}", f, n, args.iter().fold("c".to_string(), |acc, a| format!("({} {})", acc, a))));
    if n == 2 {
        forms.push(format!("fn@flip {} {} {}", f, args[1], args[0]));
        forms.push(format!("((fn@flip {}) {}) {}", f, args[1], args[0]));
    }
    if n == 1 {
        forms.push(format!("fn@compose {} fn@id {}", f, args[0]));
        forms.push(format!("(fn@compose fn@id) {} {}", f, args[0]));
        forms.push(format!("fn@const ({} {}) 1", f, args[0]));
    }
    let used_params = names.iter().filter(|n| used.contains(n)).count();
    cx.nontrivial(n >= 2 && used_params >= 2);
    // What else is bound where the function is applied makes no difference.
    let mut caller = val::Prog::new();
    super::lib::noise(s, &mut caller);
    caller.text = forms.join("\n");
    cx.go(caller.show())?;
    for f in &forms {
        caller.text = f.clone();
        let (o, p) = sut::captured(|| caller.run());
        let ok = match (&want, &o) {
            (Ok(a), Out::Val(b)) => val::same(a, b),
            (Err(c), Out::Err(e)) => e.code() == *c,
            _ => false,
        };
        ensure!(ok, "{}\ngives {} instead of {:?}", f, o.show(), want);
        let p = String::from_utf8_lossy(&p).to_string();
        ensure!(p == m.out, "{}\nprints {:?} instead of {:?}", f, p, m.out);
    }
    Ok(())
}

/// The functions of the library that take fewer arguments than they need.
fn c12_builtins(s: &mut Src, cx: &mut Cx) -> R {
    const ONE: &[&str] = &["(q -> [q, 1])", "(q -> q == 2)", "fn@id", "(fn@const 3)", "((a -> b -> [a, b]) 9)", "(q -> { let item = 4; let x = 7; let list = 1; [q, item] })", "(ops@\"*\" 3)", "(q ~> [q])"];
    const TWO: &[&str] = &["(a -> b -> [a, b])", "(a -> b -> a - b)", "(a -> b -> b)", "(acc -> item -> { let list = 4; [item, acc] })", "(f -> x -> [f, x, f])"];
    let which = s.below(15);
    let (f, args): (&str, Vec<String>) = {
        let l = E::List(if s.bool() { val::ints(s, 6) } else { val::list(s, 0, 6) });
        let Some(lt) = val::lit(&l) else { return discard() };
        let n = |s: &mut Src| val::lit(&E::Integer(if s.chance(1, 10) { gen::int(s) } else { s.range(-1, 8) })).unwrap();
        let v = |s: &mut Src| loop {
            if let Some(t) = val::lit(&val::value(s, 1)) {
                break t;
            }
        };
        // Nesting is for short lists of short things.
        let fold = |s: &mut Src, lt: String| {
            let start = v(s);
            let few = lt.matches(',').count() <= 8 && lt.len() + start.len() <= 300;
            vec![s.pick(if few { TWO } else { &TWO[1..3] }).to_string(), start, lt]
        };
        match which {
            0 => ("fn@map", vec![s.pick(ONE).to_string(), lt]),
            1 => ("fn@filter", vec![s.pick(ONE).to_string(), lt]),
            // Nesting is for short lists.
            2 | 3 => ("fn@reduce", fold(s, lt)),
            4 => ("list@take", vec![n(s), lt]),
            5 => ("list@drop", vec![n(s), lt]),
            6 => ("math@l-rsh", vec![n(s), n(s)]),
            7 => ("math@a-rsh", vec![n(s), n(s)]),
            8 => ("math@rsh", vec![n(s), n(s)]),
            9 => ("math@log", vec![n(s), n(s)]),
            10 => ("string@split", vec![gen::quote(s.pick(&["a", ",", "ab", " "])), gen::quote(&gen::soup(s, 12))]),
            11 => ("fn@compose", vec![s.pick(ONE).to_string(), s.pick(ONE).to_string(), v(s)]),
            12 => ("fn@flip", vec![s.pick(TWO).to_string(), v(s), v(s)]),
            13 => ("fn@const", vec![v(s), v(s)]),
            _ => (*s.pick(&["(fn@curry list@foldl 3)", "(fn@curry fn@reduce 3)"]), fold(s, lt)),
        }
    };
    let n = args.len();
    let all = format!("{} {}", f, args.join(" "));
    let mut forms = vec![args.iter().fold(f.to_string(), |acc, a| format!("({} {})", acc, a))];
    let mut t = format!("let p0 = {}", f);
    let (mut i, mut step) = (0, 0);
    while i < n {
        let m = s.usize(1, n - i);
        t.push_str(&format!("; let p{} = p{} {}", step + 1, step, args[i..i + m].join(" ")));
        step += 1;
        i += m;
    }
    forms.push(format!("{}; p{}", t, step));
    // A partial application used for something else before.
    let k = s.usize(1, n - 1);
    let mut other: Vec<String> = args[k..].to_vec();
    let last = other.len() - 1;
    other[last] = s.pick(&["[]", "[9]", "7", "\"z\""]).to_string();
    forms.push(format!("let part = {} {}; err@try (part {}) (e -> 0); part {}", f, args[..k].join(" "), other.join(" "), args[k..].join(" ")));
    // Given to another function, which has the same names for its parameters.
    forms.push(format!("(f -> acc -> list -> x -> f {}) ({} {}) 1 2 3", args[k..].join(" "), f, args[..k].join(" ")));
    forms.push(format!("fn@apply {} [{}]", f, args.join(", ")));
    cx.nontrivial(true);
    let mut caller = val::Prog::new();
    super::lib::noise(s, &mut caller);
    caller.text = format!("{}\n{}", all, forms.join("\n"));
    cx.go(caller.show())?;
    let want = sut::run(&all);
    for form in &forms {
        caller.text = form.clone();
        let o = caller.run();
        let ok = match (&want, &o) {
            (Out::Val(a), Out::Val(b)) => val::same(a, b) || contains_code(a) && contains_code(b),
            (Out::Err(_), Out::Err(_)) => true,
            _ => false,
        };
        ensure!(ok, "{}\ngives {}, but {} gives {}", form, o.show(), all, want.show());
    }
    Ok(())
}

// ---------------------------------------------------------------- errors

fn c15(s: &mut Src, cx: &mut Cx) -> R {
    // (program, code); every one ends with that error.
    let (bad, code): (String, i64) = match s.below(10) {
        8 => {
            let call = *s.pick(&["parse@expr {}", "exec (parse@expr {})", "eval (parse@expr ({} + \"\"))", "fn@map parse@expr [{}]"]);
            let text = *s.pick(&["let = 3", "[1, 2", "1 1 )", "(", "for x 3", "let x 3", "1.", "é", "if", "x ->"]);
            (call.replace("{}", &format!("\"{}\"", text)), 8)
        }
        9 => (s.pick(&[
            "sys@import \"nosuchfile\"", "sys@include \"badprog\"", "cd \"nosuchdir\"", "sys@cd \"nosuchdir\"", "fs@rm \"nosuchfile\"", "fs@ls \"nosuchdir\"",
            "1 >> \"nosuchdir/f\"", "1 >>> \"nosuchfile\"", "echo << \"nosuchfile\"", "parse@json \"{\"", "parse@toml \"= 1\"", "nosuchprogram 1 | len", "unbind 5", "insert 1 2 3",
            "chess@print 5", "console@write 1 \"a\" 2", "fmt@wrap \"a\" \"b\"", "time@sleep \"x\"", "list@zip 1 2", "rand@int 5", "fn@? 1 2", "vals 5", "lines 5", "1 to \"a\"", "widget@create 1 2",
        ]).to_string(), 0),
        0 => (format!("{} {}", s.pick(&["5", "[1]", "True", "1.5", "(1 + 1)"]), s.pick(&["1", "\"a\"", "None", "[2]"])), 1),
        1 => (format!("for i in {} {{ i }}", s.pick(&["5", "\"abc\"", "None", "True", "{ a = 1 }"])), 4),
        2 => (s.pick(&["1 + \"a\"", "1 // 0", "5 % 0", "9223372036854775807 + 1", "len 5", "keys [1]", "int \"x\"", "insert [] 4 1", "math@sqrt \"x\"", "fs@read \"nosuchfile\"", "fn@map 1 2 3 4", "list@nth 3 []"]).to_string(), 9),
        3 => (format!("{} 1", s.pick(&["nosuchprogram", "\"nosuchprogram\"", "not-a-thing"])), 7),
        4 => (s.pick(&["(f -> f f) (f -> f f)", "{ let w = x -> x x; w w }"]).to_string(), 5),
        5 => ("./noexec 1".to_string(), 6),
        6 => (format!("err@try ({}) 5", s.pick(&["1 // 0", "nosuchprogram 1", "for i in 5 { i }"])), 1),
        _ => ("err@try 1".to_string(), 9),
    };
    // Wrap it so that it is still evaluated, with a marker printed before and one that must not be.
    let mut text = format!("({})", bad);
    let mut depth = 0;
    for _ in 0..s.below(5) {
        depth += 1;
        text = match s.below(13) {
            0 => format!("[1, {}, (debug \"after\")]", text),
            1 => format!("(1 + {})", text),
            2 => format!("{{ let t = {}; debug \"after\" }}", text),
            3 => format!("(if {} {{ debug \"after\" }} else {{ debug \"after\" }})", text),
            4 => format!("(for i in [1, 2] {{ {} }})", text),
            5 => format!("((x -> {}) 1)", text),
            6 => format!("((x -> debug \"after\") {})", text),
            7 => format!("(fn@map (x -> {}) [1, 2])", text),
            8 => format!("(eval '{})", text),
            9 => format!("(exec '{})", text),
            10 => format!("((x ~> {}) 1)", text),
            11 => format!("(debug \"x\" {})", text),
            _ => format!("{{ {}; debug \"after\" }}", text),
        };
    }
    if code == 5 {
        // A function that recurses must see every builtin, so it stays at the top.
    }
    let inner = text.clone();
    let field = s.below(4);
    let nested = s.bool();
    let handler = match field {
        0 => "(e -> [\"caught\", e@code])",
        1 => "(e -> [\"caught\", e@message])",
        2 => "(e -> [\"caught\", keys e])",
        _ => "(e -> [\"caught\", e])",
    };
    let handler = if s.chance(1, 4) {
        let via = s.bool();
        format!("(e -> {{ let h = {}; {} }})", handler, if via { "h e" } else { "(h) e" })
    } else {
        handler.to_string()
    };
    let mut prog = format!("err@try {} {}", inner, handler);
    if nested {
        // An outer handler must not see what an inner one has handled, and a handler's error goes out.
        prog = match s.below(3) {
            0 => format!("err@try ({}) (e -> \"outer\")", prog),
            1 => format!("{{ let r = err@try ({}) (e -> \"outer\"); r }}", prog),
            _ => format!("err@try (err@try {} (e -> 1 + \"a\")) (e -> [\"caught\", {}])", inner, "e@code"),
        };
    }
    let refail = prog.contains("(e -> 1 + \"a\")");
    cx.label(format!("code {}", code));
    cx.nontrivial(depth >= 2);
    cx.go(prog.clone())?;
    sut::clean_cwd();
    std::fs::write("noexec", "x").unwrap();
    std::fs::write("badprog", "let = 3").unwrap();
    let mut env = sut::fresh_env();
    let direct = sut::captured(|| sut::run_in(&mut env.clone(), &inner));
    let (Out::Err(err), said) = direct else { fail!("{} gives {} instead of an error", inner, direct.0.show()) };
    // Some of the failures are of no particular kind.
    let code = if code == 0 { err.code() } else { code };
    ensure!(err.code() == code, "{} fails with code {} ({:?}) instead of {}", inner, err.code(), err, code);
    ensure!(!String::from_utf8_lossy(&said).contains("after"), "{} goes on after its error", inner);
    let (out, said) = sut::captured(|| sut::run_in(&mut env, &prog));
    ensure!(!String::from_utf8_lossy(&said).contains("after"), "{} goes on after its error", prog);
    let got = match &out {
        Out::Val(E::List(l)) if l.len() == 2 && l[0] == E::String("caught".into()) => l[1].clone(),
        o => fail!("{} gives {} instead of what the handler returns", prog, o.show()),
    };
    let want_msg = err.to_string();
    if refail {
        ensure!(got == E::Integer(9), "{}: the error of a handler has the code {:?}", prog, got);
        return Ok(());
    }
    match field {
        0 => ensure!(got == E::Integer(code), "{}: code {:?} instead of {}", prog, got, code),
        1 => ensure!(matches!(&got, E::String(m) if *m == want_msg || code == 5), "{}: message {:?} instead of {:?}", prog, got, want_msg),
        2 => {
            let k: Vec<E> = ["code", "expression", "message"].iter().map(|k| E::String(k.to_string())).collect();
            ensure!(got == E::List(k), "{}: fields {:?}", prog, got)
        }
        _ => {
            let E::Map(m) = &got else { fail!("{}: the handler gets {:?}", prog, got) };
            ensure!(m.get("code") == Some(&E::Integer(code)), "{}: code {:?}", prog, m.get("code"));
            let expr = match sut::parse(&inner) {
                Ok(E::Do(l)) if l.len() == 1 => l[0].clone(),
                Ok(e) => e,
                Err(_) => return discard(),
            };
            let ok = match m.get("expression") {
                Some(x) => format!("{:?}", x) == format!("{:?}", expr) || format!("({:?})", x) == format!("{:?}", expr),
                None => false,
            };
            ensure!(ok, "{}: the expression is {:?} instead of {:?}", prog, m.get("expression"), expr);
        }
    }
    Ok(())
}
