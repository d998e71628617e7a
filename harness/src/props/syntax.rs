//! Properties of the grammar: what a program text means, whatever its layout.

use super::lex::{reference_lex, K};
use crate::engine::*;
use crate::{ensure, fail, gen, sut};
use dune::{Environment, Expression as E};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "Random syntax trees over every construct of the language, printed with as few brackets as precedence allows, in random layout. Non-trivial: at least two nested constructs.",
            subs: &[Sub { name: "roundtrip", quick: 600_000, thorough: 10_000_000, f: c03 }],
            cpu_limit: Some(60),
            assumptions: &["The grammar is the one of the pinned commit (after the repairs listed in known_findings.json), restated in the printer."],
        },
        Prop {
            id: "C04",
            rule: "Token sequences of valid and invalid programs, each laid out twice with different spaces, newlines and comments. Non-trivial: the two texts differ and hold at least four tokens.",
            subs: &[
                Sub { name: "valid", quick: 300_000, thorough: 5_000_000, f: c04_valid },
                Sub { name: "soup", quick: 300_000, thorough: 5_000_000, f: c04_soup },
            ],
            cpu_limit: Some(60),
            assumptions: &[],
        },
        Prop {
            id: "C35",
            rule: "Nests of random constructs, parsed at one depth and at twice that depth, with the work counted in memory allocations. Non-trivial: the deeper program has at least 12 levels.",
            subs: &[Sub { name: "cost", quick: 40_000, thorough: 300_000, f: c35 }],
            cpu_limit: Some(100),
            assumptions: &["The number of allocations stands for the work of the parser; a polynomial of degree up to five is accepted."],
        },
    ]
}

// ---------------------------------------------------------------- syntax trees

pub type Toks = Vec<String>;

/// A piece of program: its tokens and the expression it means.
#[derive(Clone)]
pub struct P {
    pub toks: Toks,
    pub e: E,
    /// Constructs nested in it.
    pub n: usize,
    /// What sort of construct is outermost; the printer asks for it.
    pub k: Kd,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kd {
    Atom,
    Quote,
    NotFirst,
    Absorbs,
    ForIf,
    Other,
}

fn t(s: &str) -> Toks {
    vec![s.to_string()]
}
fn sym(s: &str) -> Box<E> {
    Box::new(E::Symbol(s.into()))
}
fn grp(e: E) -> E {
    E::Group(Box::new(e))
}

const ARITH: &[&str] = &["+", "-", "*", "//", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "to", "@", "!"];

pub fn symbol(s: &mut Src) -> String {
    match s.below(3) {
        0 => gen::name(s),
        1 => gen::ident(s),
        _ => {
            const CS: &[u8] = b"abcxyzABC0189_+-.~\\/?&<>$%#^:";
            let n = 1 + s.len(8);
            let r: String = (0..n).map(|_| *s.pick(CS) as char).collect();
            let l = reference_lex(&r);
            if l.len() == 1 && l[0].0 == K::Sym && !l[0].2 {
                r
            } else {
                gen::name(s)
            }
        }
    }
}

struct G<'a> {
    s: &'a mut Src,
    fuel: i64,
}

impl G<'_> {
    fn leaf(&mut self) -> P {
        let s = &mut *self.s;
        let (toks, e) = match s.below(8) {
            0 | 1 => {
                let n = symbol(s);
                (t(&n), E::Symbol(n))
            }
            2 => {
                let n = gen::int(s);
                (t(&n.to_string()), E::Integer(n))
            }
            3 => {
                let f = gen::float(s);
                (t(&gen::float_lit(f)), E::Float(f))
            }
            4 => {
                let x = gen::long(s, 10);
                (t(&gen::quote(&x)), E::String(x))
            }
            5 => (t("True"), E::Boolean(true)),
            6 => (t("False"), E::Boolean(false)),
            _ => {
                if s.bool() {
                    (t("None"), E::None)
                } else {
                    (vec!["(".into(), ")".into()], E::None)
                }
            }
        };
        P { toks, e, n: 0, k: Kd::Atom }
    }

    fn seq(parts: &[&Toks]) -> Toks {
        parts.iter().flat_map(|p| p.iter().cloned()).collect()
    }

    /// Statements and what they mean, as a block or a whole program.
    fn stmts(&mut self, min: usize) -> (Toks, Vec<E>, usize) {
        let n = min + self.s.below(4) as usize;
        let mut toks = vec![];
        let mut es = vec![];
        let mut cnt = 0;
        let mut open = false;
        for i in 0..n {
            let p = self.l(8);
            // After an `if` without a semicolon, an operator would continue its last branch.
            if open && reference_lex(&p.toks[0])[0].0 == K::Op {
                toks.push(";".into());
            }
            toks.extend(p.toks);
            cnt += p.n + 1;
            let is_for_if = matches!(p.e, E::For(..) | E::If(..));
            es.push(p.e);
            let last = i + 1 == n;
            open = (last || is_for_if) && self.s.bool();
            if !open {
                toks.push(";".into());
            }
        }
        (toks, es, cnt)
    }

    fn block(&mut self) -> P {
        let (toks, es, n) = self.stmts(1);
        P { toks: Self::seq(&[&t("{"), &toks, &t("}")]), e: E::Do(es), n: n + 1, k: Kd::Atom }
    }

    /// An expression that fits where the grammar wants level `lv`.
    fn l(&mut self, lv: u32) -> P {
        self.fuel -= 1;
        if self.fuel <= 0 {
            return self.leaf();
        }
        let pick = self.s.below(12);
        match lv {
            1 => match pick {
                0..=5 => self.leaf(),
                6 | 7 => {
                    let p = self.l(8);
                    P { toks: Self::seq(&[&t("("), &p.toks, &t(")")]), e: grp(p.e), n: p.n + 1, k: Kd::Atom }
                }
                8 => {
                    let p = self.l(2);
                    P { toks: Self::seq(&[&t("'"), &p.toks]), e: E::Quote(Box::new(p.e)), n: p.n + 1, k: Kd::Quote }
                }
                9 => {
                    let mut toks = t("[");
                    let mut es = vec![];
                    let mut n = 1;
                    for i in 0..self.s.below(4) {
                        if i > 0 {
                            toks.push(",".into());
                        }
                        let p = self.l(8);
                        toks.extend(p.toks);
                        es.push(p.e);
                        n += p.n;
                    }
                    toks.push("]".into());
                    P { toks, e: E::List(es), n, k: Kd::Atom }
                }
                10 => {
                    let mut toks = t("{");
                    let mut m = BTreeMap::new();
                    let mut n = 1;
                    for i in 0..self.s.below(4) {
                        if i > 0 {
                            toks.push(",".into());
                        }
                        let key = if self.s.chance(1, 6) { self.s.pick(ARITH).to_string() } else { symbol(self.s) };
                        toks.push(key.clone());
                        toks.push("=".into());
                        let p = self.l(8);
                        toks.extend(p.toks);
                        m.insert(key, p.e);
                        n += p.n;
                    }
                    toks.push("}".into());
                    P { toks, e: E::Map(m), n, k: Kd::Atom }
                }
                _ => self.block(),
            },
            2 => {
                if pick < 9 {
                    return self.l(1);
                }
                let mut head = self.l(1);
                while head.k == Kd::Quote {
                    head = self.leaf();
                }
                let mut toks = head.toks;
                let mut es = vec![head.e];
                let mut n = head.n + 1;
                let k = 1 + self.s.below(3);
                for i in 0..k {
                    toks.push("@".into());
                    if self.s.chance(1, 8) {
                        let op = self.s.pick(ARITH).to_string();
                        toks.push(op.clone());
                        es.push(E::Symbol(op));
                        continue;
                    }
                    let mut p = self.l(1);
                    if p.k == Kd::Quote && i + 1 < k {
                        p = self.leaf();
                    }
                    toks.extend(p.toks);
                    es.push(p.e);
                    n += p.n;
                }
                P { toks, e: E::Apply(sym("@"), es), n, k: Kd::Other }
            }
            3 | 4 | 6 => {
                if pick < 8 {
                    let p = self.l(lv - 1);
                    return p;
                }
                let ops: &[&str] = match lv {
                    3 => &["*", "//", "%"],
                    4 => &["+", "-"],
                    _ => &["&&", "||"],
                };
                let first = self.l(lv - 1);
                // A negation in front is read as a call of `!` where a call may stand.
                let first = if first.k == Kd::NotFirst { self.leaf() } else { first };
                self.chain(first, lv, ops)
            }
            5 => match pick {
                0..=7 => self.l(4),
                8 | 9 => {
                    let first = self.l(4);
                    self.chain(first, 5, &["==", "!=", ">=", "<=", ">", "<"])
                }
                10 => {
                    let (a, b) = (self.l(4), self.l(4));
                    P { toks: Self::seq(&[&a.toks, &t("to"), &b.toks]), e: E::Apply(sym("to"), vec![a.e, b.e]), n: a.n + b.n + 1, k: Kd::Other }
                }
                _ => {
                    let a = self.l(4);
                    P { toks: Self::seq(&[&t("!"), &a.toks]), e: E::Apply(sym("!"), vec![a.e]), n: a.n + 1, k: Kd::NotFirst }
                }
            },
            7 => match pick {
                0..=2 => self.l(6),
                3 => {
                    let v = symbol(self.s);
                    let list = if self.s.bool() {
                        let (a, b) = (self.l(4), self.l(4));
                        P { toks: Self::seq(&[&a.toks, &t("to"), &b.toks]), e: E::Apply(sym("to"), vec![a.e, b.e]), n: a.n + b.n + 1, k: Kd::Other }
                    } else {
                        self.l(4)
                    };
                    let b = self.block();
                    P {
                        toks: Self::seq(&[&t("for"), &t(&v), &t("in"), &list.toks, &b.toks]),
                        e: E::For(v, Box::new(list.e), Box::new(b.e)),
                        n: list.n + b.n + 1,
                        k: Kd::ForIf,
                    }
                }
                4 | 5 => self.iff(3),
                6 => {
                    let v = if self.s.chance(1, 6) { self.s.pick(ARITH).to_string() } else { symbol(self.s) };
                    let p = self.l(8);
                    P { toks: Self::seq(&[&t("let"), &t(&v), &t("="), &p.toks]), e: E::Assign(v, Box::new(p.e)), n: p.n + 1, k: Kd::Absorbs }
                }
                7 | 8 => {
                    let v = symbol(self.s);
                    let p = self.l(8);
                    if self.s.bool() {
                        P { toks: Self::seq(&[&t(&v), &t("->"), &p.toks]), e: E::Lambda(v, Box::new(p.e), Environment::new()), n: p.n + 1, k: Kd::Absorbs }
                    } else {
                        P { toks: Self::seq(&[&t(&v), &t("~>"), &p.toks]), e: E::Macro(v, Box::new(p.e)), n: p.n + 1, k: Kd::Absorbs }
                    }
                }
                9 => {
                    let op = self.s.pick(ARITH).to_string();
                    let mut toks = t(&op);
                    let mut es = vec![];
                    let mut n = 1;
                    for _ in 0..self.s.below(3) {
                        let p = self.l(5);
                        toks.extend(p.toks);
                        es.push(p.e);
                        n += p.n;
                    }
                    let e = if es.is_empty() { E::Symbol(op) } else { E::Apply(sym(&op), es) };
                    P { toks, e, n, k: Kd::Other }
                }
                _ => {
                    let f = self.l(2);
                    let mut toks = f.toks;
                    let mut es = vec![];
                    let mut n = f.n + 1;
                    for _ in 0..1 + self.s.below(3) {
                        let p = self.l(5);
                        toks.extend(p.toks);
                        es.push(p.e);
                        n += p.n;
                    }
                    P { toks, e: E::Apply(Box::new(f.e), es), n, k: Kd::Other }
                }
            },
            _ => {
                if pick < 9 {
                    return self.l(7);
                }
                let mut head = self.l(7);
                if head.k == Kd::Absorbs {
                    head = self.leaf();
                }
                let mut toks = head.toks;
                let mut es = vec![head.e];
                let mut n = head.n + 1;
                let k = 1 + self.s.below(3);
                for i in 0..k {
                    let op = *self.s.pick(&["|", "|", "|", ">>", ">>>", "<<"]);
                    let mut p = self.l(7);
                    if p.k == Kd::Absorbs && i + 1 < k {
                        p = self.leaf();
                    }
                    toks.push(op.into());
                    toks.extend(p.toks);
                    n += p.n;
                    match op {
                        "|" => es.push(p.e),
                        "<<" => {
                            let last = es.pop().unwrap();
                            es.push(E::Apply(sym("<<"), vec![p.e]));
                            es.push(last);
                        }
                        _ => es.push(E::Apply(sym(op), vec![p.e])),
                    }
                }
                P { toks, e: grp(E::Apply(sym("|"), es)), n, k: Kd::Other }
            }
        }
    }

    fn chain(&mut self, first: P, lv: u32, ops: &[&str]) -> P {
        let mut r = first;
        for _ in 0..1 + self.s.below(3) {
            let op = *self.s.pick(ops);
            let b = self.l(lv - 1);
            r = P {
                toks: Self::seq(&[&r.toks, &t(op), &b.toks]),
                e: grp(E::Apply(sym(op), vec![r.e, b.e])),
                n: r.n + b.n + 1,
                k: Kd::Other,
            };
        }
        r
    }

    fn iff(&mut self, depth: u32) -> P {
        // The condition stands at level six itself, so it may start with a negation.
        let c = self.l(6);
        let a = self.l(4);
        let mut toks = Self::seq(&[&t("if"), &c.toks, &a.toks]);
        let mut n = c.n + a.n + 1;
        let mut other = E::None;
        if self.s.chance(2, 3) {
            let b = if depth > 0 && self.s.chance(1, 3) { self.iff(depth - 1) } else { self.l(4) };
            toks.push("else".into());
            toks.extend(b.toks);
            n += b.n;
            other = grp(b.e);
        }
        P { toks, e: E::If(Box::new(c.e), Box::new(a.e), Box::new(other)), n, k: Kd::ForIf }
    }
}

/// A random program: its tokens, what it means, and how many constructs it nests.
pub fn program(s: &mut Src) -> (Toks, E, usize) {
    let fuel = 4 + s.below(4 + s.size) as i64;
    let mut g = G { s, fuel };
    let (toks, es, n) = g.stmts(1);
    (toks, E::Do(es), n)
}

// ---------------------------------------------------------------- layout

fn symbol_like(k: K) -> bool {
    matches!(k, K::Sym | K::Kw | K::Op | K::Bool | K::Float | K::Int)
}

/// May the second token follow the first one directly?
fn may_touch(a: &str, b: &str) -> bool {
    let l = reference_lex(&format!("{}{}", a, b));
    let la = reference_lex(a);
    let lb = reference_lex(b);
    if la.len() != 1 || lb.len() != 1 || l.len() != 2 || l[0] != la[0] || l[1] != lb[0] {
        return false;
    }
    !(symbol_like(l[0].0) && symbol_like(l[1].0) && a != "@" && b != "@")
}

fn gap(s: &mut Src) -> String {
    let mut r = String::new();
    for _ in 0..1 + s.below(2) {
        match s.below(12) {
            0..=5 => r.push(' '),
            6 => r.push('\n'),
            7 => r.push('\t'),
            8 => r.push_str("\r\n"),
            9 => r.push('\u{c}'),
            10 => r.push('\r'),
            _ => {
                r.push_str(" #");
                let c = gen::text(s, 8);
                r.extend(c.chars().filter(|c| *c != '\n' && *c != '\r'));
                r.push_str(s.pick(&["\n", "\r\n", "\n ", "\r"]));
            }
        }
    }
    r
}

pub fn layout(s: &mut Src, toks: &Toks) -> String {
    let plain = s.bool();
    let mut r = String::new();
    if !plain && s.chance(1, 8) {
        r.push_str(&gap(s));
    }
    for (i, x) in toks.iter().enumerate() {
        if i > 0 {
            if s.chance(1, 3) && may_touch(&toks[i - 1], x) {
            } else if plain {
                r.push(' ');
            } else {
                r.push_str(&gap(s));
            }
        }
        r.push_str(x);
    }
    if !plain && s.chance(1, 8) {
        r.push_str(&gap(s));
    }
    r
}

// ---------------------------------------------------------------- checks

/// Bit-exact equality for floats, structural for the rest.
fn same(a: &E, b: &E) -> bool {
    a == b && format!("{:?}", a) == format!("{:?}", b)
}

fn c03(s: &mut Src, cx: &mut Cx) -> R {
    let (toks, want, n) = program(s);
    let text = layout(s, &toks);
    cx.go(text.clone())?;
    cx.nontrivial(n >= 3);
    cx.label(match n {
        0..=2 => "up to 2 constructs",
        3..=9 => "3 to 9 constructs",
        _ => "10 or more constructs",
    });
    match sut::guarded_parse(&text) {
        Err(p) => fail!("parsing gives a {}", p),
        Ok(Err(e)) => fail!("the program is rejected: {:?}; it should mean {:?}", e, want),
        Ok(Ok(got)) => ensure!(same(&got, &want), "the program means {:?} instead of {:?}", got, want),
    }
    Ok(())
}

fn compare_layouts(a: &str, b: &str) -> R {
    let ra = sut::guarded_parse(a);
    let rb = sut::guarded_parse(b);
    match (ra, rb) {
        (Err(p), _) | (_, Err(p)) => fail!("parsing gives a {}", p),
        (Ok(Ok(x)), Ok(Ok(y))) => ensure!(same(&x, &y), "one layout means {:?} and the other {:?}", x, y),
        (Ok(Err(_)), Ok(Err(_))) => {}
        (Ok(Ok(x)), Ok(Err(e))) => fail!("the first layout means {:?} but the second is rejected: {:?}", x, e),
        (Ok(Err(e)), Ok(Ok(x))) => fail!("the second layout means {:?} but the first is rejected: {:?}", x, e),
    }
    Ok(())
}

fn c04_valid(s: &mut Src, cx: &mut Cx) -> R {
    let (toks, _, _) = program(s);
    let a = layout(s, &toks);
    let b = layout(s, &toks);
    cx.go(format!("{}\n=====\n{}", a, b))?;
    cx.nontrivial(a != b && toks.len() >= 4);
    compare_layouts(&a, &b)
}

fn c04_soup(s: &mut Src, cx: &mut Cx) -> R {
    let mut toks: Toks = vec![];
    let n = 1 + s.len(16);
    while toks.len() < n {
        let (p, _, _) = if s.chance(1, 5) { program(s) } else { (t(s.pick(&["x", "y", "let", "=", "(", ")", "[", "]", "{", "}", ",", ";", "'", "->", "~>", "+", "-", "*", "|", ">>", "<<", "@", "!", "if", "else", "for", "in", "to", "1", "-2", "2.5", "\"s\"", "None", "True", "&&", "==", "<", "then"])), E::None, 0) };
        let i = s.idx(p.len());
        let j = i + s.idx(p.len() - i) + 1;
        toks.extend(p[i..j].iter().cloned());
    }
    let a = layout(s, &toks);
    let b = layout(s, &toks);
    cx.go(format!("{}\n=====\n{}", a, b))?;
    cx.nontrivial(a != b && toks.len() >= 4);
    compare_layouts(&a, &b)
}

fn c35(s: &mut Src, cx: &mut Cx) -> R {
    // A pattern of constructs that is repeated down the nest.
    const FORMS: &[(&str, &str)] = &[
        ("(", ")"),
        ("[", "]"),
        ("{ ", " }"),
        ("{ k = ", " }"),
        ("{ x; ", " }"),
        ("{ let y = ", "; y }"),
        ("'", ""),
        ("x -> ", ""),
        ("x -> { ", " }"),
        ("(x -> ", ") 1"),
        ("(f ", ")"),
        ("(f a ", ")"),
        ("(1 + ", ")"),
        ("(", " + 1)"),
        ("(2 * ", " == 3 && b)"),
        ("[1, ", ", 2]"),
        ("if x { ", " } else { y }"),
        ("if (", ") { y }"),
        ("if x y else ", ""),
        ("for i in l { ", " }"),
        ("{ for i in (", ") { i } }"),
        ("(a | ", ")"),
        ("(", " | b)"),
        ("! (", ")"),
        ("(f ! ", ")"),
        ("m@(", ")"),
        ("let v = ", ""),
    ];
    let plen = 1 + s.idx(3);
    let pattern: Vec<usize> = (0..plen).map(|_| s.idx(FORMS.len())).collect();
    let build = |d: usize| {
        let mut t = String::new();
        for i in 0..d {
            t.push_str(FORMS[pattern[i % plen]].0);
        }
        t.push('z');
        for i in (0..d).rev() {
            t.push_str(FORMS[pattern[i % plen]].1);
        }
        t
    };
    let d = 6 + s.idx(3);
    let (small, large) = (build(d), build(2 * d));
    cx.go(format!("depth {} of {:?}: {}", 2 * d, pattern, large))?;
    cx.nontrivial(true);
    let cost = |t: &str| -> Result<u64, Fail> {
        let before = crate::allocations();
        match sut::guarded_parse(t) {
            Err(p) => fail!("parsing gives a {}", p),
            Ok(_) => {}
        }
        Ok(crate::allocations() - before)
    };
    let (a, b) = (cost(&small)?, cost(&large)?);
    cx.label(format!("growth by 2^{}", ((b as f64 / a as f64).log2()).round() as i64));
    ensure!(b <= a * 40, "parsing takes {} allocations at depth {} but {} at depth {}", a, d, b, 2 * d);
    Ok(())
}
