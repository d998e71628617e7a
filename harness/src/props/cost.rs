//! What running a program costs, counted in allocations.

use crate::engine::*;
use crate::sut::{self, Out};
use crate::{ensure, fail};
use dune::{Environment, Expression as E};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C46",
        rule: "Patterns of one to four forms repeated down a nest around one call, whose number of runs is counted; chains of functions that mention earlier ones; loops and recursions of random bodies; and values nested or joined and then used. Each is built at a size and at twice that size, and the allocations are compared. Non-trivial: the larger one is nested, chained or repeated at least twelve times.",
        subs: &[
            Sub { name: "nest", quick: 24_000, thorough: 1_000_000, f: nest },
            Sub { name: "code", quick: 16_000, thorough: 600_000, f: code },
            Sub { name: "library", quick: 6_000, thorough: 200_000, f: library },
            Sub { name: "chain", quick: 8_000, thorough: 300_000, f: chain },
            Sub { name: "loop", quick: 8_000, thorough: 300_000, f: loops },
            Sub { name: "data", quick: 6_000, thorough: 200_000, f: data },
        ],
        cpu_limit: Some(60),
        assumptions: &["Cost is the number and size of allocations, which does not depend on the clock; work that allocates nothing is not seen except through the time limit of a case."],
    }]
}

static TICKS: AtomicU64 = AtomicU64::new(0);

fn env() -> Environment {
    let mut env = sut::fresh_env();
    env.define_builtin(
        "tick",
        |_, _| {
            TICKS.fetch_add(1, Ordering::SeqCst);
            Ok(E::Integer(7))
        },
        "",
    );
    env
}

/// What evaluating the program gives, and what it costs.
fn cost(text: &str) -> Result<(Out, u64), Fail> {
    let mut env = env();
    let e = match sut::parse(text) {
        Ok(e) => e,
        Err(e) => fail!("{:?} is rejected: {}", text, e),
    };
    let before = crate::work();
    let out = sut::eval_in(&mut env, &e);
    Ok((out, crate::work() - before))
}

/// Forms around an expression, each of which evaluates it once and gives it back.
const FORMS: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]@0"),
    ("[1, ", ", 2]@1"),
    ("{k = ", "}@k"),
    ("{ ", " }"),
    ("{ let v = ", "; v }"),
    ("{ 1; ", " }"),
    ("if True { ", " } else { 0 }"),
    ("if False { 0 } else { ", " }"),
    ("if (", ") == 7 { 7 } else { 0 }"),
    ("if (", ") != 7 { 0 } else { 7 }"),
    ("if (", ") > 3 && True { 7 } else { 0 }"),
    ("if False || (", ") > 3 { 7 } else { 0 }"),
    ("if !((", ") == 7) { 0 } else { 7 }"),
    ("(q -> q) (", ")"),
    ("(q ~> q) (", ")"),
    ("(a -> b -> b) 1 (", ")"),
    ("(a -> b -> a) (", ") 1"),
    ("(a ~> b ~> a) (", ") 1"),
    ("(a -> b -> c -> b) 0 (", ") 1"),
    ("((a -> b -> a) (", ")) 1"),
    ("(_ -> ", ") ()"),
    ("(_ ~> ", ") ()"),
    ("fn@id (", ")"),
    ("fn@const (", ") 1"),
    ("(", ") + 0"),
    ("0 + (", ")"),
    ("(", ") - 0"),
    ("14 - (", ")"),
    ("(", ") * 1"),
    ("49 // (", ")"),
    ("(", ") % 100"),
    ("ops@\"+\" (", ") 0"),
    ("(ops@\"+\" 0) (", ")"),
    ("list@head [", "]"),
    ("(list@rev [", "])@0"),
    ("(list@tail [0, ", "])@0"),
    ("list@nth 0 [", "]"),
    ("math@abs (", ")"),
    ("math@max (", ") 0"),
    ("math@min 9 (", ")"),
    ("math@sum (", ") 0"),
    ("math@sum [", "]"),
    ("math@floor (", ")"),
    ("math@pow (", ") 1"),
    ("int (", ")"),
    ("int (str (", "))"),
    ("eval '(", ")"),
    ("exec '(", ")"),
    ("err@try (", ") (e -> 0)"),
    ("err@try (math@abs x) (e -> ", ")"),
    ("(", ") | fn@id"),
    ("(", ") | (q -> q + 0) | fn@id"),
    ("(fn@map fn@id [", "])@0"),
    ("(fn@map (q -> ", ") [1])@0"),
    ("(fn@filter (q -> True) [", "])@0"),
    ("fn@reduce (a -> b -> a + b) 0 [", "]"),
    ("fn@reduce (a -> b -> b) (", ") []"),
    ("fn@compose fn@id fn@id (", ")"),
    ("(for q in [", "] { q })@0"),
    ("(for q in [1] { ", " })@0"),
    ("(insert [1] 0 (", "))@0"),
    ("(vals {k = ", "})@0"),
    ("((", ") to 9)@0"),
    ("len (string@chars (\"a\" * (", ")))"),
    ("len (0 to (", "))"),
    ("len ([1] * (", "))"),
    ("rand@choose [", "]"),
    ("({k = ", "})@k"),
    ("({f = q -> q})@f (", ")"),
    ("(", ")@0 == None; 7"),
];

fn nest(s: &mut Src, cx: &mut Cx) -> R {
    let plen = 1 + s.idx(4);
    let pattern: Vec<usize> = (0..plen).map(|_| s.idx(FORMS.len() - 1)).collect();
    let build = |d: usize| {
        let mut t = String::from("tick ()");
        for i in (0..d).rev() {
            let (a, b) = FORMS[pattern[i % plen]];
            t = format!("({}{}{})", a, t, b);
        }
        t
    };
    // At least twice the pattern, so that what one form costs inside another is in both.
    let d = plen * (2 + s.idx(2)).max(6_usize.div_ceil(plen));
    let (small, large) = (build(d), build(2 * d));
    cx.go(large.clone())?;
    cx.nontrivial(true);
    let (_, a) = cost(&small)?;
    TICKS.store(0, Ordering::SeqCst);
    let (o, b) = cost(&large)?;
    let n = TICKS.load(Ordering::SeqCst);
    cx.label(format!("growth by 2^{}", (b as f64 / a as f64).log2().round() as i64));
    ensure!(o == Out::Val(E::Integer(7)), "{} gives {}", large, o.show());
    ensure!(n == 1, "the innermost call of {} is made {} times", large, n);
    ensure!(b <= a * 12, "running takes {} units at depth {} but {} at depth {}", a, d, b, 2 * d);
    Ok(())
}

/// Everything that code is made of, around a piece of code that need not run.
const PARTS: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("[x, ", ", y]"),
    ("{k = ", "}"),
    ("{k = 1, l = ", ", m = z}"),
    ("{ ", " }"),
    ("{ x; ", "; y }"),
    ("{ ", "; x }"),
    ("let v = ", ""),
    ("let x = ", "; x"),
    ("if ", " { x } else { y }"),
    ("if x { ", " } else { y }"),
    ("if x { y } else { ", " }"),
    ("if x { y } else if z ", " else { 1 }"),
    ("for i in ", " { i }"),
    ("for i in x { ", " }"),
    ("for i in x { i; ", " }"),
    ("a -> ", ""),
    ("x -> ", ""),
    ("a -> b -> ", ""),
    ("a ~> ", ""),
    ("(a -> ", ") x"),
    ("(a ~> ", ") x"),
    ("f (", ")"),
    ("f x (", ") y"),
    ("(", ") x"),
    ("(", ") x y"),
    ("x + (", ")"),
    ("(", ") * y"),
    ("x == (", ")"),
    ("(", ") < y"),
    ("x && (", ")"),
    ("(", ") || y"),
    ("!(", ")"),
    ("x to (", ")"),
    ("(", ")@k"),
    ("x@(", ")"),
    ("(", ") | f"),
    ("x | (", ")"),
    ("(", ") | f | g"),
    ("'(", ")"),
    ("eval '(", ")"),
    ("err@try (", ") g"),
    ("err@try x (e -> ", ")"),
    ("x >> (", ")"),
    ("(", ") >>> y"),
    ("fn@map (", ") x"),
];

/// Code that is defined, quoted, shown or compared costs what its size does.
fn code(s: &mut Src, cx: &mut Cx) -> R {
    let plen = 1 + s.idx(4);
    let pattern: Vec<usize> = (0..plen).map(|_| s.idx(PARTS.len())).collect();
    let chain = s.chance(1, 4);
    let build = |d: usize| {
        if chain {
            // Longer rather than deeper.
            let mut t = String::new();
            for i in 0..d {
                t.push_str(&format!("if x == {} {{ {} }} else ", i, ["y", "f x", "z; x", "{k = y}"][pattern[i % plen] % 4]));
            }
            return t + "{ w }";
        }
        let mut t = String::from("w");
        for i in (0..d).rev() {
            let (a, b) = PARTS[pattern[i % plen]];
            t = format!("{{ {}{}{} }}", a, t, b);
        }
        t
    };
    let around = *s.pick(&["let f = q -> BODY", "let f = q ~> BODY", "let f = q -> r -> BODY", "let f = q -> BODY; str f", "str '(BODY)", "let c = '(BODY); c == c", "[q -> BODY]", "(q -> r -> BODY) 1", "let f = q -> (BODY); let g = q -> f; let h = q -> [f, g]"]);
    let vars = *s.pick(&["", "let w = 1; ", "let w = 1; let x = [1]; let y = {k = 1}; let f = q -> w; let g = q -> f x; let z = g; "]);
    let full = |d: usize| format!("{}{}", vars, around.replace("BODY", &build(d)));
    let d = plen * (2 + s.idx(2)).max(6_usize.div_ceil(plen));
    let (small, large) = (full(d), full(2 * d));
    cx.go(large.clone())?;
    cx.nontrivial(true);
    let ((_, a), (o, b)) = (cost(&small)?, cost(&large)?);
    cx.label(format!("growth by 2^{}", (b as f64 / a as f64).log2().round() as i64));
    ensure!(matches!(o, Out::Val(_)), "{} gives {}", large, o.show());
    ensure!(b <= a * 12, "{} takes {} units at depth {} but {} at depth {}", around, a, d, b, 2 * d);
    Ok(())
}

/// Functions of the library on data of some size, and of twice that size.
fn library(s: &mut Src, cx: &mut Cx) -> R {
    const USES: &[&str] = &[
        "list@rev l", "list@tail l", "list@head l", "list@len l", "list@chunk 3 l", "list@cons 1 l", "list@append l 1", "list@zip l l",
        "list@unzip (list@zip l l)", "list@take 5 l", "list@drop 5 l", "list@split-at 5 l", "list@nth 5 l", "list@foldl (a -> b -> b) 0 l",
        "list@foldr (a -> b -> b) 0 l", "fn@map (x -> x) l", "fn@filter (x -> True) l", "fn@reduce (a -> b -> b) 0 l", "l + l", "l * 2", "l == l", "l < l",
        "insert l 3 1", "len l", "l@3", "str l", "math@sum l", "rand@shuffle l", "rand@choose l", "dict@items l", "dict@flatten [l, [l]]", "string@join l \", \"",
        "fn@apply list@list l", "for x in l { x }", "let k = l; let k = k; k", "(x -> y -> x) l l", "l - 3", "!(l)", "l && l", "if l { l } else { [] }",
        "dict@keys m", "dict@values m", "dict@items m", "dict@insert m \"k3\" 1", "dict@remove m \"k3\"", "dict@has? m \"k3\"", "dict@len m", "dict@from-items (dict@items m)",
        "dict@union m m", "dict@intersect m m", "dict@difference m m", "dict@flatten m", "keys m", "vals m", "insert m \"k3\" 1", "m@k3", "str m", "m == m", "m - \"k3\"",
        "string@to-upper t", "string@to-lower t", "string@to-title t", "string@is-title t", "string@rev t", "string@lines t", "string@chars t", "string@words t",
        "string@paragraphs t", "string@trim t", "string@replace t \"a\" \"bb\"", "string@split t \" \"", "string@split-at t 4", "string@contains? t \"zz\"",
        "string@starts-with? t \"ab\"", "t + t", "t * 2", "t == t", "lines t", "len t", "insert t 3 \"x\"", "fmt@strip (fmt@red t)", "fmt@wrap t 20", "parse@expr t",
        "parse@json (\"[\" + (string@join l \",\") + \"]\")", "parse@toml (\"a = [\" + (string@join l \",\") + \"]\")", "str 't", "t | fn@id", "l | list@rev | list@rev", "eval 'l",
        "err@try l g", "err@try (1 + l) (e -> 1)", "err@try (math@sum m) (e -> 1)",
    ];
    let uses = *s.pick(USES);
    let n = 60 + s.usize(0, 140);
    let build = |n: usize| {
        let l: Vec<String> = (0..n).map(|i| (i * 7 % 50).to_string()).collect();
        let m: Vec<String> = (0..n).map(|i| format!("k{} = {}", i, i)).collect();
        let t: Vec<&str> = (0..n).map(|i| ["ab", "cde", "f"][i % 3]).collect();
        format!("let l = [{}]; let m = {{{}}}; let t = \"{}\"; {}", l.join(", "), m.join(", "), t.join(" "), uses)
    };
    let (small, large) = (build(n), build(2 * n));
    cx.go(format!("{} on {} and {} elements", uses, n, 2 * n))?;
    cx.nontrivial(true);
    let ((_, a), (o, b)) = (cost(&small)?, cost(&large)?);
    cx.label(format!("growth by {:.1}", b as f64 / a as f64));
    ensure!(matches!(o, Out::Val(_)), "{} gives {}", uses, o.show());
    ensure!(b <= a * 5, "{} takes {} units on {} elements but {} on {}", uses, a, n, b, 2 * n);
    Ok(())
}

fn chain(s: &mut Src, cx: &mut Cx) -> R {
    // Each function mentions some of the last few before it.
    let plen = 1 + s.idx(3);
    let shapes: Vec<(usize, usize, usize, usize)> = (0..plen).map(|_| (s.idx(9), 1 + s.idx(4), 1 + s.idx(4), 1 + s.idx(4))).collect();
    let build = |n: usize| {
        let mut t = String::from("let base = 3; ");
        for i in 0..n {
            let (k, a, b, c) = shapes[i % plen];
            let f = |d: usize| if i >= d { format!("f{}", i - d) } else { "fn@id".to_string() };
            let (a, b, c) = (f(a), f(b), f(c));
            let body = match k {
                0 => format!("x -> if x > 0 {{ {} (x - 1) }} else {{ if x < (0 - 5) {{ {} x }} else {{ {} (x - 1) }} }}", a, b, c),
                1 => format!("x -> {{ let g = if x % 2 == 0 {{ {} }} else {{ {} }}; g (x - 1) }}", a, b),
                2 => format!("x -> (fn@compose {} fn@id) (if True {{ x - 1 }} else {{ {} {} }})", a, b, c),
                3 => format!("x -> (u -> v -> {} (u - v)) x (if False {{ {} }} else {{ 1 }})", a, b),
                4 => format!("(g -> h -> x -> g (x - 1)) {} {}", a, b),
                5 => format!("(t -> x -> t@one (x - 1)) {{one = {}, two = {}, three = {}}}", a, b, c),
                6 => format!("(l -> x -> l@1 (x - 1)) [{}, {}, {}]", b, a, c),
                7 => format!("fn@compose (x -> if True {{ {} x }} else {{ {} }}) (x -> x - 1)", a, b),
                _ => format!("x -> {{ let m = y ~> if y > 0 {{ {} (y - 1) }} else {{ {} (y - 1) }}; m x }}", a, b),
            };
            t.push_str(&format!("let f{} = {}; ", i, body));
        }
        (format!("{}None", t), format!("{}f{} base", t, n - 1))
    };
    let n = 9 + s.idx(3);
    let ((s1, s2), (l1, l2)) = (build(n), build(2 * n));
    cx.go(l2.clone())?;
    cx.nontrivial(true);
    let mut last = vec![];
    for (small, large) in [(s1, l1), (s2, l2)] {
        let ((_, a), (o, b)) = (cost(&small)?, cost(&large)?);
        cx.label(format!("growth by 2^{}", (b as f64 / a as f64).log2().round() as i64));
        ensure!(matches!(o, Out::Val(_)), "{} gives {}", large, o.show());
        last.push((a, b));
    }
    for (i, (a, b)) in last.into_iter().enumerate() {
        ensure!(b <= a * 12, "{} takes {} units with {} functions but {} with {}", if i == 0 { "defining" } else { "defining and calling" }, a, n, b, 2 * n);
    }
    Ok(())
}

fn loops(s: &mut Src, cx: &mut Cx) -> R {
    // Bodies whose cost does not depend on the turn.
    const FLAT: &[&str] = &[
        "i",
        "i * 2 + 1",
        "[i, i]",
        "{k = i}",
        "f i",
        "(x ~> x) i",
        "(x -> x + i) 1",
        "if i % 2 == 0 { i } else { f i }",
        "str i",
        "let y = i; y + 1",
        "let a = i; let b = a",
        "(\"ab\" * 3) + (str i)",
        "eval '(i + 1)",
        "err@try (1 // 0) (e -> i)",
        "l@(i % 3)",
        "t@two",
        "fn@map (x -> x * 2) l",
        "i | f",
        "for j in 0 to 3 { j + i }",
        "len l",
        "math@max i 5",
    ];
    let pre = "let f = x -> x + 1; let l = [5, 6, 7]; let t = {one = 1, two = 2}; let acc = []; let text = \"\"; let sum = 0; ";
    let body: Vec<&str> = (0..1 + s.idx(3)).map(|_| *s.pick(FLAT)).collect();
    let body = body.join("; ");
    let kind = s.below(9);
    let build = |n: usize| match kind {
        0 => format!("{}for i in 0 to {} {{ {} }}", pre, n, body),
        1 => format!("{}fn@map (i -> {{ {} }}) (0 to {})", pre, body, n),
        2 => format!("{}fn@filter (i -> {{ {}; True }}) (0 to {})", pre, body, n),
        3 => format!("{}fn@reduce (acc -> i -> {{ {}; i }}) 0 (0 to {})", pre, body, n),
        4 => format!("{}let go = i ~> if i > 0 {{ {}; let i = i - 1; go i }} else {{ 0 }}; go {}", pre, body, n),
        5 => format!("{}let go = self -> i -> if i > 0 {{ {}; self self (i - 1) }} else {{ 0 }}; go go {}", pre, body, n),
        6 => format!("{}for i in 0 to {} {{ {}; let sum = sum + i }}; sum", pre, n, body),
        7 => format!("{}for i in 0 to {} {{ {}; let acc = acc + [i] }}; acc", pre, n, body),
        _ => format!("{}for i in 0 to {} {{ {}; let text = text + (str i) }}; text", pre, n, body),
    };
    let n = match kind {
        4 => 30 + s.usize(0, 60),
        5 => 8 + s.usize(0, 16),
        _ => 40 + s.usize(0, 60),
    };
    // Joining to a list costs as much as the list is long.
    let most = if kind == 7 { 6 } else { 3 };
    let (small, large) = (build(n), build(2 * n));
    cx.go(large.clone())?;
    cx.nontrivial(true);
    let ((_, a), (o, b)) = (cost(&small)?, cost(&large)?);
    cx.label(format!("kind {}: growth by {:.1}", kind, b as f64 / a as f64));
    ensure!(matches!(o, Out::Val(_)), "{} gives {}", large, o.show());
    ensure!(b <= a * most, "running takes {} units for {} turns but {} for {}", a, n, b, 2 * n);
    Ok(())
}

fn data(s: &mut Src, cx: &mut Cx) -> R {
    const GROW: &[(&str, bool)] = &[
        ("[v]", true),
        ("[v, 1]", true),
        ("[\"a b\", v]", true),
        ("{k = v}", true),
        ("{a = 1, k = v, z = []}", true),
        ("[{k = v}]", true),
        ("[x -> 1, v]", true),
    ];
    const USE: &[&str] = &[
        "str v",
        "v == v",
        "v < v",
        "v == [v]",
        "[v, v]",
        "let w = v; w",
        "(x -> x) v",
        "(x -> y -> x) v 1",
        "len v",
        "vars ()",
        "eval 'v",
        "list@rev [v]",
        "fn@map (x -> x) [v, v]",
        "for x in [v] { x }",
        "let f = x -> v; f 1",
        "str [v, v]",
        "{a = v, b = v}",
        "[v] + [v]",
        "(q -> v) | (q -> 1)",
        "string@len (str v)",
        "v@0",
        "v && v",
        "if v { 1 } else { 2 }",
        "insert [] 0 v",
    ];
    let plen = 1 + s.idx(3);
    let grow: Vec<&str> = (0..plen).map(|_| s.pick(GROW).0).collect();
    let uses = (0..1 + s.idx(2)).map(|_| *s.pick(USE)).collect::<Vec<_>>().join("; ");
    let build = |d: usize| {
        let mut t = String::from("let v = [1]; ");
        for i in 0..d {
            t.push_str(&format!("let v = {}; ", grow[i % plen]));
        }
        t + &uses
    };
    let d = 6 + s.idx(5);
    let (small, large) = (build(d), build(2 * d));
    cx.go(large.clone())?;
    cx.nontrivial(true);
    let ((_, a), (_, b)) = (cost(&small)?, cost(&large)?);
    cx.label(format!("growth by 2^{}", (b as f64 / a as f64).log2().round() as i64));
    ensure!(b <= a * 12, "running takes {} units at depth {} but {} at depth {}", a, d, b, 2 * d);
    Ok(())
}
