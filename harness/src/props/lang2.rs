//! Code as a value, files of code, and runaway recursion.

use super::lang::{show, Env, Interp, Scope, Stop, G, K, T, V};
use crate::engine::*;
use crate::sut::{self, Out};
use crate::val;
use crate::{ensure, fail};
use dune::{Environment, Expression as E};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "A random prelude and a random program, the program run directly and quoted, through eval, exec, import, include and sys@parse, from a file in a random directory below the current one. Non-trivial: the program binds a variable or prints something.",
            subs: &[
                Sub { name: "ways", quick: 60_000, thorough: 1_000_000, f: c13 },
                Sub { name: "variables", quick: 60_000, thorough: 1_000_000, f: c13_vars },
            ],
            cpu_limit: Some(60),
            assumptions: &[],
        },
        Prop {
            id: "C14",
            rule: "Recursion, without end or to a depth of at most 40, built from random chains of constructs and builtins and entered in seven ways; in a quarter of the cases the call is the last thing its function does. Non-trivial: at least two constructs between a call and the next.",
            subs: &[Sub { name: "recursion", quick: 12_000, thorough: 200_000, f: c14 }],
            cpu_limit: Some(60),
            assumptions: &["At most one recursive call is made per level, so that the work before the limit is reached stays linear."],
        },
    ]
}

fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Val(a), Out::Val(b)) => val::same(a, b) || format!("{:?}", a) == format!("{:?}", b),
        (Out::Err(a), Out::Err(b)) => a.code() == b.code(),
        _ => false,
    }
}

fn shown(env: &Environment) -> BTreeMap<String, String> {
    env.bindings.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect()
}

fn diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return Some(k.clone());
        }
    }
    None
}

fn c13(s: &mut Src, cx: &mut Cx) -> R {
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: false };
    let fuel = s.range(3, 40);
    let wrong = *s.pick(&[0, 0, 30]);
    let mut g = G { s, fuel: 8, wrong: 0, pure: true };
    let mut pre = g.stmts(&mut sc, 3);
    pre.push(T::Lit(E::None));
    g.fuel = fuel;
    g.wrong = wrong;
    g.pure = false;
    let mut body = g.stmts(&mut sc, 6);
    let k = *g.s.pick(&[K::I, K::L, K::S, K::B, K::F]);
    body.push(g.expr(k, &sc));
    let s = g.s;
    let mut m = Interp::new();
    let mut env = Env::new();
    let mut whole = pre.clone();
    whole.extend(body.clone());
    let want = m.eval(&T::Do(whole), &mut env);
    if matches!(want, Err(Stop::Outside)) {
        return discard();
    }
    let dir = *s.pick(&["", "sub/", "sub/deeper/", "with space/"]);
    let cd = s.bool() && !dir.is_empty();
    let path = format!("{}prog.dune", if cd { "" } else { dir });
    let path = if s.chance(1, 5) { format!("./{}", path) } else { path };
    let pre_text = pre.iter().map(show).collect::<Vec<_>>().join(";\n");
    let mut file = body.iter().map(show).collect::<Vec<_>>().join(";\n");
    // What depends on the current directory.
    let here = s.chance(1, 3);
    if here {
        let t = *s.pick(&["debug (fs@read \"mark\")", "debug CWD", "debug (sys@cwd ())", "sys@include \"inner.dune\"", "debug (sys@import \"inner.dune\")", "debug (fs@exists? \"sub\")"]);
        file = format!("{};\n{}", t, file);
    }
    let expr = format!("{{ {} }}", file);
    // (program, keeps the caller's variables)
    let ways: Vec<(String, bool)> = vec![
        (format!("exec '{}", expr), false),
        (format!("sys@exec '{}", expr), false),
        (format!("{{ let qq = '{}; exec qq }}", expr), false),
        (format!("sys@include \"{}\"", path), false),
        (format!("eval '{}", expr), true),
        (format!("sys@eval '{}", expr), true),
        (format!("sys@import \"{}\"", path), true),
        (format!("eval (sys@parse ptext)"), true),
        (format!("(exec (sys@parse ptext))"), false),
    ];
    let (way, keeps) = s.pick(&ways).clone();
    cx.label(way.split(' ').next().unwrap().trim_start_matches('(').to_string());
    cx.nontrivial(!m.out.is_empty() || body.iter().any(|t| matches!(t, T::Let(..))));
    cx.go(format!("{};\n{}   # program: {}", pre_text, way, file))?;
    sut::clean_cwd();
    std::fs::create_dir_all(format!("./{}", dir)).unwrap();
    std::fs::write(format!("./{}prog.dune", dir), &file).unwrap();
    if here {
        for d in ["", dir] {
            std::fs::write(format!("./{}mark", d), format!("in {:?}", d)).unwrap();
            std::fs::write(format!("./{}inner.dune", d), format!("debug {:?}; fs@read \"mark\"", d)).unwrap();
        }
    }
    let mut base = sut::fresh_env();
    base.define("ptext", E::String(file.clone()));
    if cd {
        let d = sut::cwd_dir().join(dir);
        base.set_cwd(d.to_str().unwrap().trim_end_matches('/'));
    }
    if !matches!(sut::run_in(&mut base, &pre_text), Out::Val(_)) {
        return discard();
    }
    let mut e1 = base.clone();
    let (o1, p1) = sut::captured(|| sut::run_in(&mut e1, &file));
    let mut e2 = base.clone();
    let (o2, p2) = sut::captured(|| sut::run_in(&mut e2, &way));
    ensure!(p1 == p2, "{}\nprints {:?}, but the program itself prints {:?}", cx.case, String::from_utf8_lossy(&p2), String::from_utf8_lossy(&p1));
    ensure!(same_out(&o1, &o2), "{}\ngives {}, but the program itself gives {}", cx.case, o2.show(), o1.show());
    e2.undefine("qq");
    let (b0, b1, b2) = (shown(&base), shown(&e1), shown(&e2));
    if keeps {
        if let Some(k) = diff(&b0, &b2) {
            fail!("{}\nchanges the variable {} from {:?} to {:?}", cx.case, k, b0.get(&k), b2.get(&k));
        }
    } else if let Some(k) = diff(&b1, &b2) {
        fail!("{}\nleaves the variable {} = {:?}, but the program itself leaves {:?}", cx.case, k, b2.get(&k), b1.get(&k));
    }
    // The program itself against the reference interpreter.
    if let (Ok(V::D(w)), Out::Val(v)) = (&want, &o1) {
        ensure!(val::same(v, w), "{} gives {:?} instead of {:?}", file, v, w);
    }
    // A program that is not there, or that is none, changes nothing.
    for t in ["sys@include \"missing\"", "sys@import \"missing\"", "sys@include \"bad\"", "sys@import \"bad\""] {
        let _ = std::fs::write(format!("{}/bad", base.get_cwd()), "let a = 1; [ 2");
        let mut e3 = base.clone();
        let o = sut::run_in(&mut e3, t);
        ensure!(o.is_err(), "{} gives {}", t, o.show());
        if let Some(k) = diff(&b0, &shown(&e3)) {
            fail!("{} changes the variable {}", t, k);
        }
    }
    Ok(())
}

/// Histories of let, sys@set, sys@unset, unbind, sys@defined?, exec and lookups against a model.
fn c13_vars(s: &mut Src, cx: &mut Cx) -> R {
    let names = ["x", "y", "len-2", "b.c"];
    // What a variable holds: data, or unevaluated code and what it evaluates to.
    let mut model: BTreeMap<String, (E, bool)> = BTreeMap::new();
    let mut steps: Vec<(String, Option<E>)> = vec![];
    let n = 2 + s.len(12);
    let mut hits = 0;
    for _ in 0..n {
        let v = *s.pick(&names);
        match s.below(9) {
            0 | 1 => {
                let x = val::value(s, 1);
                if let Some(t) = val::lit(&x) {
                    steps.push((format!("let {} = {}", v, t), None));
                    model.insert(v.into(), (x, false));
                }
            }
            2 => {
                let (a, b) = (s.range(0, 50), s.range(0, 50));
                steps.push((format!("sys@set {} ({} + {})", v, a, b), Some(E::None)));
                model.insert(v.into(), (E::Integer(a + b), true));
            }
            3 => {
                let w = s.range(0, 50);
                steps.push((format!("let {} = '(1 + {})", v, w), Some(E::None)));
                model.insert(v.into(), (E::Integer(1 + w), true));
            }
            4 => {
                steps.push((format!("{} {}", s.pick(&["unbind", "sys@unset"]), v), Some(E::None)));
                model.remove(v);
            }
            5 => {
                hits += 1;
                steps.push((format!("sys@defined? {}", v), Some(E::Boolean(model.contains_key(v)))));
            }
            6 => {
                let w = s.range(0, 50);
                let eval = s.bool();
                steps.push((format!("{} '(let {} = {})", if eval { "eval" } else { "exec" }, v, w), Some(E::None)));
                if !eval {
                    model.insert(v.into(), (E::Integer(w), false));
                }
            }
            7 => {
                if let Some((x, true)) = model.get(v) {
                    hits += 1;
                    steps.push((format!("{} {}", s.pick(&["eval", "exec", "sys@eval", "sys@exec"]), v), Some(x.clone())));
                }
            }
            _ => match model.get(v) {
                Some((x, false)) => {
                    hits += 1;
                    steps.push((v.into(), Some(x.clone())))
                }
                None => steps.push((v.into(), Some(E::Symbol(v.into())))),
                _ => {}
            },
        }
    }
    cx.nontrivial(hits >= 2);
    cx.go(steps.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("; "))?;
    let mut env = sut::fresh_env();
    let before: Vec<String> = env.bindings.keys().cloned().collect();
    for (t, want) in &steps {
        let o = sut::run_in(&mut env, t);
        match (&o, want) {
            (Out::Val(v), Some(w)) => ensure!(val::same(v, w), "{}: {} gives {:?} instead of {:?}", cx.case, t, v, w),
            (Out::Val(_), None) => {}
            _ => fail!("{}: {} gives {}", cx.case, t, o.show()),
        }
    }
    let mut keys: Vec<String> = before;
    keys.extend(model.keys().cloned());
    keys.sort();
    let now: Vec<String> = env.bindings.keys().cloned().collect();
    ensure!(keys == now, "{}: the variables are not what was defined", cx.case);
    if let Out::Val(E::Map(m)) = sut::run_in(&mut env, "vars ()") {
        let k: Vec<String> = m.keys().cloned().collect();
        ensure!(k == now, "{}: vars reports other variables", cx.case);
    }
    Ok(())
}

// ---------------------------------------------------------------- recursion

const LINKS: &[(&str, i64)] = &[
    ("({})", 0),
    ("(1 + {})", 1),
    ("({} + 1)", 1),
    ("(0 - (0 - {}))", 0),
    ("([{}]@0)", 0),
    ("{ let tt = {}; tt }", 0),
    ("{ 0; {} }", 0),
    ("(if True { {} } else { 0 })", 0),
    ("(if False { 0 } else { {} })", 0),
    ("((q -> q) {})", 0),
    ("((q -> {}) 1)", 0),
    ("((for i in [1] { {} })@0)", 0),
    ("((for i in [{}] { i })@0)", 0),
    ("((fn@map (q -> {}) [1])@0)", 0),
    ("((fn@map fn@id [{}])@0)", 0),
    ("(fn@reduce (p -> q -> {}) 0 [1])", 0),
    ("(len (fn@filter (q -> {}) [1]) - 1 + {N})", -1),
    ("(fn@apply fn@id [{}])", 0),
    ("(fn@? True {} 0)", 0),
    ("(eval '({}))", 0),
    ("(exec '({}))", 0),
    ("(int {})", 0),
    ("(int (str {}))", 0),
    ("({ a = {} }@a)", 0),
    ("(math@sum [{}, 1])", 1),
    ("(math@max {} 0)", 0),
    ("(list@nth 0 [{}])", 0),
    ("(list@head (list@rev [{}]))", 0),
];

/// Around a call in the last place, where nothing is left to do after it.
const TAILS: &[(&str, i64)] = &[
    ("{}", 0),
    ("{ {} }", 0),
    ("{ 0; {} }", 0),
    ("{ let qq = n; {} }", 0),
    ("{ let n = n; {} }", 0),
    ("if True { {} } else { 0 }", 0),
    ("if False { 0 } else { {} }", 0),
    ("if n == (0 - 5) { 0 } else { {} }", 0),
];

fn c14(s: &mut Src, cx: &mut Cx) -> R {
    let tail = s.chance(1, 4);
    let links: Vec<(&str, i64)> = (0..1 + s.below(4)).map(|_| *s.pick(if tail { TAILS } else { LINKS })).filter(|l| l.1 >= 0).collect();
    let forever = s.chance(2, 3);
    let depth = s.range(0, 40);
    // Deep chains of links take up the depth that is allowed.
    let depth = if links.len() > 2 { depth / 4 } else { depth.min(20) };
    let form = s.below(7);
    // The body of a macro, or of quoted code, would not see the builtins from inside a function.
    let links: Vec<(&str, i64)> = links.into_iter().filter(|l| !matches!(form, 1 | 2 | 5 | 6) || !l.0.contains("q -> {}")).collect();
    let (def, rec, start) = match form {
        0 => ("let f = self -> n -> BODY", "(self self NEXT)", "f f START"),
        1 => ("let m = n ~> BODY", "(m NEXT)", "m START"),
        2 => ("let m1 = n ~> (m2 n); let m2 = n ~> BODY", "(m1 NEXT)", "m1 START"),
        3 => ("let fs = [self -> n -> BODY]", "((self@0) self NEXT)", "(fs@0) fs START"),
        4 => ("let o = { run = self -> n -> BODY }", "((self@run) self NEXT)", "(o@run) o START"),
        6 => ("let m = k ~> n ~> BODY", "(m k NEXT)", "m 3 START"),
        _ => ("let code = '{ BODY }; let n = START", "{ let n = NEXT; exec code }", "exec code"),
    };
    let rec = if tail { rec.strip_prefix('(').and_then(|r| r.strip_suffix(')')).unwrap_or(rec) } else { rec };
    // A block that rebinds n would be seen by what is evaluated after it; nothing is.
    let mut body = links.iter().fold(rec.to_string(), |b, l| l.0.replace("{}", &b));
    let plus: i64 = links.iter().map(|l| l.1).sum();
    body = if forever { body.replace("NEXT", "n") } else { format!("{}if n > 0 {{ {} }} else {{ 7 }}{}", if tail { "" } else { "(" }, body.replace("NEXT", "(n - 1)"), if tail { "" } else { ")" }) };
    let st = if forever { "1".to_string() } else { depth.to_string() };
    let def = def.replace("BODY", &body).replace("START", &st);
    let call = start.replace("START", &st);
    // Inside a lambda only what the body names is captured; in the others everything is there.
    cx.nontrivial(links.len() >= 2);
    cx.label(format!("form {}{}", form, if tail { ", last place" } else { "" }));
    cx.go(format!("{}; {}", def, call))?;
    let mut env = sut::fresh_env();
    let d = sut::run_in(&mut env, &def);
    ensure!(matches!(d, Out::Val(_)), "{} gives {}", def, d.show());
    let o = sut::run_in(&mut env, &call);
    if forever {
        match &o {
            Out::Err(e) => ensure!(e.code() == 5, "{} ends with {:?} instead of the recursion depth error", cx.case, e),
            o => fail!("{} gives {}", cx.case, o.show()),
        }
        if let Out::Err(e) = &o {
            let _ = guarded(|| e.to_string()).map_err(|p| Fail::Violation { sig: String::new(), msg: format!("showing the error of {}: {}", cx.case, p) })?;
        }
        let o = sut::run_in(&mut env, &format!("err@try ({}) (e -> e@code)", call));
        ensure!(o == Out::Val(E::Integer(5)), "err@try around {} gives {}", cx.case, o.show());
    } else {
        let want = E::Integer(7 + plus * depth);
        match &o {
            Out::Val(v) => ensure!(val::same(v, &want), "{} gives {:?} instead of {:?}", cx.case, v, want),
            o => fail!("{} gives {} instead of {:?}", cx.case, o.show(), want),
        }
    }
    let o = sut::run_in(&mut env, "(len (fn@map (x -> x + 1) [1, 2])) + 1");
    ensure!(o == Out::Val(E::Integer(3)), "after {} a simple program gives {}", cx.case, o.show());
    Ok(())
}
