//! Running programs: arguments, variables, directories, output, and pipelines.

use crate::engine::*;
use crate::helpers::{self, Dump};
use crate::sut::{self, Out};
use crate::val::{self, same};
use crate::{ensure, fail, gen};
use dune::{Environment, Error, Expression as E};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            rule: "Programs that call a reporting program, by name, text, path, alias or variable, directly or inside functions, loops, conditions and handlers, with arguments of every kind, after histories of definitions, removals and changes of directory; and histories of programs that succeed, fail, are killed, are missing or may not be run. Non-trivial: at least one argument or definition, or at least two programs.",
            subs: &[Sub { name: "args", quick: 14_000, thorough: 400_000, f: c23 }, Sub { name: "from-functions", quick: 3_000, thorough: 100_000, f: c23_functions }, Sub { name: "status", quick: 6_000, thorough: 120_000, f: c23_status }],
            cpu_limit: None,
            assumptions: &[
                "The texts of variables that are no text are what `str` gives (C28).",
                "Only variables of the environment that makes the call are claimed to be exported, and only if their text has at most 1024 bytes, as the code documents.",
            ],
        },
        Prop {
            id: "C24",
            rule: "Pipelines of two to six stages: values, programs that stream, collect, expand, cut short or ignore their input, functions and builtins, with 0 to 400,000 bytes of ASCII, unicode or arbitrary bytes; at top level and inside functions, and with stages that cannot be run. Non-trivial: a program reads input.",
            subs: &[Sub { name: "pipe", quick: 12_000, thorough: 300_000, f: c24 }],
            cpu_limit: None,
            assumptions: &["The programs write what their models say (the same code serves as both).", "A pipeline that is not finished after 30 seconds is stuck; they take milliseconds."],
        },
    ]
}

// ---------------------------------------------------------------- C23

fn text(e: &E) -> String {
    format!("{}", e)
}
/// The arguments that a value stands for.
fn words(e: &E, out: &mut Vec<Vec<u8>>) {
    match e {
        E::List(l) => l.iter().for_each(|x| words(x, out)),
        E::None => {}
        E::String(t) => out.push(t.clone().into_bytes()),
        E::Bytes(b) => out.push(String::from_utf8_lossy(b).into_owned().into_bytes()),
        e => out.push(text(e).into_bytes()),
    }
}
fn bare(s: &mut Src) -> String {
    let k = 1 + s.below(5);
    let w: String = (0..k).map(|_| *s.pick(&['a', 'b', 'q', 'z', '0', '7', '_'])).collect();
    match s.below(7) {
        0 => format!("-{}", w.replace(|c: char| c.is_ascii_digit(), "l")),
        1 => format!("--{}", w.replace(|c: char| c.is_ascii_digit(), "l")),
        2 => format!("w{}.txt", w),
        3 => format!("./w{}", w),
        4 => format!("~/w{}", w),
        5 => format!("w{}/x", w),
        _ => format!("w{}", w),
    }
}

fn c23(s: &mut Src, cx: &mut Cx) -> R {
    let bin = sut::bin_dir().to_str().unwrap().to_string();
    let mut defs: Vec<(String, E)> = vec![];
    let mut prog = vec![];
    let mut model: BTreeMap<String, E> = BTreeMap::new();
    let dirs = ["d", "d/e", "with space", "日本", "d/e/f"];
    let mut at = std::path::PathBuf::from("");
    // History.
    let steps = s.usize(0, 5);
    for _ in 0..steps {
        match s.below(4) {
            0 => {
                let cd = *s.pick(&["cd", "cd", "sys@cd", "os@cd"]);
                let d = if at.as_os_str().is_empty() || s.bool() {
                    *s.pick(&dirs)
                } else {
                    ".."
                };
                if d == ".." {
                    at.pop();
                    prog.push(format!("{} \"..\"", cd));
                } else if at.as_os_str().is_empty() {
                    at.push(d);
                    prog.push(format!("{} {}", cd, gen::quote(d)));
                } else {
                    // Absolute.
                    at = d.into();
                    prog.push(format!("{} {}", cd, gen::quote(sut::cwd_dir().join(d).to_str().unwrap())));
                }
            }
            1 if !model.is_empty() => {
                let n = s.pick(&model.keys().cloned().collect::<Vec<_>>()).clone();
                model.remove(&n);
                prog.push(format!("unbind \"{}\"", n));
            }
            k => {
                let n = format!("V_{}", s.pick(&["a", "b", "c", "PV"]));
                let v = match s.below(5) {
                    0 => E::String("x".repeat(s.usize(1018, 1030))),
                    1 => E::String("é".repeat(s.usize(509, 516))),
                    2 => E::String(gen::long(s, 30)),
                    _ => val::value_b(s, 2),
                };
                model.insert(n.clone(), v.clone());
                match val::lit(&v) {
                    Some(l) if k == 2 => prog.push(format!("let {} = {}", n, l)),
                    _ => {
                        let i = defs.len();
                        defs.push((format!("init{}", i), v));
                        prog.push(format!("let {} = init{}", n, i));
                    }
                }
            }
        }
    }
    // The call.
    let mut want = vec![];
    let mut args = vec![];
    let n = s.usize(0, 6);
    // How lists are passed to a program in a pipeline is not documented.
    let mut scalars = true;
    let scalar = |v: &E| matches!(v, E::String(_) | E::Integer(_) | E::Float(_) | E::Boolean(_));
    for _ in 0..n {
        match s.below(6) {
            0 | 1 => {
                let w = bare(s);
                want.push(w.clone().into_bytes());
                args.push(w);
            }
            2 => {
                let (a, b) = (s.range(-9, 9), s.range(0, 9));
                want.push(format!("{}", a + b).into_bytes());
                args.push(format!("({} + {})", a, b));
            }
            3 if !model.is_empty() => {
                let n = s.pick(&model.keys().cloned().collect::<Vec<_>>()).clone();
                scalars &= scalar(&model[&n]);
                words(&model[&n], &mut want);
                args.push(n);
            }
            _ => {
                let v = match s.below(4) {
                    0 => E::String(gen::long(s, 20)),
                    3 => E::String(s.pick(&["", "", " ", "a b", "*", "~", "$HOME", "'", "-"]).to_string()),
                    1 => {
                        let d = s.usize(1, 3);
                        E::List(val::list(s, d, 4))
                    }
                    _ => val::value_b(s, 2),
                };
                scalars &= scalar(&v);
                words(&v, &mut want);
                match val::lit(&v) {
                    Some(l) if s.bool() => args.push(l),
                    _ => {
                        let i = defs.len();
                        defs.push((format!("arg_{}", i), v));
                        args.push(format!("arg_{}", i));
                    }
                }
            }
        }
    }
    if want.iter().any(|w| w.len() > 100_000) || want.iter().map(|w| w.len()).sum::<usize>() > 1_000_000 {
        // The system does not take it.
        return discard();
    }
    let head = match s.below(6) {
        0 => gen::quote("argdump"),
        1 => gen::quote(&format!("{}/argdump", bin)),
        2 => {
            prog.push("let alias = 'argdump".into());
            "alias".into()
        }
        3 => {
            prog.push("let alias = \"argdump\"".into());
            "alias".into()
        }
        _ => "argdump".to_string(),
    };
    if args.is_empty() {
        args.push(s.pick(&["()", "None", "[]"]).to_string());
        scalars &= args[0] != "[]";
    }
    // A text that is applied is a call of the program only outside of a pipe.
    let piped = scalars && !head.starts_with('"') && !prog.last().map_or(false, |l| l == "let alias = \"argdump\"") && s.chance(1, 3);
    let call = if piped && want.is_empty() && s.bool() {
        // In a pipeline, the name alone is a call.
        head.clone()
    } else {
        format!("{} {}", head, args.join(" "))
    };
    let before = s.bool();
    let after = s.bool();
    let mut times = 1;
    // Only calls at the top level show the variables of the top level.
    let mut top = true;
    let call = match s.below(9) {
        k if piped => {
            cx.label("in a pipeline");
            match k {
                0 => format!("\"w\" | {}", call),
                1 => format!("say w | {}", call),
                2 => format!("say w | xcat | {}", call),
                3 => format!("say w | {} | xcat", call),
                4 => format!("{} | xcat | xcat", call),
                5 => format!("say w | ({})", call),
                _ => format!("{} | xcat", call),
            }
        }
        0 => {
            top = false;
            want.push(b"last".to_vec());
            format!("(pp -> {} pp) \"last\"", call)
        }
        1 => {
            top = false;
            format!("(pp -> qq -> {}) 1 2", call)
        }
        2 => {
            times = s.usize(0, 3);
            format!("for ii in (0 to {}) {{ {} }}", times, call)
        }
        3 => format!("if {} {{ {} }} else {{ 0 }}", s.pick(&["True", "(1 < 2)", "[1]"]), call),
        4 => format!("{{ {}; 3 }}", call),
        5 => format!("err@try ({}) (ee -> 77)", call),
        6 => format!("eval '({})", call),
        _ => call,
    };
    // Code run by eval works on a copy of the environment.
    if before {
        prog.push("print \"m0\"".into());
    }
    prog.push(call.clone());
    if after {
        prog.push("println \"m1\"".into());
    }
    let program = prog.join(";\n");
    cx.nontrivial(n > 0 || !model.is_empty());
    cx.label(if top { "top level" } else { "in a function" });
    let mut shown = program.clone();
    for (n, v) in &defs {
        shown.push_str(&format!("   # {} = {:?}", n, v));
    }
    cx.go(shown)?;

    sut::clean_cwd();
    for d in dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    std::env::set_var("V_PV", "inherited");
    let mut env = sut::programs_env();
    for (n, v) in &defs {
        env.define(n, v.clone());
    }
    let (((out, io), stuck), cwd) = (sut::watched(30, || sut::captured(|| sut::run_in(&mut env, &program))), if at.as_os_str().is_empty() { sut::cwd_dir() } else { sut::cwd_dir().join(&at) });
    sut::clean_cwd();
    ensure!(!stuck, "the program never ends");
    let nul = want.iter().any(|w| w.contains(&0)) && times > 0;
    let mut rest = &io[..];
    if before {
        // A program is not started with a NUL in an argument, but what comes before has happened.
        ensure!(rest.starts_with(b"m0"), "the output is {:?}, without what is printed first", String::from_utf8_lossy(&io));
        rest = &rest[2..];
        while rest.first() == Some(&b'\n') || rest.first() == Some(&b' ') {
            rest = &rest[1..];
        }
    }
    if nul {
        if call.starts_with("err@try") {
            ensure!(matches!(out, Out::Val(_)), "a NUL in an argument gives {}", out.show());
        } else {
            ensure!(out.is_err(), "a NUL in an argument gives {}", out.show());
        }
        return Ok(());
    }
    for _ in 0..times {
        let Some((d, used)) = Dump::read(rest) else {
            fail!("the program was not run as expected: {}, output {:?}", out.show(), String::from_utf8_lossy(&io));
        };
        rest = &rest[used..];
        if d.args != want {
            let l = |v: &[Vec<u8>]| v.iter().map(|w| String::from_utf8_lossy(w).into_owned()).collect::<Vec<_>>();
            fail!("the program got the arguments {:?} instead of {:?}", l(&d.args), l(&want));
        }
        ensure!(d.cwd == cwd.to_str().unwrap().as_bytes(), "the program ran in {:?} instead of {:?}", String::from_utf8_lossy(&d.cwd), cwd);
        if !top {
            continue;
        }
        for n in ["V_a", "V_b", "V_c", "V_PV"] {
            let inherited = if n == "V_PV" { Some("inherited".to_string()) } else { None };
            let want = match model.get(n).map(text) {
                Some(t) if t.len() <= 1024 && !t.contains('\0') => Some(t),
                _ => inherited,
            };
            let have = d.vars.get(n.as_bytes()).map(|v| String::from_utf8_lossy(v).into_owned());
            ensure!(have == want, "the program sees {} = {:?} instead of {:?}", n, have, want);
        }
        ensure!(d.vars.get(&b"CWD"[..]) == Some(&cwd.to_str().unwrap().as_bytes().to_vec()), "the program sees another CWD");
    }
    ensure!(rest == if after { &b"m1\n"[..] } else { &b""[..] }, "the output ends with {:?}", String::from_utf8_lossy(rest));
    match (&out, after) {
        (Out::Val(_), true) => Ok(()),
        (Out::Val(E::None), false) => Ok(()),
        (Out::Val(E::List(l)), false) if call.starts_with("for ") && l.len() == times => Ok(()),
        (Out::Val(E::Integer(3)), false) if call.starts_with('{') => Ok(()),
        _ => fail!("the result is {}", out.show()),
    }
}

/// Functions that call the program, defined in one directory and called in another.
fn c23_functions(s: &mut Src, cx: &mut Cx) -> R {
    // Definition, number of parameters, and what the program gets in each of its calls
    // (numbers stand for the arguments).
    type Shape = (&'static str, usize, &'static [&'static [&'static str]]);
    const SHAPES: &[Shape] = &[
        ("a -> argdump a", 1, &[&["0"]]),
        ("a -> b -> argdump b a", 2, &[&["1", "0"]]),
        ("a -> { argdump ins a; b -> argdump out b }", 2, &[&["ins", "0"], &["out", "1"]]),
        ("a -> { argdump ins a; b -> b }", 2, &[&["ins", "0"]]),
        ("a -> { argdump ins a; b -> { argdump mid b; c -> argdump out c } }", 3, &[&["ins", "0"], &["mid", "1"], &["out", "2"]]),
        ("a -> b -> c -> argdump a b c", 3, &[&["0", "1", "2"]]),
        ("a ~> argdump a", 1, &[&["0"]]),
        ("a ~> b ~> argdump a b", 2, &[&["0", "1"]]),
        ("a -> { let g = q -> argdump q; g a }", 1, &[&["0"]]),
        ("a -> fn@map (q -> argdump q) [a, a]", 1, &[&["0"], &["0"]]),
        ("a -> for q in [1, 2] { argdump a }", 1, &[&["0"], &["0"]]),
        ("a -> if a { argdump a } else { argdump no }", 1, &[&["0"]]),
        ("a -> b -> { let x = { argdump ins b; 1 }; argdump a }", 2, &[&["ins", "1"], &["0"]]),
        ("a -> err@try (argdump a) (e -> 1)", 1, &[&["0"]]),
        ("a -> b -> err@try (err@throw a) (e -> argdump b)", 2, &[&["1"]]),
        ("fn@compose (q -> argdump q) (q -> q)", 1, &[&["0"]]),
        ("fn@flip (a -> b -> argdump a b)", 2, &[&["1", "0"]]),
        ("fn@curry (a -> b -> argdump a b) 2", 2, &[&["0", "1"]]),
        ("a -> b -> c -> { argdump ins a; d -> argdump out d c }", 4, &[&["ins", "0"], &["out", "3", "2"]]),
    ];
    let dirs = ["d", "d/e", "with space", "日本"];
    let mut at: Option<&str> = None;
    let mut prog: Vec<String> = vec![];
    // Name, arguments that it has still to get, arguments that it has, its shape.
    let mut funs: Vec<(String, Vec<String>, Shape)> = vec![];
    let mut want: Vec<(Vec<String>, Option<&str>)> = vec![];
    let n = s.usize(3, 12);
    let mut moved = 0;
    let mut calls = 0;
    let mut counter = 0;
    for _ in 0..n {
        match s.below(4) {
            0 => {
                let d = *s.pick(&dirs);
                at = Some(d);
                moved += 1;
                prog.push(format!("{} {}", s.pick(&["cd", "sys@cd"]), gen::quote(sut::cwd_dir().join(d).to_str().unwrap())));
            }
            1 => {
                let shape = *s.pick(SHAPES);
                let name = format!("fun{}", funs.len());
                prog.push(format!("let {} = {}", name, shape.0));
                funs.push((name, vec![], shape));
            }
            _ if funs.is_empty() => {}
            _ => {
                let i = s.idx(funs.len());
                let (name, have, shape) = funs[i].clone();
                let left = shape.1 - have.len();
                let k = s.usize(1, left);
                // A function with effects on the way can only be counted when it gets all at once.
                let k = if shape.2.len() > 1 || shape.0.contains("ins a; b") || shape.0.contains('~') || shape.0.starts_with("fn@") { left } else { k };
                let args: Vec<String> = (0..k)
                    .map(|_| {
                        counter += 1;
                        format!("w{}", counter)
                    })
                    .collect();
                let shown: Vec<String> = args.iter().map(|a| gen::quote(a)).collect();
                let mut all = have.clone();
                all.extend(args);
                if all.len() < shape.1 {
                    let new = format!("fun{}", funs.len());
                    prog.push(format!("let {} = {} {}", new, name, shown.join(" ")));
                    funs.push((new, all, shape));
                } else {
                    let call = format!("{} {}", name, shown.join(" "));
                    prog.push(match s.below(5) {
                        0 => format!("(zz -> {}) 1", call),
                        1 => format!("{{ {} }}", call),
                        2 if !shape.0.contains('~') => format!("fn@apply {} [{}]", name, shown.join(", ")),
                        3 => format!("if True {{ {} }}", call),
                        _ => call,
                    });
                    calls += 1;
                    for w in shape.2 {
                        want.push((w.iter().map(|t| t.parse::<usize>().map_or(t.to_string(), |i| all[i].clone())).collect(), at));
                    }
                }
            }
        }
    }
    if calls == 0 {
        return discard();
    }
    cx.nontrivial(moved > 0);
    cx.go(prog.join(";\n"))?;
    sut::clean_cwd();
    for d in dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    let mut env = sut::programs_env();
    let ((out, io), stuck) = sut::watched(30, || sut::captured(|| sut::run_in(&mut env, &prog.join(";\n"))));
    sut::clean_cwd();
    ensure!(!stuck, "the program never ends");
    ensure!(matches!(out, Out::Val(_)), "the program gives {}", out.show());
    let mut rest = &io[..];
    for (args, at) in &want {
        let Some((d, used)) = Dump::read(rest) else {
            fail!("the program is not called with {:?}; output {:?}", args, String::from_utf8_lossy(rest));
        };
        rest = &rest[used..];
        let have: Vec<String> = d.args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
        ensure!(have == *args, "the program got {:?} instead of {:?}", have, args);
        let cwd = at.map_or(sut::cwd_dir(), |d| sut::cwd_dir().join(d));
        ensure!(d.cwd == cwd.to_str().unwrap().as_bytes(), "called with {:?}, the program ran in {:?} instead of {:?}", args, String::from_utf8_lossy(&d.cwd), cwd);
    }
    ensure!(rest.is_empty(), "there is more output than expected: {:?}", String::from_utf8_lossy(rest));
    Ok(())
}

fn c23_status(s: &mut Src, cx: &mut Cx) -> R {
    // Each step prints its number, then does something.
    #[derive(Clone, Debug)]
    enum Step {
        Ret(String),
        Say(usize),
        Print(usize),
        Missing,
        Denied,
        Directory,
    }
    let n = s.usize(1, 8);
    let steps: Vec<(Step, bool)> = (0..n)
        .map(|_| {
            let st = match s.weighted(&[4, 4, 4, 1, 1, 1]) {
                0 => Step::Ret(s.pick(&["0", "1", "2", "77", "126", "127", "255", "kill"]).to_string()),
                1 => Step::Say(s.usize(0, 99)),
                2 => Step::Print(s.usize(0, 99)),
                3 => Step::Missing,
                4 => Step::Denied,
                _ => Step::Directory,
            };
            (st, s.chance(2, 3))
        })
        .collect();
    let dir = sut::cwd_dir();
    let mut lines = vec![];
    let mut want = String::new();
    let mut ends: Option<&str> = None;
    for (st, caught) in &steps {
        let (t, o, fails) = match st {
            Step::Ret(c) => (format!("ret {}", c), String::new(), None),
            Step::Say(k) => (format!("say {}", k), format!("{}", k), None),
            Step::Print(k) => (format!("println \"p{}\"", k), format!("p{}\n", k), None),
            Step::Missing => ("no_such_program 1 2".into(), String::new(), Some("missing")),
            Step::Denied => (format!("{} 1", gen::quote(dir.join("plain").to_str().unwrap())), String::new(), Some("denied")),
            Step::Directory => (format!("{} 1", gen::quote(dir.join("dir").to_str().unwrap())), String::new(), Some("denied")),
        };
        if *caught && fails.is_some() {
            lines.push(format!("err@try ({}) (e -> println \"caught\")", t));
            if ends.is_none() {
                want.push_str("caught\n");
            }
        } else {
            lines.push(t);
            if ends.is_none() {
                want.push_str(&o);
                ends = fails;
            }
        }
    }
    let program = lines.join(";\n");
    cx.nontrivial(n > 1);
    cx.label(ends.unwrap_or("completes"));
    cx.go(program.clone())?;
    sut::clean_cwd();
    std::fs::write("plain", "text").unwrap();
    std::fs::create_dir("dir").unwrap();
    let mut env = sut::programs_env();
    let ((out, io), stuck) = sut::watched(30, || sut::captured(|| sut::run_in(&mut env, &program)));
    sut::clean_cwd();
    ensure!(!stuck, "the program never ends");
    ensure!(io == want.as_bytes(), "the output is {:?} instead of {:?}", String::from_utf8_lossy(&io), want);
    match (&out, ends) {
        (Out::Val(_), None) => Ok(()),
        (Out::Err(Error::ProgramNotFound(n)), Some("missing")) if n == "no_such_program" => Ok(()),
        (Out::Err(Error::PermissionDenied(_)), Some("denied")) => Ok(()),
        _ => fail!("the result is {} (expected: {})", out.show(), ends.unwrap_or("a value")),
    }
}

// ---------------------------------------------------------------- C24

type Fun = (&'static str, fn(&E) -> Option<E>);
fn add(a: &E, b: &E) -> Option<E> {
    match (a, b) {
        (E::String(a), E::String(b)) => Some(E::String(format!("{}{}", a, b))),
        (E::Bytes(a), E::Bytes(b)) => Some(E::Bytes([&a[..], &b[..]].concat())),
        _ => None,
    }
}
const FUNCS: &[Fun] = &[
    ("fn@id", |v| Some(v.clone())),
    ("(q -> q)", |v| Some(v.clone())),
    ("keep", |v| Some(v.clone())),
    ("(q -> q + q)", |v| add(v, v)),
    ("(q -> q + \"-ü\")", |v| add(v, &E::String("-ü".into()))),
    ("(ops@\"+\" \"post\")", |v| add(v, &E::String("post".into()))),
    ("len", |v| match v {
        E::String(t) => Some(E::Integer(t.chars().count() as i64)),
        _ => None,
    }),
    ("str", |v| match v {
        E::Bytes(_) => None,
        v => Some(E::String(format!("{}", v))),
    }),
    ("(q -> 42)", |_| Some(E::Integer(42))),
    ("(q ~> \"mm\")", |_| Some(E::String("mm".into()))),
    ("(q -> if q { \"yes\" } else { \"no\" })", |v| {
        Some(E::String(
            match v {
                E::String(t) => !t.is_empty(),
                E::Bytes(b) => !b.is_empty(),
                E::Integer(i) => *i != 0,
                _ => return None,
            }
            .then(|| "yes")
            .unwrap_or("no")
            .into(),
        ))
    }),
    ("(q -> [q, q])@1", |_| None),
    ("(q -> (fn@id [1, q])@1)", |v| Some(v.clone())),
    ("(q -> (q | fn@id))", |v| Some(v.clone())),
    ("(q -> None)", |_| Some(E::None)),
    ("(q -> True)", |_| Some(E::Boolean(true))),
    ("(q -> [1, \"ä\", 2.5])", |_| Some(E::List(vec![E::Integer(1), E::String("ä".into()), E::Float(2.5)]))),
];

fn size(s: &mut Src) -> usize {
    match s.below(10) {
        0 => 0,
        1..=4 => s.usize(1, 40),
        5 => s.usize(1, 4_200),
        6 => *s.pick(&[4095, 4096, 8192, 8193, 65_535, 65_536, 65_537, 131_072, 131_073]),
        7 => s.usize(60_000, 70_000),
        _ => s.usize(1, 400_000),
    }
}

fn c24(s: &mut Src, cx: &mut Cx) -> R {
    let mut defs: Vec<(String, E)> = vec![("keep".into(), sut::run("(k -> k)").val().unwrap().clone())];
    let mut stages: Vec<String> = vec![];
    let mut reads = false;
    // First stage.
    let mut value: E;
    let mut buf: Vec<u8>;
    let as_value = |b: &[u8]| match String::from_utf8(b.to_vec()) {
        Ok(t) => E::String(t),
        Err(_) => E::Bytes(b.to_vec()),
    };
    let as_bytes = |v: &E| match v {
        E::Bytes(b) => b.clone(),
        v => format!("{}", v).into_bytes(),
    };
    let mut first_prog = false;
    let mut given: Option<Vec<u8>> = None;
    match s.below(8) {
        7 => {
            // The first program reads what the shell was given.
            let data = helpers::data(size(s), s.below(1000), s.below(3));
            let name = *s.pick(&["xcat", "upper", "count", "slurp"]);
            stages.push(if s.bool() { name.to_string() } else { format!("{} ()", name) });
            buf = helpers::transform(name, &[], &data);
            value = as_value(&buf);
            given = Some(data);
            first_prog = true;
        }
        0..=3 => {
            let (n, seed, mode) = (size(s), s.below(1000), s.below(3));
            let by = match s.below(4) {
                0 => gen::quote("emit"),
                1 => {
                    defs.push(("aka".into(), E::Symbol("emit".into())));
                    "aka".into()
                }
                _ => "emit".to_string(),
            };
            // A text that is applied is a call of the program only outside of a pipe.
            let by = if by.starts_with('"') { "emit".to_string() } else { by };
            stages.push(format!("{} {} {} {}", by, n, seed, mode));
            buf = helpers::data(n, seed, mode);
            value = as_value(&buf);
            first_prog = true;
        }
        4 => {
            let w: Vec<String> = (0..1 + s.below(3)).map(|_| bare(s)).collect();
            stages.push(format!("say {}", w.join(" ")));
            buf = w.join(" ").into_bytes();
            value = as_value(&buf);
            first_prog = true;
        }
        k => {
            value = match s.below(4) {
                0 => E::String(gen::long(s, 60)),
                1 => E::String(String::from_utf8(helpers::data(size(s) / 4, s.below(1000), s.below(2))).unwrap()),
                2 => E::Bytes(helpers::data(size(s) / 4, s.below(1000), 2)),
                _ => E::Integer(gen::int(s)),
            };
            let small = !matches!(&value, E::String(t) if t.len() > 100);
            match val::lit(&value) {
                Some(l) if k == 5 && small => stages.push(l),
                _ => {
                    defs.push(("v".into(), value.clone()));
                    stages.push("v".into());
                }
            }
            buf = as_bytes(&value);
        }
    }
    let n = s.usize(1, 5);
    let mut end: Option<Vec<u8>> = None;
    let mut fails = false;
    for i in 0..n {
        let last = i + 1 == n;
        if s.chance(1, 60) && !fails {
            // It cannot be run: the pipeline fails here.
            stages.push(s.pick(&["no_such_program", "no_such_program a", "(q -> undefined_name 1)", "(q -> 1 // 0)"]).to_string());
            fails = true;
            break;
        }
        if s.chance(2, 3) {
            reads = true;
            let name = *s.pick(&["xcat", "upper", "twice", "taken", "slurp", "count", "late", "xcat", "say"]);
            if name == "twice" && buf.len() > 500_000 {
                return discard();
            }
            let args: Vec<String> = match name {
                "taken" => vec![format!("{}", if s.bool() { s.below(20) } else { s.below(buf.len() as u64 + 2) })],
                "late" => vec![format!("{}", size(s)), format!("{}", s.below(1000)), format!("{}", s.below(3))],
                "say" => (0..s.below(3)).map(|_| bare(s)).collect(),
                _ => vec![],
            };
            let mut t = name.to_string();
            for a in &args {
                t.push(' ');
                t.push_str(a);
            }
            if s.chance(1, 5) {
                t = format!("({})", t);
            }
            stages.push(t);
            buf = helpers::transform(name, &args, &buf);
            if last {
                end = Some(buf.clone());
            }
            value = as_value(&buf);
        } else {
            let mut k = s.idx(FUNCS.len());
            let mut r = (FUNCS[k].1)(&value);
            if r.is_none() {
                k = s.idx(3);
                r = (FUNCS[k].1)(&value);
            }
            value = r.unwrap();
            stages.push(FUNCS[k].0.to_string());
            if matches!(&value, E::String(t) if t.len() > 1_000_000) {
                return discard();
            }
            buf = as_bytes(&value);
        }
    }
    let _ = first_prog;
    let pipe = stages.join(" | ");
    let form = s.below(6);
    let program = match form {
        0 => format!("(zz -> {}) 1", pipe),
        1 => format!("{{ {} }}", pipe),
        2 => format!("let rr = ({}); rr", pipe),
        3 => format!("println \"m0\"; {}", pipe),
        _ => pipe,
    };
    let want_out = [if form == 3 { &b"m0\n"[..] } else { b"" }, &end.clone().unwrap_or_default()].concat();
    cx.nontrivial(reads);
    cx.label(match buf.len() {
        0..=64 => "ends with up to 64 bytes",
        65..=65536 => "ends with up to 64 KiB",
        _ => "ends with more than 64 KiB",
    });
    let mut shown = program.clone();
    if let Some(d) = &given {
        shown.push_str(&format!("   # with {} bytes on the standard input", d.len()));
    }
    for (n, v) in &defs[1..] {
        let t: String = format!("{:?}", v).chars().take(200).collect();
        shown.push_str(&format!("   # {} = {}", n, t));
    }
    cx.go(shown)?;
    let mut env: Environment = sut::programs_env();
    for (n, v) in &defs {
        env.define(n, v.clone());
    }
    let ((out, io), stuck) = sut::watched(30, || sut::captured(|| sut::with_stdin(given.as_deref(), || sut::run_in(&mut env, &program))));
    ensure!(!stuck, "the pipeline never ends");
    if fails {
        ensure!(out.is_err(), "a stage cannot be run, but the result is {}", short(&out));
        return Ok(());
    }
    if io != want_out {
        let d = io.iter().zip(&want_out).position(|(a, b)| a != b).unwrap_or(io.len().min(want_out.len()));
        fail!(
            "the output differs at byte {}: it has {} bytes instead of {}, there {:?} instead of {:?}; result {}",
            d,
            io.len(),
            want_out.len(),
            &io[d..io.len().min(d + 20)],
            &want_out[d..want_out.len().min(d + 20)],
            short(&out)
        );
    }
    let want = if end.is_some() { E::None } else { value };
    match &out {
        Out::Val(v) if same(v, &want) => Ok(()),
        _ => fail!("the result is {} instead of {}", short(&out), short(&Out::Val(want))),
    }
}
fn short(o: &Out) -> String {
    o.show().chars().take(300).collect()
}
