//! Every builtin, applied to anything.

use crate::engine::*;
use crate::sut::{self, Out};
use crate::val::{self, Prog};
use crate::{fail, gen};
use dune::Expression as E;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "Every builtin that is reachable from the environment (found by walking it), applied to zero to five arguments of any kind: data, functions, quotes, builtins, results of other builtins; directly, partially, through fn@apply and inside handlers. Non-trivial: at least one argument.",
        subs: &[
            Sub { name: "call", quick: 400_000, thorough: 8_000_000, f: c16 },
            Sub { name: "fs", quick: 60_000, thorough: 1_000_000, f: c16_fs },
        ],
        cpu_limit: Some(60),
        assumptions: &[
            "Sizes of results (ranges, repetitions, widgets, numbers of parameters) and times to sleep are small.",
            "Functions that leave the shell, read the keyboard or switch the terminal's mode are left out, and so is chess.",
        ],
    }]
}

/// Left out, for the reasons given above.
const OUT: &[&str] = &["exit", "quit", "input", "chess", "os@exit", "console@keyboard", "console@mode@raw", "console@mode@cooked"];
/// The numbers they are given decide how much memory or time is needed.
const SIZED: &[&str] = &["to", "list@range", "fn@curry", "fn@reverse-curry", "widget@create", "time@sleep", "ops@\"*\"", "ops@to", "console@write"];

fn builtins() -> &'static Vec<String> {
    static B: OnceLock<Vec<String>> = OnceLock::new();
    B.get_or_init(|| {
        fn walk(path: &str, e: &E, out: &mut Vec<String>) {
            match e {
                E::Builtin(_) => out.push(path.to_string()),
                E::Map(m) => {
                    for (k, v) in m {
                        let plain = k.starts_with(|c: char| c.is_ascii_alphabetic()) && k != "to";
                        let k = if plain { k.clone() } else { gen::quote(k) };
                        walk(&format!("{}@{}", path, k), v, out);
                    }
                }
                _ => {}
            }
        }
        let env = sut::fresh_env();
        let mut v = vec![];
        for (k, x) in env.bindings.iter() {
            let plain = k.starts_with(|c: char| c.is_ascii_alphabetic());
            // Operators are reached through their module.
            if k != "std" && plain {
                walk(k, x, &mut v);
            }
        }
        v.retain(|n| !OUT.iter().any(|o| n == o || n.starts_with(&format!("{}@", o))));
        v
    })
}
fn is_fs(n: &str) -> bool {
    n.starts_with("fs@") || matches!(n, "cd" | "os@cd" | "sys@cd" | "sys@include" | "sys@import" | "include" | "import" | "ops@\">>\"" | "ops@\">>>\"" | "ops@\"<<\"")
}
fn sized(n: &str) -> bool {
    SIZED.contains(&n)
}

const FUNCS: &[&str] = &[
    "(x -> x)",
    "(x -> [x])",
    "(x -> y -> x)",
    "(x -> y -> x + y)",
    "(x -> y -> z -> [x, y, z])",
    "(x -> x + 1)",
    "(x -> undefined_name)",
    "(x -> x 1)",
    "(x ~> x)",
    "(x ~> y ~> [x])",
    "(x -> 1 // 0)",
    "(x -> True)",
    "(x -> None)",
    "fn@id",
    "(fn@const 1)",
    "math@abs",
    "math@max",
    "(math@max 1)",
    "string@to-upper",
    "ops@\"+\"",
    "(ops@\"==\" 1)",
    "list@cons",
    "err@codes",
    "fn",
    "len",
    "str",
    "int",
    "keys",
];
const QUOTES: &[&str] = &["'x", "'(1 + 2)", "'(let a = 1)", "'(x -> x)", "'{ 1; 2 }", "''1", "'None", "'[a, b]", "'undefined_name", "'\"t\"", "'(if True { 1 } else { 2 })", "'(for i in [1] { i })"];

fn value(s: &mut Src, small: bool) -> E {
    let e = match s.below(6) {
        0 => E::Integer(if small { s.range(-40, 40) } else { gen::int(s) }),
        1 => E::String(gen::long(s, 12)),
        2 => E::List(val::ints(s, 6)),
        3 => E::Integer(s.range(-3, 12)),
        4 => {
            let k = s.usize(0, 4);
            E::List((0..k).map(|_| E::String(gen::plain(s, 3))).collect())
        }
        _ => val::value_b(s, 2),
    };
    tame(e, small)
}
/// No paths out of the working directory, and no large numbers where they mean sizes.
fn tame(e: E, small: bool) -> E {
    match e {
        E::String(t) => E::String(t.replace("..", "").replace('/', "")),
        E::Integer(i) if small && !(-40..=40).contains(&i) => E::Integer(i % 40),
        E::Float(f) if small && f.abs() > 40.0 => E::Float(2.5),
        E::List(l) => E::List(l.into_iter().map(|x| tame(x, small)).collect()),
        E::Map(m) => E::Map(m.into_iter().map(|(k, v)| (k.replace('/', "").replace("..", ""), tame(v, small))).collect()),
        e => e,
    }
}

fn arg(s: &mut Src, p: &mut Prog, small: bool, depth: usize) -> String {
    match s.below(if depth == 0 { 10 } else { 12 }) {
        0 => s.pick(FUNCS).to_string(),
        1 => s.pick(QUOTES).to_string(),
        2 if !small => {
            let b = pick(s, |n| !is_fs(n) && !sized(n));
            b
        }
        10 | 11 => call(s, p, small, depth - 1),
        _ => {
            let v = value(s, small);
            p.arg(s, &v)
        }
    }
}
fn pick(s: &mut Src, ok: impl Fn(&str) -> bool) -> String {
    let v: Vec<&String> = builtins().iter().filter(|n| ok(n)).collect();
    s.pick(&v).to_string()
}
fn call(s: &mut Src, p: &mut Prog, small: bool, depth: usize) -> String {
    // What a nested call returns is not used as a size.
    let f = pick(s, |n| !is_fs(n) && !sized(n));
    let n = 1 + s.below(3);
    let args: Vec<String> = (0..n).map(|_| arg(s, p, small, depth)).collect();
    format!("({} {})", f, args.join(" "))
}

fn judge(p: &Prog) -> R {
    let (out, _) = sut::captured(|| p.run());
    match out {
        Out::Panic(m) => fail!("{}: {}", p.show(), m),
        Out::Syntax(m) => fail!("{} is not accepted: {}", p.show(), m),
        Out::Val(v) => {
            // The result can be looked at.
            if let Err(m) = guarded(|| (format!("{:?}", v), format!("{}", v))) {
                fail!("the result of {} cannot be shown: {}", p.show(), m);
            }
            Ok(())
        }
        Out::Err(e) => {
            if let Err(m) = guarded(|| format!("{}", e)) {
                fail!("the error of {} cannot be shown: {}", p.show(), m);
            }
            Ok(())
        }
    }
}

fn wrap(s: &mut Src, f: &str, args: &[String]) -> String {
    let plain = format!("{} {}", f, args.join(" "));
    match s.below(8) {
        0 => format!("fn@apply {} [{}]", f, args.join(", ")),
        1 if args.len() >= 2 => format!("({} {}) {}", f, args[0], args[1..].join(" ")),
        2 => format!("let ff = {}; ff {}", f, args.join(" ")),
        3 => format!("err@try ({}) (e -> e)", plain),
        4 if !args.is_empty() => format!("{} | ({} {})", args[args.len() - 1], f, args[..args.len() - 1].join(" ")),
        _ if args.is_empty() => format!("{} ()", f),
        _ => plain,
    }
}

fn c16(s: &mut Src, cx: &mut Cx) -> R {
    let f = pick(s, |n| !is_fs(n));
    let small = sized(&f);
    let n = s.weighted(&[1, 5, 6, 4, 2, 1]);
    let mut p = Prog::new();
    let depth = if small { 0 } else { 2 };
    let args: Vec<String> = (0..n).map(|_| arg(s, &mut p, small, depth)).collect();
    cx.label(f.clone());
    cx.nontrivial(n > 0);
    p.text = wrap(s, &f, &args);
    cx.go(p.show())?;
    // Restores what a case may have left behind.
    let _ = sut::run("log@disable ()");
    judge(&p)
}

fn c16_fs(s: &mut Src, cx: &mut Cx) -> R {
    let f = pick(s, |n| is_fs(n) && !n.starts_with("ops@"));
    let n = s.weighted(&[1, 6, 6, 2]);
    let mut p = Prog::new();
    let args: Vec<String> = (0..n)
        .map(|_| match s.below(8) {
            0 => s.pick(FUNCS).to_string(),
            1 => {
                let v = value(s, true);
                let v = match v {
                    E::String(t) if t.trim_matches('.').is_empty() => E::String("a".into()),
                    v => v,
                };
                p.arg(s, &v)
            }
            2 => {
                let i = gen::int(s);
                p.arg(s, &E::Integer(i))
            }
            3 => {
                let t: String = gen::text(s, 8).replace('/', "").replace('.', "") + "q";
                p.arg(s, &E::String(t))
            }
            _ => {
                let v = E::String(s.pick(&["a", "b", "d", "empty", "bin", "missing", "link", "dangling", "*", "code", "a?", "[", "locked"]).to_string());
                p.arg(s, &v)
            }
        })
        .collect();
    cx.label(f.clone());
    cx.nontrivial(n > 0);
    p.text = wrap(s, &f, &args);
    cx.go(p.show())?;
    sut::clean_cwd();
    let w = |n: &str, b: &[u8]| std::fs::write(n, b).unwrap();
    w("a", b"one\ntwo\nthree");
    w("b", "日本\r\n\r\n".as_bytes());
    w("empty", b"");
    w("bin", &[0, 255, 10, 128, 13]);
    w("code", b"let x = 1; x + 1");
    w("locked", b"x");
    std::fs::create_dir_all("d/e/f").unwrap();
    w("d/x", b"x");
    let _ = std::os::unix::fs::symlink("d", "link");
    let _ = std::os::unix::fs::symlink("nowhere", "dangling");
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions("locked", std::fs::Permissions::from_mode(0));
    let r = judge(&p);
    sut::clean_cwd();
    r
}
