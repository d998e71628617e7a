//! The shell itself: script files, `-x` and the interactive loop.

use crate::engine::*;
use crate::props::lang::{show, Scope, G};
use crate::sut::{self, Out};
use crate::{ensure, fail, gen};
use dune::{Environment, Expression as E};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "Sessions of 1 to 10 statements (definitions, loops, functions, printing, errors, programs, pipelines, files, joins, unicode, comments, statements over several lines, incomplete and wrong ones), run by the shell from a file, by -x in one or several arguments, typed into the interactive loop, or by combinations of them; compared with evaluating the statements one by one. Non-trivial: at least three statements.",
        subs: &[Sub { name: "modes", quick: 12_000, thorough: 300_000, f: c32 }],
        cpu_limit: None,
        assumptions: &[
            "What a statement prints, and the text of an error, is what the interpreter gives in the harness (checked by C06, C11, C15 and C28); here it is the shell around it that is checked.",
            "Standard input is no terminal: editing lines is not covered, and typed text has no backspaces or carriage returns (C07 covers highlighting and hints).",
        ],
    }]
}

/// A statement for the shell, and the same for the harness.
pub struct St {
    pub shell: String,
    pub here: String,
}
pub fn st(t: impl Into<String>) -> St {
    let t = t.into();
    St { shell: t.clone(), here: t }
}

pub fn statement(s: &mut Src, sc: &mut Scope, broken: bool) -> St {
    match s.below(if broken { 17 } else { 15 }) {
        0..=3 => {
            let fuel = s.range(3, 25);
            let mut g = G { s, fuel, wrong: 30, pure: false };
            st(show(&g.stmt(sc)))
        }
        4 => st(format!("{} {}", s.pick(&["print", "println", "echo"]), text(s))),
        5 => st(text(s)),
        6 => {
            let n = gen::name(s);
            st(format!("let {} = {}", n, text(s)))
        }
        7 => {
            let w: Vec<String> = (0..s.below(3)).map(|i| format!("w{}", i)).collect();
            st(format!("say {} {}", text(s), w.join(" ")))
        }
        8 => st(format!("say {} | {}", s.pick(&["w1", "w2 w3", "\"é\""]), s.pick(&["upper", "slurp | count", "(q -> [q, q])", "upper | fn@id"]))),
        9 => st(s.pick(&["1 // 0", "1 + \"a\"", "no_such_program 1", "for i in 5 { i }", "err@try (1 // 0) (e -> e@message)", "ret 3", "5 6", "x", "f", "say", "'zz", "zz", "[zz]", "len", "(q ~> [q])", "(q -> q)", "None", "()", "pwd", "pwd ()", "CWD", "{a = 1, b = [1, 2]}", "{}", "[]", "True", "2.50"]).to_string()),
        10 => {
            // join: the text of the elements, with the separator between them.
            let sep = gen::plain(s, 3);
            let k = s.usize(1, 6);
            let items: Vec<E> = (0..k).map(|_| if s.bool() { E::Integer(gen::int(s)) } else { E::String(gen::text(s, 6).replace(['\n', '\r', '\u{8}'], "")) }).collect();
            let want = items.iter().map(|i| format!("{}", i)).collect::<Vec<_>>().join(&sep);
            let lit = crate::val::lit(&E::List(items)).unwrap();
            let n = gen::name(s);
            match s.below(3) {
                0 => St { shell: format!("join {} {}", gen::quote(&sep), lit), here: gen::quote(&want) },
                1 => St { shell: format!("let {} = join {} {}", n, gen::quote(&sep), lit), here: format!("let {} = {}", n, gen::quote(&want)) },
                _ => St { shell: format!("print (join {} {})", gen::quote(&sep), lit), here: format!("print {}", gen::quote(&want)) },
            }
        }
        11 => {
            let f = *s.pick(&["f1", "f2"]);
            st(match s.below(3) {
                0 => format!("{} >> \"{}\"", text(s), f),
                1 => format!("err@try (fs@read \"{}\") (e -> \"none\")", f),
                _ => format!("upper << \"{}\"", f),
            })
        }
        12 => st(format!("cd {}", s.pick(&["\"sub\"", "HOME", "\".\"", "sub", "\"nowhere\"", "\"../sub\"", "\"../cwd\""]))),
        13 => {
            let n = gen::name(s);
            st(format!("let {} = {{\n    let k = {};\n{}    [k, {}]\n}}", n, s.below(9), if s.bool() { "# note\n" } else { "" }, s.below(9)))
        }
        14 => st(format!("[{},\n {}\n]", text(s), text(s))),
        15 => st(s.pick(&["let x = {", "[1, 2", "\"open", "1 +", "if True {", "x ->", "let", "\"a\\q\"", "[1,\n2", "5 )", "}", "1 2 = 3", "@"]).to_string()),
        _ => st(s.pick(&["", "\n", "# only a comment", "   "]).to_string()),
    }
}
/// A text or number as program text.
fn text(s: &mut Src) -> String {
    match s.below(4) {
        0 => {
            let i = gen::int(s);
            crate::val::lit(&E::Integer(i)).unwrap()
        }
        1 => gen::quote(&gen::text(s, 8).replace(['\n', '\r', '\u{8}'], " ")),
        2 => format!("({} + {})", s.below(99), s.below(99)),
        _ => gen::quote(&gen::plain(s, 8)),
    }
}

/// What the shell should have written.
#[derive(Default)]
pub struct Said {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
pub fn report(v: &E, to: &mut Said) {
    match v {
        E::None => {}
        E::String(t) => to.out.extend(format!("{}\n", t).bytes()),
        v => to.out.extend(sut::captured(|| format!("{}\n", v)).0.bytes()),
    }
}
pub fn run(env: &mut Environment, t: &str, to: &mut Said) -> Out {
    let (o, io, err) = sut::captured_both(|| sut::run_in(env, t));
    to.out.extend(io);
    to.err.extend(err);
    o
}
pub fn complain(o: &Out, to: &mut Said) {
    match o {
        Out::Err(e) => to.err.extend(sut::captured(|| format!("{}\n", e)).0.bytes()),
        Out::Syntax(e) => to.err.extend(format!("{}\n", e).bytes()),
        _ => {}
    }
}

/// What the interactive loop does with a program.
pub fn program(env: &mut Environment, t: &str, to: &mut Said) -> Result<(), String> {
    let o = run(env, t, to);
    match &o {
        Out::Val(E::Symbol(n)) => {
            let call = E::Apply(Box::new(E::Symbol(n.clone())), vec![]);
            let (r, io, e) = sut::captured_both(|| sut::eval_in(env, &call));
            to.out.extend(io);
            to.err.extend(e);
            complain(&r, to);
        }
        Out::Val(m @ E::Macro(_, _)) => {
            let call = E::Apply(Box::new(m.clone()), vec![E::String(env.get_cwd())]);
            let (r, io, e) = sut::captured_both(|| sut::eval_in(env, &call));
            to.out.extend(io);
            to.err.extend(e);
            if let Out::Val(v) = r {
                report(&v, to);
            }
        }
        Out::Val(v) => report(v, to),
        Out::Panic(m) => return Err(m.clone()),
        o => complain(o, to),
    }
    Ok(())
}

/// The interactive loop: lines are collected until they are a program; an empty line gives up.
pub fn interactive(env: &mut Environment, input: &str, here: &BTreeMap<String, String>, to: &mut Said) -> Result<(), String> {
    let mut lines: Vec<&str> = vec![];
    let all: Vec<&str> = input.split('\n').collect();
    let n = if input.ends_with('\n') { all.len() - 1 } else { all.len() };
    for line in &all[..n] {
        lines.push(line);
        let t = lines.join("\n");
        match sut::guarded_parse(&t)? {
            Err(_) => {
                if line.is_empty() {
                    let o = run(env, &t, to);
                    complain(&o, to);
                    lines.clear();
                }
            }
            Ok(_) => {
                lines.clear();
                program(env, here.get(&t).unwrap_or(&t), to)?;
            }
        }
    }
    Ok(())
}

fn c32(s: &mut Src, cx: &mut Cx) -> R {
    let parts = s.weighted(&[3, 3, 4, 1, 1, 1, 1]);
    // (file, -x, interactive)
    let (file, exec, inter) = [(true, false, false), (false, true, false), (false, false, true), (true, true, false), (true, false, true), (false, true, true), (true, true, true)][parts];
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: false };
    let mut script = |s: &mut Src, sep: &str, broken: bool| -> (Vec<String>, Vec<String>) {
        let n = s.usize(1, if file && exec || inter && (file || exec) { 4 } else { 10 });
        let v: Vec<St> = (0..n).map(|_| statement(s, &mut sc, broken)).collect();
        let _ = sep;
        v.into_iter().map(|x| (x.shell, x.here)).unzip()
    };
    // A statement that is a comment or nothing can only stand between others on lines of its own.
    let (f_shell, f_here) = if file { script(s, ";\n", false) } else { Default::default() };
    let (x_shell, x_here) = if exec { script(s, "; ", false) } else { Default::default() };
    let (i_shell, i_here) = if inter { script(s, "\n", true) } else { Default::default() };
    let f_end = if file { *s.pick(&["", ";", "\n", ";\n", "\n# end\n", "; nonsense ) ="]) } else { "" };
    let f_text = f_shell.join(";\n") + f_end;
    let x_text = x_shell.join("; ");
    let last_newline = s.chance(4, 5);
    let i_text = i_shell.join("\n") + if last_newline { "\n" } else { "" };
    let prelude = *s.pick(&["", "", "let from_prelude = 5", "println \"hello\"", "let g = v -> [v, 1];\nlet x = 7", "println \"before\"; 1 // 0"]);
    // The shell takes what follows -x up to the next option; several arguments are joined by spaces.
    let x_args: Vec<String> = if exec {
        if s.chance(1, 3) {
            x_text.split(' ').map(String::from).collect()
        } else {
            vec![x_text.clone()]
        }
    } else {
        vec![]
    };
    if x_args.iter().any(|a| a.is_empty() || a.starts_with('-') || a.contains('\0')) || f_text.contains('\0') || i_text.contains('\0') || i_text.contains('\r') || i_text.contains('\u{8}') {
        return discard();
    }
    cx.nontrivial(f_shell.len() + x_shell.len() + i_shell.len() >= 3);
    cx.label(["file", "exec", "interactive", "file, exec", "file, interactive", "exec, interactive", "file, exec, interactive"][parts]);
    let mut shown = String::new();
    if file {
        shown.push_str(&format!("file:\n{}\n", f_text));
    }
    if exec {
        shown.push_str(&format!("-x {:?}\n", x_args));
    }
    if inter {
        shown.push_str(&format!("prelude: {:?}\ntyped:\n{}\n", prelude, i_text));
    }
    cx.go(shown)?;

    let setup = || {
        sut::clean_cwd();
        std::fs::create_dir_all("sub").unwrap();
        std::fs::write("f1", "first\n").unwrap();
    };
    let home = sut::work_dir().join("cwd");
    let home = home.to_str().unwrap().to_string();

    // What we expect.
    setup();
    let mut want = Said::default();
    let mut env = sut::programs_env();
    env.define("HOME", E::String(home.clone()));
    if let Out::Err(e) = sut::run_in(&mut env, "let pwd = _ ~> echo CWD") {
        fail!("{}", e);
    }
    if file {
        // The statements of a file or argument are one program: it is evaluated if all of it is right.
        let shell_ok = sut::guarded_parse(&f_text).map_err(|m| Fail::Violation { sig: String::new(), msg: m })?;
        match shell_ok {
            Err(_) => {
                let o = run(&mut env, &f_text, &mut want);
                complain(&o, &mut want);
            }
            Ok(_) => {
                for t in &f_here {
                    let o = run(&mut env, t, &mut want);
                    if o.is_err() {
                        complain(&o, &mut want);
                        break;
                    }
                }
            }
        }
    }
    if exec {
        let mut last = Out::Val(E::None);
        match sut::guarded_parse(&x_text).map_err(|m| Fail::Violation { sig: String::new(), msg: m })? {
            Err(_) => last = run(&mut env, &x_text, &mut want),
            Ok(_) => {
                for t in &x_here {
                    last = run(&mut env, t, &mut want);
                    if last.is_err() {
                        break;
                    }
                }
            }
        }
        match &last {
            Out::Val(v) => report(v, &mut want),
            o => complain(o, &mut want),
        }
    }
    let mut asks = false;
    if inter {
        // The prelude is a program like a script file.
        let o = run(&mut env, prelude, &mut want);
        if !matches!(o, Out::Val(_)) {
            // It asks whether to write another (only a terminal shows the question); the first
            // line is the answer.
            asks = true;
        }
        let here: BTreeMap<String, String> = i_shell.iter().cloned().zip(i_here.iter().cloned()).collect();
        if let Err(m) = interactive(&mut env, &i_text, &here, &mut want) {
            fail!("{}", m);
        }
    }
    let want_tree = tree();

    // What happens.
    setup();
    if inter {
        std::fs::write(".dune-prelude", prelude).unwrap();
    }
    let script_path = sut::work_dir().join("script.dune");
    std::fs::write(&script_path, &f_text).unwrap();
    let mut c = Command::new(sut::bin_dir().join("dunesh"));
    c.env_clear().env("HOME", &home).env("PATH", sut::bin_dir()).env("V_PV", "inherited").current_dir(sut::cwd_dir());
    if file {
        c.arg(&script_path);
    }
    if inter && (file || exec) {
        c.arg("-i");
    }
    if exec {
        c.arg("-x").args(&x_args);
    }
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let typed = if asks { format!("n\n{}", i_text) } else { i_text.clone() };
    let (r, stuck) = sut::watched(30, || {
        let mut child = c.spawn().unwrap();
        let mut stdin = child.stdin.take().unwrap();
        let _ = stdin.write_all(typed.as_bytes());
        drop(stdin);
        child.wait_with_output().unwrap()
    });
    ensure!(!stuck, "the shell never ends");
    let have_tree = tree();
    sut::clean_cwd();
    ensure!(r.status.success(), "the shell ends with {:?}; it wrote {:?}", r.status, String::from_utf8_lossy(&r.stderr));
    let l = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    let out = r.stdout.clone();
    ensure!(out == want.out, "it prints {:?} instead of {:?} (errors: {:?})", l(&out), l(&want.out), l(&r.stderr));
    ensure!(r.stderr == want.err, "the errors are {:?} instead of {:?}", l(&r.stderr), l(&want.err));
    ensure!(have_tree == want_tree, "it leaves the files {:?} instead of {:?}", have_tree, want_tree);
    Ok(())
}

/// The files in the working directory, apart from those of the shell.
pub fn tree() -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    let base = sut::cwd_dir();
    for d in ["", "sub/"] {
        for e in std::fs::read_dir(base.join(d)).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if !n.starts_with(".dune") {
                m.insert(format!("{}{}", d, n), std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    m
}
