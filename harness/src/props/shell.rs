//! The shell as a process: start-up, leaving, the history file, interrupts and typed input.

use crate::engine::*;
use crate::props::lang::Scope;
use crate::props::modes::{complain, interactive, report, run, st, statement, tree, Said, St};
use crate::sut::{self, Out};
use crate::{ensure, fail, gen};
use dune::{Environment, Expression as E};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C37",
            rule: "One to three starts of the shell in one home directory: with no prelude, a right one, a failing one, one that cannot be read, or with a script or -x only; every answer to its question. Non-trivial: it asks, or starts more than once.",
            subs: &[Sub { name: "starts", quick: 3_000, thorough: 60_000, f: c37 }],
            cpu_limit: None,
            assumptions: &["Standard input is no terminal, so that the guided tour of the first start is cut short; it is not checked."],
        },
        Prop {
            id: "C38",
            rule: "Programs of statements around one call of exit, which stands alone or in a function, macro, loop, handler, list, operand, pipe, callback or evaluated code; statuses of every size and arguments that are no status; from a file, -x or typed in. Non-trivial: it is not a plain call, or something was printed before it.",
            subs: &[Sub { name: "exits", quick: 10_000, thorough: 200_000, f: c38 }],
            cpu_limit: None,
            assumptions: &["What a statement prints is what the interpreter gives in the harness (checked by C06, C11, C15 and C28)."],
        },
        Prop {
            id: "C39",
            rule: "One to four sessions one after another in one home directory, with statements over one or several lines, given up or wrong, repeated, with spaces in front and with every character; sessions that end at the end of the input, by exit, or by the death of the shell; history files that are new, of the old form, or nearly full. Non-trivial: at least three programs are typed.",
            subs: &[Sub { name: "sessions", quick: 4_000, thorough: 100_000, f: c39 }],
            cpu_limit: None,
            assumptions: &["Texts that are no program (yet) may be in the history or not.", "The format of the file is that of the line editor: one entry per line, with newlines and backslashes escaped."],
        },
        Prop {
            id: "C40",
            rule: "Trees of up to 12 files, directories and links with names of letters, digits, dots, dashes, spaces and accents; lines with a bare or quoted, relative or absolute path to complete, at the end or in the middle of a line; from a directory, from one below, and from one that is gone. Non-trivial: something is typed of the name, or there is more than one candidate.",
            subs: &[Sub { name: "completions", quick: 30_000, thorough: 600_000, f: c40 }],
            cpu_limit: None,
            assumptions: &["Names with spaces are only completed within quotes: the line editor would write a backslash otherwise.", "Nothing is quoted by ' before the path: the line editor takes that for the start of a text."],
        },
        Prop {
            id: "C41",
            rule: "Interactive sessions of up to 40 statements over one or several lines with interrupts of the shell, or of the shell and its programs, in between: alone, in loops, functions and pipes; input read from the typed lines; lines that are no text, standard input that cannot be read, and keyboard functions without a keyboard. Non-trivial: something is interrupted, read, or cannot be.",
            subs: &[Sub { name: "interrupts", quick: 2_500, thorough: 100_000, f: c41 }, Sub { name: "input", quick: 4_000, thorough: 60_000, f: c41_input }, Sub { name: "unreadable", quick: 1_500, thorough: 30_000, f: c41_unreadable }],
            cpu_limit: None,
            assumptions: &["Interrupts come from a program that the shell runs, so that the moment is the same in every run; those that come while a line is being edited at a terminal are not covered."],
        },
    ]
}

// ---------------------------------------------------------------- running it

struct Ran {
    out: Vec<u8>,
    err: Vec<u8>,
    code: Option<i32>,
    signal: Option<i32>,
}
fn l(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// Run the shell in its home directory.
fn shell(args: &[String], typed: &[u8]) -> Result<Ran, Fail> {
    let mut c = Command::new(sut::bin_dir().join("dunesh"));
    c.env_clear().env("HOME", sut::cwd_dir()).env("PATH", sut::bin_dir()).current_dir(sut::cwd_dir());
    c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
    let (r, stuck) = sut::watched(30, || {
        let mut child = c.spawn().unwrap();
        let mut stdin = child.stdin.take().unwrap();
        let typed = typed.to_vec();
        let h = std::thread::spawn(move || {
            let _ = stdin.write_all(&typed);
        });
        let r = child.wait_with_output().unwrap();
        let _ = h.join();
        r
    });
    ensure!(!stuck, "the shell never ends");
    Ok(Ran { code: r.status.code(), signal: r.status.signal(), out: r.stdout, err: r.stderr })
}

fn setup() {
    sut::clean_cwd();
    std::fs::create_dir_all("sub").unwrap();
    std::fs::write("f1", "first\n").unwrap();
}
fn session_env() -> Environment {
    let mut env = sut::programs_env();
    env.define("HOME", E::String(sut::cwd_dir().to_str().unwrap().to_string()));
    sut::run_in(&mut env, "let pwd = _ ~> echo CWD");
    env
}
fn viol(m: String) -> Fail {
    Fail::Violation { sig: String::new(), msg: m }
}
fn typed_ok(t: &str) -> bool {
    !t.contains(['\0', '\r', '\u{8}'])
}
fn int_lit(n: i64) -> String {
    crate::val::lit(&E::Integer(n)).unwrap()
}

// ---------------------------------------------------------------- C37

fn c37(s: &mut Src, cx: &mut Cx) -> R {
    #[derive(Clone, PartialEq)]
    enum Prelude {
        Missing,
        File(String),
        NoText,
        NoAccess,
        Directory,
        Default,
    }
    let first = match s.weighted(&[6, 5, 2, 2, 1, 1, 1]) {
        0 => Prelude::Missing,
        1 => {
            let mut t = s.pick(&["let v = 41", "println \"hello\"\nlet v = 41;\n", "", "# nothing\n", "let v = 41;\n# é 日\n\n\nlet w = v + 1\n", "let f = x -> {\n  x + 1\n}; let v = f 40\n", "let v = 41;\r\nprintln v\r\n", "cd \"sub\"; let v = 41"]).to_string();
            if s.bool() {
                t.push_str(&format!(";let k{} = {};\n", s.below(9), gen::quote(&gen::plain(s, 9))));
            }
            Prelude::File(t)
        }
        2 => Prelude::File(s.pick(&["let v = 41; 1 // 0", "println \"a\"; no_such_program; println \"b\"", "err@throw 5; let v = 3"]).to_string()),
        3 => Prelude::File(s.pick(&["let v = ", "println \"a\"; )", "\"open"]).to_string()),
        4 => Prelude::NoText,
        5 => Prelude::NoAccess,
        _ => Prelude::Directory,
    };
    struct Start {
        mode: usize,
        answer: String,
        typed: Vec<String>,
    }
    let starts: Vec<Start> = (0..s.usize(1, 3))
        .map(|_| {
            let mode = s.weighted(&[6, 1, 1, 2]);
            let answer = s.pick(&["y", "n", "Y", " y", "y \t", "", "yes", "N", "ny", "println 5", "no", "yy", "ý"]).to_string();
            let typed = (0..s.below(3)).map(|_| s.pick(&["println \"one\"", "println v", "v", "println CWD", "1 // 0", "let v = 5", "println (defined? v)"]).to_string()).collect();
            Start { mode, answer, typed }
        })
        .collect();
    let eof_at_question = s.chance(1, 8);
    let shown = format!(
        "prelude: {}\n{}",
        match &first {
            Prelude::Missing => "none".into(),
            Prelude::File(t) => format!("{:?}", t),
            Prelude::NoText => "bytes that are no text".into(),
            Prelude::NoAccess => "may not be read".into(),
            _ => "a directory".to_string(),
        },
        starts.iter().map(|x| format!("start {}: answer {:?}, then {:?}\n", ["plain", "with a script", "with -x", "with -x and -i"][x.mode], x.answer, x.typed)).collect::<String>() + if eof_at_question { "the input ends at the first question" } else { "" }
    );
    cx.nontrivial(starts.len() > 1 || !matches!(&first, Prelude::File(_)));
    cx.go(shown)?;

    let real_default = std::fs::read("/repo/src/.default-dune-prelude").ok();
    setup();
    let path = sut::cwd_dir().join(".dune-prelude");
    let bytes = b"let v = \"\xff\xfe\"\n".to_vec();
    match &first {
        Prelude::Missing | Prelude::Default => {}
        Prelude::File(t) => std::fs::write(&path, t).unwrap(),
        Prelude::NoText => std::fs::write(&path, &bytes).unwrap(),
        Prelude::NoAccess => {
            std::fs::write(&path, "let v = 1").unwrap();
            std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o000)).unwrap();
        }
        Prelude::Directory => std::fs::create_dir(&path).unwrap(),
    }
    std::fs::write("script.dune", "println \"script\"").unwrap();
    let mut state = first.clone();
    for (i, x) in starts.iter().enumerate() {
        let at = format!("start {}: ", i + 1);
        let look = |state: &Prelude| -> Result<(), String> {
            let now = std::fs::read(&path);
            match state {
                Prelude::Missing => {
                    if path.exists() {
                        return Err("a prelude is written although nobody wants it".into());
                    }
                }
                Prelude::File(t) if now.as_deref().ok() != Some(t.as_bytes()) => return Err(format!("the prelude is changed to {:?}", now.map(|b| l(&b)))),
                Prelude::NoText if now.as_deref().ok() != Some(&bytes) => return Err("the prelude is changed".into()),
                Prelude::NoAccess if std::fs::metadata(&path).map(|m| (m.len(), m.permissions().mode() & 0o777)).ok() != Some((9, 0)) => return Err("the prelude is changed".into()),
                Prelude::Directory if !path.is_dir() => return Err("the prelude is changed".into()),
                _ => {}
            }
            Ok(())
        };
        if x.mode == 1 || x.mode == 2 {
            // A script does not concern itself with preludes or questions.
            let args: Vec<String> = if x.mode == 1 { vec!["script.dune".into()] } else { vec!["-x".into(), "println \"script\"".into()] };
            let r = shell(&args, b"y\ny\n")?;
            ensure!(r.code == Some(0) && r.out == b"script\n" && r.err.is_empty(), "{}it prints {:?}, the errors are {:?}, and it ends with {:?}", at, l(&r.out), l(&r.err), r.code);
            ensure!(!sut::cwd_dir().join(".dune-history").exists() || i > 0, "{}a script writes a history", at);
            if let Err(m) = look(&state) {
                fail!("{}{}", at, m);
            }
            continue;
        }
        // What we expect.
        let mut want = Said::default();
        let mut env = session_env();
        let mut args = vec![];
        if x.mode == 3 {
            args = vec!["-x".into(), "let xv = 6; xv * 7".into(), "-i".into()];
            let o = run(&mut env, "let xv = 6; xv * 7", &mut want);
            if let Out::Val(v) = &o {
                report(v, &mut want);
            }
        }
        let mut asks = true;
        let mut exact = true;
        match &state {
            Prelude::Missing | Prelude::Default => exact = false,
            Prelude::File(t) => {
                let o = run(&mut env, t, &mut want);
                asks = !matches!(o, Out::Val(_));
            }
            _ => {}
        }
        let mut answer = x.answer.clone();
        let yes = answer.trim().to_lowercase() == "y";
        if state != Prelude::Missing && yes {
            // What becomes of this answer is no concern of ours, as long as the file stays.
            answer = "n".into();
        }
        // The default prelude may ask or not; this answer does no harm.
        if state == Prelude::Default {
            answer = "".into();
        }
        let mut typed = String::new();
        if asks && eof_at_question {
            if state == Prelude::Missing || state == Prelude::Default {
                want = Said::default();
            }
        } else {
            if asks {
                typed.push_str(&answer);
                typed.push('\n');
            }
            if !exact {
                // Whatever the tour asks.
                typed.push_str(&"\n".repeat(12));
                typed.push_str("println \"after the tour\"\nprintln (1 + 1)\n");
            } else {
                let t: String = x.typed.iter().map(|t| format!("{}\n", t)).collect();
                typed.push_str(&t);
                if let Err(m) = interactive(&mut env, &t, &BTreeMap::new(), &mut want) {
                    return Err(viol(m));
                }
            }
        }
        let r = shell(&args, typed.as_bytes())?;
        ensure!(r.code == Some(0), "{}it ends with {:?} {:?}; the errors are {:?}", at, r.code, r.signal, l(&r.err));
        if exact {
            ensure!(r.out == want.out, "{}it prints {:?} instead of {:?} (errors: {:?})", at, l(&r.out), l(&want.out), l(&r.err));
            ensure!(r.err == want.err, "{}the errors are {:?} instead of {:?}", at, l(&r.err), l(&want.err));
        } else if !(asks && eof_at_question) {
            ensure!(r.out.ends_with(b"after the tour\n2\n"), "{}lines that are typed after the question are not run: it prints {:?}, errors {:?}", at, l(&r.out), l(&r.err));
        }
        if state == Prelude::Missing && yes && !eof_at_question {
            let now = std::fs::read(&path);
            ensure!(now.is_ok(), "{}no prelude is written: {:?}", at, now);
            let now = now.unwrap();
            if let Some(d) = &real_default {
                ensure!(&now == d, "{}what is written is not the default prelude, but {} bytes that start {:?}", at, now.len(), l(&now[..now.len().min(60)]));
            }
            ensure!(sut::guarded_parse(&l(&now)).map_err(viol)?.is_ok(), "{}the prelude that is written is no program", at);
            state = Prelude::Default;
        } else if let Err(m) = look(&state) {
            fail!("{}{}", at, m);
        }
    }
    sut::clean_cwd();
    Ok(())
}

// ---------------------------------------------------------------- C38

fn quiet_statement(s: &mut Src, sc: &mut Scope) -> St {
    match s.below(6) {
        0 => st(format!("println {}", s.below(100))),
        1 => st(format!("print {}", s.below(100))),
        2 => st(format!("say w{}", s.below(9))),
        3 => st(format!("\"t{}\" >>> \"{}\"", s.below(9), s.pick(&["f1", "f2"]))),
        4 => st(format!("print \"{}\"", "x".repeat(*s.pick(&[1, 1000, 9000, 30_000])))),
        _ => statement(s, sc, false),
    }
}

fn c38(s: &mut Src, cx: &mut Cx) -> R {
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: false };
    let mode = s.weighted(&[3, 3, 3, 1, 1]);
    let before: Vec<St> = (0..s.below(4)).map(|_| quiet_statement(s, &mut sc)).collect();
    let after: Vec<St> = (0..s.below(3)).map(|_| quiet_statement(s, &mut sc)).collect();
    let wrong = s.chance(1, 6);
    let n = match s.below(4) {
        0 => s.range(0, 5),
        1 => s.range(0, 255),
        2 => gen::int(s),
        _ => s.range(-300, 700),
    };
    let lit = int_lit(n);
    // The status, as an expression, after a statement that prepares it.
    let (prep, arg) = if wrong {
        (None, s.pick(&["\"a\"", "2.5", "None", "[1]", "True", "\"3\"", "{a = 1}", "nope_nope", "()"]).to_string())
    } else {
        match s.below(5) {
            0..=1 => (None, lit),
            2 => (Some(format!("let status = {}", lit)), "status".to_string()),
            3 => (Some(format!("let status = q -> {}", lit)), "(status 0)".to_string()),
            _ => {
                let k = s.range(-50, 50);
                match n.checked_sub(k) {
                    Some(d) => (None, format!("({} + {})", int_lit(d), int_lit(k))),
                    None => (None, lit),
                }
            }
        }
    };
    let by = *s.pick(&["exit", "quit", "os@exit", "std@os@exit"]);
    let call = format!("{} {}", by, arg);
    let k = s.below(4);
    let form = s.weighted(&[4, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]);
    // The statement, and what it prints before it leaves.
    let (text, prints) = match form {
        0 => (call, String::new()),
        1 => (format!("let fe = q -> {{ print \"in\"; {} q; println \"no\"; 5 }}; println (fe {})", by, arg), "in".into()),
        2 => (format!("for i in 0 to 5 {{ print i; if i == {} {{ {} }} }}", k, call), (0..=k).map(|i| i.to_string()).collect()),
        3 => (format!("err@try ({}) (e -> println \"no\")", call), String::new()),
        4 => (format!("err@try (1 // 0) (e -> {})", call), String::new()),
        5 => (format!("say w | (q -> {})", call), String::new()),
        6 => (format!("say w | upper | (q -> {{ print q; {} }})", call), "W".into()),
        7 => (format!("fn@map (q -> {{ print q; {} }}) [1, 2]", call), "1".into()),
        8 => (format!("println ({})", call), String::new()),
        9 => (format!("[({}), (println \"no\")]", call), String::new()),
        10 => (format!("let me = q ~> {{ print \"m\"; {} }}; me 1; println \"no\"", call), "m".into()),
        11 => (format!("let r = 1 + ({})", call), String::new()),
        12 => (format!("if ({}) {{ println \"no\" }} else {{ println \"no\" }}", call), String::new()),
        13 => (format!("eval (parse@expr {})", gen::quote(&call)), String::new()),
        14 => (format!("({}) >> \"f2\"", call), String::new()),
        15 => (format!("let g = a -> b -> {{ print a; {} b }}; let h = g 1; h {}", by, arg), "1".into()),
        _ => (format!("{} | {}", arg, by), String::new()),
    };
    if form == 14 && wrong || form == 16 && !(arg.starts_with('-') || arg.starts_with(|c: char| c.is_ascii_digit())) {
        return discard();
    }
    let what = St { shell: text.clone(), here: if wrong { text } else { format!("print {}", gen::quote(&prints)) } };
    let mut all: Vec<St> = before;
    if let Some(p) = prep {
        all.push(st(p));
    }
    let place = all.len();
    all.push(what);
    all.extend(after);
    if all.iter().any(|x| !typed_ok(&x.shell)) {
        return discard();
    }
    cx.nontrivial(form > 0 || place > 0);
    cx.label(["file", "exec", "interactive", "file, interactive", "prelude"][mode]);
    let sep = if mode == 2 { "\n" } else { ";\n" };
    let text = all.iter().map(|x| x.shell.clone()).collect::<Vec<_>>().join(sep);
    if text.len() > 100_000 {
        return discard();
    }
    cx.go(format!("{}:\n{}", ["file", "-x", "typed", "file with -i", "prelude"][mode], text))?;

    setup();
    let mut want = Said::default();
    let mut env = session_env();
    let mut gone = false;
    if mode == 2 {
        for (i, x) in all.iter().enumerate() {
            let mut here = BTreeMap::new();
            here.insert(x.shell.clone(), x.here.clone());
            let t = format!("{}\n", x.shell);
            if let Err(m) = interactive(&mut env, &t, &here, &mut want) {
                fail!("{}", m);
            }
            if i == place && !wrong {
                gone = true;
                break;
            }
        }
    } else {
        let mut last = Out::Val(E::None);
        for (i, x) in all.iter().enumerate() {
            last = run(&mut env, &x.here, &mut want);
            if last.is_err() {
                break;
            }
            if i == place && !wrong {
                gone = true;
                break;
            }
        }
        if let Out::Panic(m) = &last {
            fail!("{}", m);
        }
        if !gone {
            if mode == 1 {
                match &last {
                    Out::Val(v) => report(v, &mut want),
                    o => complain(o, &mut want),
                }
            } else if mode != 4 {
                complain(&last, &mut want);
            }
            if mode == 3 || mode == 4 {
                let _ = interactive(&mut env, "println \"still here\"\n", &BTreeMap::new(), &mut want);
            }
        }
        if mode == 4 && !matches!(last, Out::Val(_)) {
            // It asks; see below.
            want.out.extend(b"");
        }
    }
    let want_tree = tree();

    setup();
    let script = sut::work_dir().join("script.dune");
    let script = script.to_str().unwrap().to_string();
    std::fs::write(".dune-prelude", if mode == 4 { &text } else { "" }).unwrap();
    let r = match mode {
        0 => {
            std::fs::write(&script, &text).unwrap();
            shell(&[script], b"")?
        }
        1 => shell(&["-x".into(), text.clone()], b"")?,
        2 => shell(&[], (text.clone() + "\n").as_bytes())?,
        3 => {
            std::fs::write(&script, &text).unwrap();
            shell(&[script, "-i".into()], b"println \"still here\"\n")?
        }
        // An empty line is no answer, and no statement.
        _ => shell(&[], b"\nprintln \"still here\"\n")?,
    };
    let have_tree = tree();
    sut::clean_cwd();
    let code = if gone { n.rem_euclid(256) as i32 } else { 0 };
    ensure!(r.code == Some(code), "the status is {:?} (signal {:?}) instead of {}; it prints {:?}, errors {:?}", r.code, r.signal, code, l(&r.out), l(&r.err));
    ensure!(r.out == want.out, "it prints {:?} instead of {:?} (errors: {:?})", l(&r.out), l(&want.out), l(&r.err));
    ensure!(r.err == want.err, "the errors are {:?} instead of {:?}", l(&r.err), l(&want.err));
    ensure!(have_tree == want_tree, "it leaves the files {:?} instead of {:?}", have_tree, want_tree);
    Ok(())
}

// ---------------------------------------------------------------- C39

/// The entries of a history file.
fn entries(b: &[u8]) -> Result<Vec<String>, String> {
    let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let mut lines = t.split('\n').collect::<Vec<_>>();
    if lines.pop() != Some("") {
        return Err("it does not end with a newline".into());
    }
    let v2 = lines.first() == Some(&"#V2");
    if v2 {
        lines.remove(0);
    }
    let mut r = vec![];
    for x in lines {
        let mut e = String::new();
        let mut it = x.chars();
        while let Some(c) = it.next() {
            if c == '\\' && v2 {
                match it.next() {
                    Some('n') => e.push('\n'),
                    Some('\\') => e.push('\\'),
                    c => return Err(format!("the escape \\{:?} in {:?}", c, x)),
                }
            } else {
                e.push(c);
            }
        }
        r.push(e);
    }
    Ok(r)
}
fn dedup(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.dedup();
    v
}

fn c39(s: &mut Src, cx: &mut Cx) -> R {
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: false };
    let old: Vec<String> = match s.weighted(&[4, 3, 1]) {
        0 => vec![],
        1 => (0..s.below(6)).map(|i| s.pick(&["let o = N", "println \"N é\"", "[1,\n N]", "print \"a\\\\N\"", "exit N", "N"]).replace('N', &i.to_string())).collect(),
        _ => (0..90 + s.below(20)).map(|i| format!("let o = {}", i)).collect(),
    };
    let old_form = s.chance(1, 4) && old.iter().all(|o| !o.contains('\n') && !o.starts_with("#V2"));
    let mut programs = 0;
    // What is typed, and how it ends.
    let sessions: Vec<(Vec<St>, usize)> = (0..s.usize(1, 4))
        .map(|_| {
            let mut v: Vec<St> = vec![];
            for _ in 0..s.len(12) {
                let x = match s.below(10) {
                    0..=3 => statement(s, &mut sc, false),
                    4 => statement(s, &mut sc, true),
                    5 => st(format!("println {}", gen::quote(&gen::text(s, 8)))),
                    6 => st(format!("{}let sp = {}", s.pick(&[" ", "\t", "  "]), s.below(9))),
                    7 if !v.is_empty() => {
                        let t = v[v.len() - 1].shell.clone();
                        let h = v[v.len() - 1].here.clone();
                        St { shell: t, here: h }
                    }
                    8 => st(format!("# note {}", s.below(9))),
                    _ => st(format!("[{},\n  {}\n]", s.below(9), s.below(9))),
                };
                programs += 1;
                v.push(x);
            }
            (v, s.weighted(&[4, 2, 2]))
        })
        .collect();
    if sessions.iter().any(|(v, _)| v.iter().any(|x| !typed_ok(&x.shell))) {
        return discard();
    }
    cx.nontrivial(programs >= 3);
    let mut shown = format!("history {}: {:?}\n", if old_form { "(old form)" } else { "" }, if old.len() > 10 { vec![format!("{} entries", old.len())] } else { old.clone() });
    for (v, end) in &sessions {
        shown.push_str(&format!("session:\n{}\nends {}\n", v.iter().map(|x| x.shell.clone()).collect::<Vec<_>>().join("\n"), ["with the input", "by exit", "by a kill"][*end]));
    }
    cx.go(shown)?;

    setup();
    std::fs::write(".dune-prelude", "").unwrap();
    let path = sut::cwd_dir().join(".dune-history");
    if !old.is_empty() {
        let mut t = String::new();
        if !old_form {
            t.push_str("#V2\n");
        }
        for o in &old {
            t.push_str(&if old_form { o.clone() } else { o.replace('\\', "\\\\").replace('\n', "\\n") });
            t.push('\n');
        }
        std::fs::write(&path, t).unwrap();
    }
    let mut want: Vec<String> = dedup(&old);
    want.drain(..want.len().saturating_sub(100));
    let mut partial: BTreeSet<String> = BTreeSet::new();
    for (i, (v, end)) in sessions.iter().enumerate() {
        let at = format!("session {}: ", i + 1);
        let mut typed: Vec<String> = v.iter().map(|x| x.shell.clone()).collect();
        // Whatever is left open is given up.
        typed.push("".into());
        match end {
            1 => typed.push("exit 3".into()),
            2 => typed.push("slay".into()),
            _ => {}
        }
        let text = typed.join("\n") + "\n";
        // The programs among the lines.
        let mut lines: Vec<&str> = vec![];
        for line in text[..text.len() - 1].split('\n') {
            lines.push(line);
            let t = lines.join("\n");
            if sut::guarded_parse(&t).map_err(viol)?.is_ok() {
                lines.clear();
                if !t.is_empty() && !t.starts_with(char::is_whitespace) {
                    want.push(t);
                }
            } else {
                partial.insert(t);
                if line.is_empty() {
                    lines.clear();
                }
            }
        }
        let r = shell(&[], text.as_bytes())?;
        let ends = [(Some(0), None), (Some(3), None), (None, Some(libc::SIGKILL))][*end];
        ensure!((r.code, r.signal) == ends, "{}it ends with {:?} {:?} instead of {:?}; errors {:?}", at, r.code, r.signal, ends, l(&r.err));
        let have = match std::fs::read(&path) {
            Ok(b) => match entries(&b) {
                Ok(h) => h,
                Err(m) => fail!("{}the history file is wrong: {}: {:?}", at, m, l(&b)),
            },
            Err(_) => vec![],
        };
        if have == old && want.len() == dedup(&old).len().min(100) {
            // Nothing was to be added to it.
            continue;
        }
        let full = have.len() >= 100;
        ensure!(have.len() <= 100, "{}there are {} entries", at, have.len());
        let progs: Vec<String> = have.iter().filter(|h| !partial.contains(*h) || old.contains(h)).cloned().collect();
        let (a, b) = (dedup(&progs), dedup(&want));
        let ok = if full { b.ends_with(&a) || a.len() > 0 && b.ends_with(&a[1..]) } else { a == b };
        let d = a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x == y).count();
        ensure!(
            ok,
            "{}the history has {} programs instead of {}{}; {} steps from the end there is {:?} instead of {:?}",
            at,
            a.len(),
            b.len(),
            if full { " (it is full)" } else { "" },
            d,
            a.iter().rev().nth(d),
            b.iter().rev().nth(d)
        );
    }
    sut::clean_cwd();
    Ok(())
}

// ---------------------------------------------------------------- C40

fn c40(s: &mut Src, cx: &mut Cx) -> R {
    let gone = s.chance(1, 6);
    let quoted = s.bool();
    let name = |s: &mut Src| -> String {
        let mut n = String::new();
        for _ in 0..1 + s.below(4) {
            n.push(*s.pick(&['a', 'b', 'é', 'B', '1', '-', '_', '.', 'c', ' ']));
        }
        // Names with spaces, and those that mean something else.
        if !quoted || gone {
            n = n.replace(' ', "s");
        }
        if n.trim() != n || n == "." || n == ".." || n == "-" {
            n = format!("n{}", n.trim());
        }
        n
    };
    // The tree: path -> (is a directory, shown).
    let mut tree: BTreeMap<String, bool> = BTreeMap::new();
    let mut links: Vec<(String, String)> = vec![];
    let mut dirs = vec![String::new()];
    for _ in 0..s.usize(1, 12) {
        let p = format!("{}{}", s.pick(&dirs), name(s));
        if tree.contains_key(&p) || links.iter().any(|(a, _)| a == &p) {
            continue;
        }
        match s.weighted(&[5, 3, 1]) {
            0 => {
                tree.insert(p, false);
            }
            1 => {
                tree.insert(p.clone(), true);
                dirs.push(p + "/");
            }
            _ => {
                let to = s.pick(&[".", "nowhere", "/"]).to_string();
                if to != "nowhere" {
                    tree.insert(p.clone(), true);
                }
                links.push((p, to));
            }
        }
    }
    let base = sut::cwd_dir().join("t");
    let base = base.to_str().unwrap().to_string();
    // Where the shell is, and what is typed of the path.
    let here = s.pick(&dirs).clone();
    let target = if s.chance(1, 6) { s.pick(&["nodir/", "no/dir/"]).to_string() } else { s.pick(&dirs).clone() };
    let (dir_typed, dir): (String, String) = match if gone { s.weighted(&[1, 0, 0, 4]) } else { s.weighted(&[4, 3, 1, 3]) } {
        0 => (String::new(), here.clone()),
        1 if here.is_empty() => (target.clone(), target),
        1 => {
            let up = "../".repeat(here.matches('/').count());
            (up + &target, target)
        }
        2 => ("./".into(), here.clone()),
        _ => (format!("{}/{}", base, target), target),
    };
    let in_dir: Vec<String> = tree.keys().filter(|k| k.starts_with(&dir) && !k[dir.len()..].is_empty() && !k[dir.len()..].contains('/')).map(|k| k[dir.len()..].to_string()).collect();
    let typed: String = match s.below(4) {
        0 => String::new(),
        1 | 2 if !in_dir.is_empty() => {
            let n = s.pick(&in_dir).clone();
            let k = s.usize(0, n.chars().count());
            n.chars().take(k).collect()
        }
        _ => name(s).chars().take(2).collect(),
    };
    let head = if quoted { s.pick(&["ls \"", "let x = fs@read \"", "f (1) {a = \"", "\"done\" \"", "é \""]).to_string() } else { s.pick(&["ls ", "", "cat a b ", "say 1 | xcat ", "let x = (", "a; cd ", "é 日 "]).to_string() };
    let tail = if s.chance(1, 3) { s.pick(&[" | upper", "\" \"x", ") rest", " é"]).to_string() } else { String::new() };
    let word = format!("{}{}", dir_typed, typed);
    let line = format!("{}{}{}", head, word, tail);
    let pos = head.len() + word.len();
    let found: Vec<&String> = in_dir.iter().filter(|n| n.starts_with(&typed)).collect();
    cx.nontrivial(!typed.is_empty() || found.len() > 1);
    cx.label(if gone { "directory gone" } else { "directory there" });
    cx.go(format!("tree {:?}, links {:?}\nin {:?}{}, at {} of the line {:?}", tree, links, here, if gone { " (removed)" } else { "" }, pos, line).replace(&base, "BASE"))?;

    sut::clean_cwd();
    std::fs::create_dir("t").unwrap();
    for (p, is_dir) in &tree {
        if links.iter().any(|(a, _)| a == p) {
            continue;
        }
        let p = format!("t/{}", p);
        if *is_dir {
            std::fs::create_dir(p).unwrap();
        } else {
            std::fs::write(p, "x").unwrap();
        }
    }
    for (p, to) in &links {
        std::os::unix::fs::symlink(to, format!("t/{}", p)).unwrap();
    }
    let cwd = if gone { format!("{}/was-here", base) } else { format!("{}/{}", base, here) };
    let r = guarded(|| dunebin::verif_hooks::complete(&line, pos, &cwd));
    let _ = std::env::set_current_dir(sut::cwd_dir());
    let r = match r {
        Ok(r) => r,
        Err(m) => fail!("{}", m),
    };
    let want: BTreeMap<String, String> = if gone && dir_typed.is_empty() {
        BTreeMap::new()
    } else {
        found.iter().map(|n| (n.to_string(), format!("{}{}{}{}{}", head, dir_typed, n, if tree[&format!("{}{}", dir, n)] { "/" } else { "" }, tail))).collect()
    };
    let (start, offers) = match r {
        Some(r) => r,
        None => (0, vec![]),
    };
    let mut have: BTreeMap<String, String> = BTreeMap::new();
    for (shown, text) in &offers {
        ensure!(start <= pos && line.is_char_boundary(start), "what is replaced begins at {}", start);
        let done = format!("{}{}{}", &line[..start], text, &line[pos..]);
        ensure!(have.insert(shown.clone(), done).is_none(), "{:?} is offered twice", shown);
    }
    ensure!(have == want, "the offers and resulting lines are {:?} instead of {:?}", have, want);
    sut::clean_cwd();
    Ok(())
}

// ---------------------------------------------------------------- C41

fn c41(s: &mut Src, cx: &mut Cx) -> R {
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: false };
    let mut intr = 0;
    let n = s.usize(1, 40);
    let all: Vec<St> = (0..n)
        .map(|i| match s.below(8) {
            0..=1 => {
                intr += 1;
                let who = *s.pick(&["intr one", "intr all"]);
                let f = match s.below(8) {
                    0..=2 => "X",
                    3 => "for i in 0 to 3 { X; print i }",
                    4 => "X | count",
                    5 => "let fi = q -> { X; q }; println (fi 3)",
                    6 => "println (err@try (X) (e -> \"none\"))",
                    _ => "X; println \"done\"",
                };
                // It says its argument, and the programs may be interrupted too.
                let here = f.replace('X', &who.replace("intr", "say"));
                St { shell: f.replace('X', who), here }
            }
            2..=4 => st(format!("println (len [{},\n{},\n{}])", i, i, i)),
            5 => st(format!("let m{} = {{\n  {}\n}}", s.below(3), i)),
            _ => statement(s, &mut sc, s.size > 50),
        })
        .collect();
    // In a pipe, who else gets the signal depends on the moment.
    if all.iter().any(|x| !typed_ok(&x.shell) || x.shell.contains("intr all | ")) {
        return discard();
    }
    let text = all.iter().map(|x| x.shell.clone()).collect::<Vec<_>>().join("\n") + "\n";
    cx.nontrivial(intr > 0);
    cx.go(text.clone())?;
    setup();
    let mut want = Said::default();
    let mut env = session_env();
    // A statement may be part of one that was left open.
    let mut here = BTreeMap::new();
    for x in &all {
        here.insert(x.shell.clone(), x.here.clone());
    }
    let mut parsed: Vec<String> = vec![];
    let mut lines: Vec<&str> = vec![];
    for line in text[..text.len() - 1].split('\n') {
        lines.push(line);
        let t = lines.join("\n");
        if sut::guarded_parse(&t).map_err(viol)?.is_ok() {
            parsed.push(t);
            lines.clear();
        } else if line.is_empty() {
            lines.clear();
        }
    }
    if parsed.iter().any(|t| t.contains("intr") && !here.contains_key(t)) {
        return discard();
    }
    if let Err(m) = interactive(&mut env, &text, &here, &mut want) {
        fail!("{}", m);
    }
    let want_tree = tree();
    setup();
    std::fs::write(".dune-prelude", "").unwrap();
    let r = shell(&[], text.as_bytes())?;
    let have_tree = tree();
    sut::clean_cwd();
    ensure!(r.code == Some(0), "it ends with {:?} {:?}; it prints {:?}, errors {:?}", r.code, r.signal, l(&r.out), l(&r.err));
    ensure!(r.out == want.out, "it prints {:?} instead of {:?} (errors: {:?})", l(&r.out), l(&want.out), l(&r.err));
    ensure!(r.err == want.err, "the errors are {:?} instead of {:?}", l(&r.err), l(&want.err));
    ensure!(have_tree == want_tree, "it leaves the files {:?} instead of {:?}", have_tree, want_tree);
    Ok(())
}

/// Lines that `input` reads are no statements, and the statements after them are.
fn c41_input(s: &mut Src, cx: &mut Cx) -> R {
    let mode = s.weighted(&[4, 2, 2]);
    let mut shell_text: Vec<String> = vec![];
    let mut stdin: Vec<String> = vec![];
    let mut want = String::new();
    let n = s.usize(1, 6);
    for i in 0..n {
        let line = |s: &mut Src| match s.below(4) {
            0 => s.pick(&["", " ", "exit 3", "println 5", "[1,", "\"open", "let x = 5", "a\\nb", "\\", "y", "n", "#", " two  words ", "é日🏖", "\u{301}", "end\t"]).to_string(),
            1 => gen::plain(s, 12),
            _ => gen::text(s, 12).replace(['\n', '\r', '\u{8}', '\0'], "."),
        };
        let prompt = *s.pick(&["\"? \"", "\"\"", "\"a\" 5", "(fmt@red \"x\")", ""]);
        let ask = if prompt.is_empty() { "(input \"\")".to_string() } else { format!("(input {})", prompt) };
        let (stmt, reads, out): (String, usize, Box<dyn Fn(&[String]) -> String>) = match s.below(6) {
            0..=1 => (format!("println {}", ask), 1, Box::new(|a| format!("{}\n", a[0]))),
            2 => (format!("let v{} = {}", i, ask), 1, Box::new(|_| String::new())),
            3 => (format!("println (len {}) {}", ask, ask), 2, Box::new(|a| format!("{} {}\n", a[0].chars().count(), a[1]))),
            4 => ("let ff = q -> { q + \"|\" }; println ((ff (input \"\")) + (input \"\"))".to_string(), 2, Box::new(|a| format!("{}|{}\n", a[0], a[1]))),
            _ => (format!("println {}", i), 0, Box::new(move |_| format!("{}\n", i))),
        };
        let lines: Vec<String> = (0..reads).map(|_| line(s)).collect();
        want.push_str(&out(&lines));
        if stmt.starts_with("let v") {
            shell_text.push(stmt);
            if mode == 0 {
                stdin.push(shell_text[shell_text.len() - 1].clone());
            }
            stdin.extend(lines.iter().cloned());
            let p = format!("println v{}", i);
            if mode == 0 {
                stdin.push(p.clone());
            }
            shell_text.push(p);
            want.push_str(&format!("{}\n", lines[0]));
        } else {
            if mode == 0 {
                stdin.push(stmt.clone());
            }
            shell_text.push(stmt);
            stdin.extend(lines.iter().cloned());
        }
    }
    let early = s.chance(1, 6);
    let mut typed = stdin.join("\n");
    if early {
        // One more question than there are lines: the shell ends there.
        let q = "println (input \"more\"); println \"no\"".to_string();
        if mode == 0 {
            typed.push('\n');
            typed.push_str(&q);
        }
        shell_text.push(q);
    }
    if mode == 0 || !stdin.is_empty() {
        typed.push('\n');
    }
    cx.nontrivial(stdin.len() > 1);
    cx.label(["typed", "file", "exec"][mode]);
    cx.go(format!("{}:\n{}\nstandard input:\n{}", ["typed", "file", "-x"][mode], shell_text.join(";\n"), typed))?;
    setup();
    std::fs::write(".dune-prelude", "").unwrap();
    let script = sut::work_dir().join("script.dune");
    let script = script.to_str().unwrap().to_string();
    let text = shell_text.join(";\n");
    let args = match mode {
        0 => vec![],
        1 => {
            std::fs::write(&script, &text).unwrap();
            vec![script]
        }
        _ => vec!["-x".into(), text],
    };
    let r = shell(&args, typed.as_bytes())?;
    sut::clean_cwd();
    ensure!(r.code == Some(0), "it ends with {:?} {:?}; it prints {:?}, errors {:?}", r.code, r.signal, l(&r.out), l(&r.err));
    ensure!(r.err.is_empty(), "the errors are {:?}", l(&r.err));
    ensure!(r.out == want.as_bytes(), "it prints {:?} instead of {:?}", l(&r.out), want);
    Ok(())
}

/// Lines that are no text are skipped, and input that cannot be read ends the shell or is an error.
fn c41_unreadable(s: &mut Src, cx: &mut Cx) -> R {
    let bad: &[&[u8]] = &[b"\xff", b"println \xc3", b"\xed\xa0\x80", b"let x = 5; \xf0\x9f", b"\x80\x80", b"exit 3 \xfe"];
    let kind = s.weighted(&[4, 1, 2]);
    let mut typed: Vec<u8> = vec![];
    let mut want = String::new();
    let mut text: Vec<String> = vec![];
    let mut skipped = 0;
    let n = s.usize(1, 8);
    match kind {
        0 => {
            for i in 0..n {
                let mut lines: Vec<String> = vec![];
                match s.below(4) {
                    0 => {
                        lines.push("println (input \"\")".into());
                        let t = gen::plain(s, 8);
                        want += &format!("{}\n", t);
                        lines.push(t);
                    }
                    1 => {
                        lines.extend(["let v = [".to_string(), format!(" {},", i), " 7]; println v@0".into()]);
                        want += &format!("{}\n", i);
                    }
                    _ => {
                        lines.push(format!("println {}", i));
                        want += &format!("{}\n", i);
                    }
                }
                for x in lines {
                    while s.chance(1, 3) {
                        typed.extend_from_slice(s.pick(bad));
                        typed.push(b'\n');
                        skipped += 1;
                    }
                    typed.extend(x.bytes());
                    typed.push(b'\n');
                }
            }
        }
        _ => {
            for i in 0..n {
                if kind == 2 && s.bool() {
                    let f = *s.pick(&["read-key", "read-password", "read-line"]);
                    text.push(format!("println (err@try (console@keyboard@{} ()) (e -> \"none\"))", f));
                    want += "none\n";
                    if f == "read-line" {
                        typed.extend_from_slice(s.pick(bad));
                        typed.push(b'\n');
                    }
                    skipped += 1;
                } else {
                    text.push(format!("println {}", i));
                    want += &format!("{}\n", i);
                }
            }
        }
    }
    let ask = kind == 1 && s.bool();
    if ask {
        text.push("println (input \"more\"); println \"never\"".into());
    }
    let mode = if kind == 1 && !ask { 0 } else { 1 };
    cx.nontrivial(kind == 1 || skipped > 0);
    cx.label(["lines that are no text", "input that cannot be read", "no keyboard"][kind]);
    cx.go(format!("{}: {:?}, standard input {:?}", ["typed", "directory", "-x"][kind], text, l(&typed)))?;
    setup();
    std::fs::write(".dune-prelude", if mode == 0 && kind == 1 { text.join(";\n") } else { String::new() }).unwrap();
    let mut c = Command::new(sut::bin_dir().join("dunesh"));
    c.env_clear().env("HOME", sut::cwd_dir()).env("PATH", sut::bin_dir()).current_dir(sut::cwd_dir());
    if kind == 2 || ask {
        c.arg("-x").arg(text.join("; "));
    }
    c.stdin(if kind == 1 { Stdio::from(std::fs::File::open(sut::cwd_dir()).unwrap()) } else { Stdio::piped() });
    // What it says may be without end.
    let (out, err) = (sut::work_dir().join("out"), sut::work_dir().join("err"));
    c.stdout(std::fs::File::create(&out).unwrap()).stderr(std::fs::File::create(&err).unwrap());
    unsafe {
        c.pre_exec(|| {
            // There is no terminal, wherever this runs.
            libc::setsid();
            let lim = libc::rlimit { rlim_cur: 1 << 20, rlim_max: 1 << 20 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
            Ok(())
        });
    }
    let (r, stuck) = sut::watched(20, || {
        let mut child = c.spawn().unwrap();
        if let Some(mut i) = child.stdin.take() {
            let _ = i.write_all(&typed);
        }
        child.wait().unwrap()
    });
    let (out, err) = (std::fs::read(out).unwrap(), std::fs::read(err).unwrap());
    sut::clean_cwd();
    let short = |b: &[u8]| l(&b[..b.len().min(600)]);
    ensure!(!stuck && r.signal().is_none(), "the shell does not end by itself: {:?}; it prints {:?}, errors {:?}", r, short(&out), short(&err));
    ensure!(out == want.as_bytes(), "it prints {:?} instead of {:?}; errors {:?}", short(&out), want, short(&err));
    ensure!(!l(&err).contains("panicked"), "the errors are {:?}", short(&err));
    match kind {
        0 => {
            ensure!(r.code() == Some(0), "it ends with {:?}; errors {:?}", r, short(&err));
            ensure!(err.is_empty() == (skipped == 0), "{} lines are no text, and the errors are {:?}", skipped, short(&err));
        }
        1 => ensure!(r.code().map_or(false, |c| c != 101) && !err.is_empty(), "it ends with {:?}; errors {:?}", r, short(&err)),
        _ => ensure!(r.code() == Some(0) && err.is_empty(), "it ends with {:?}; errors {:?}", r, short(&err)),
    }
    Ok(())
}
