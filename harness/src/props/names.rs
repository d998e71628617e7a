//! Files and directories whose names are not text.

use crate::engine::*;
use crate::helpers::Dump;
use crate::sut::{self, Out};
use crate::{ensure, fail, gen};
use dune::Expression as E;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C43",
        rule: "Histories of 1 to 10 operations (cd, canon, ls, glob, tree, read, write, append, cp, mv, rm, include, exists?, is-dir?, is-file?) in trees where some files and directories have names that are not UTF-8, which links with readable names lead to; and starts of the shell with such names for the current directory, the home directory, its own program file, a directory of PATH, or a variable. Non-trivial: an unreadable name is in the way of an operation, or one of the places has one.",
        subs: &[Sub { name: "operations", quick: 25_000, thorough: 600_000, f: operations }, Sub { name: "start", quick: 2_500, thorough: 60_000, f: start }],
        cpu_limit: None,
        assumptions: &["How an unreadable name itself is shown in a listing is the usual lossy form; a program can only reach such a file by a link, a pattern of another program, or a directory operation."],
    }]
}

const BAD: &[&[u8]] = &[b"d\xff", b"\xc3", b"a\xf0\x9f b", b"\xed\xa0\x80", b"x\x80.txt", b"\xfe\xff"];
const GOOD: &[&str] = &["a", "b", "sub", "d e", "\u{65e5}\u{672c}", "x.txt"];

#[derive(Clone, Debug, PartialEq)]
enum Node {
    File(Vec<u8>),
    Dir,
    Link(PathBuf),
}
type Tree = BTreeMap<PathBuf, Node>;

fn os(b: &[u8]) -> &OsStr {
    OsStr::from_bytes(b)
}
fn snapshot(base: &Path) -> Tree {
    fn rec(base: &Path, at: &Path, t: &mut Tree) {
        for e in std::fs::read_dir(base.join(at)).unwrap().flatten() {
            let p = at.join(e.file_name());
            let full = base.join(&p);
            let ft = e.file_type().unwrap();
            if ft.is_symlink() {
                t.insert(p, Node::Link(std::fs::read_link(full).unwrap()));
            } else if ft.is_dir() {
                t.insert(p.clone(), Node::Dir);
                rec(base, &p, t);
            } else {
                t.insert(p, Node::File(std::fs::read(full).unwrap()));
            }
        }
    }
    let mut t = Tree::new();
    rec(base, Path::new(""), &mut t);
    t
}
fn build(base: &Path, t: &Tree) {
    std::fs::create_dir_all(base).unwrap();
    for (p, n) in t {
        let p = base.join(p);
        match n {
            Node::Dir => std::fs::create_dir_all(p).unwrap(),
            Node::File(b) => std::fs::write(p, b).unwrap(),
            Node::Link(to) => std::os::unix::fs::symlink(to, p).unwrap(),
        }
    }
}
fn a_name(s: &mut Src) -> Vec<u8> {
    if s.chance(2, 5) { s.pick(BAD).to_vec() } else { s.pick(GOOD).as_bytes().to_vec() }
}
fn a_file(s: &mut Src) -> Node {
    Node::File(s.pick(&[&b"one\ntwo\n"[..], b"", b"\xff\xfe", b"let inc = 5", "h\u{e9}".as_bytes()]).to_vec())
}

/// What is below a path, through links, with paths relative to it.
fn follow(p: &Path) -> Option<Tree> {
    fn rec(p: &Path, at: &Path, t: &mut Tree) -> Option<()> {
        let m = std::fs::metadata(p).ok()?;
        if m.is_dir() {
            t.insert(at.to_path_buf(), Node::Dir);
            for e in std::fs::read_dir(p).ok()?.flatten() {
                rec(&e.path(), &at.join(e.file_name()), t)?;
            }
        } else {
            t.insert(at.to_path_buf(), Node::File(std::fs::read(p).ok()?));
        }
        Some(())
    }
    let mut t = Tree::new();
    rec(p, Path::new(""), &mut t)?;
    Some(t)
}

fn tree_value(p: &Path, depth: Option<i64>) -> E {
    let mut m = BTreeMap::new();
    m.insert(".".to_string(), E::String(p.to_str().unwrap().into()));
    if let Some(up) = p.parent() {
        m.insert("..".to_string(), E::String(up.to_str().unwrap().into()));
    }
    if depth.map_or(true, |d| d > 0) {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            if let Some(n) = e.file_name().to_str() {
                let q = p.join(n);
                let v = if q.is_dir() { tree_value(&q, depth.map(|d| d - 1)) } else { E::String(q.to_str().unwrap().into()) };
                m.insert(n.to_string(), v);
            }
        }
    }
    E::Map(m)
}

fn strings(v: &E) -> Option<Vec<String>> {
    match v {
        E::List(l) => l.iter().map(|x| if let E::String(s) = x { Some(s.clone()) } else { None }).collect(),
        _ => None,
    }
}

fn operations(s: &mut Src, cx: &mut Cx) -> R {
    // Two levels of directories and files, and links in the uppermost.
    let mut t = Tree::new();
    for _ in 0..s.usize(1, 5) {
        let n = a_name(s);
        let p = PathBuf::from(os(&n));
        if t.contains_key(&p) {
            continue;
        }
        if s.chance(2, 3) {
            t.insert(p.clone(), Node::Dir);
            for _ in 0..s.below(4) {
                let n = a_name(s);
                let node = if s.chance(1, 4) { Node::Dir } else { a_file(s) };
                t.insert(p.join(os(&n)), node);
            }
        } else {
            t.insert(p, a_file(s));
        }
    }
    let all: Vec<PathBuf> = t.keys().cloned().collect();
    let bad: Vec<PathBuf> = all.iter().filter(|p| p.to_str().is_none()).cloned().collect();
    let mut links = 0;
    for i in 0..s.usize(1, 3) {
        let to = if !bad.is_empty() && s.chance(3, 4) { s.pick(&bad).clone() } else { s.pick(&all).clone() };
        t.insert(PathBuf::from(format!("l{}", i)), Node::Link(to));
        links += 1;
    }
    // The operations: paths are made of names that are text.
    let n = s.usize(1, 10);
    let mut ops: Vec<(usize, String, String)> = vec![];
    for i in 0..n {
        let first = if s.chance(3, 5) { format!("l{}", s.below(links)) } else { s.pick(&["a", "b", "sub", "d e", "x.txt", "\u{65e5}\u{672c}", ".", "c0", "m1", "c2"]).to_string() };
        let mut p = first;
        if s.chance(1, 3) {
            p = format!("{}/{}", p, s.pick(&["a", "b", "sub", "d e", "x.txt", "..", "."]));
        }
        let k = s.weighted(&[4, 2, 3, 2, 3, 2, 2, 2, 1, 2, 3, 2, 2, 2, 3]);
        let q = match k {
            3 => s.pick(&["a", "b", "new"]).to_string(),
            4 => s.pick(&["*", "*/*", "l*", "l0/*", "*/a", "?"]).to_string(),
            5 => s.below(3).to_string(),
            10 => format!("c{}", i),
            11 => format!("m{}", i),
            _ => String::new(),
        };
        ops.push((k, p, q));
    }
    let shown: Vec<String> = t.iter().map(|(p, n)| format!("{:?} {:?}", p, n)).collect();
    cx.nontrivial(!bad.is_empty());
    let inside = s.chance(2, 3);
    cx.go(format!("{} in {}{}", ops.iter().map(|o| text_of(o)).collect::<Vec<_>>().join("; "), shown.join(", "), if inside { "" } else { "   # the process is elsewhere" }))?;

    sut::clean_cwd();
    let base = sut::cwd_dir().canonicalize().unwrap().join("w");
    build(&base, &t);
    let r = history(&base, &ops, inside);
    sut::clean_cwd();
    r
}

fn text_of((k, p, q): &(usize, String, String)) -> String {
    let (p, q) = (gen::quote(p), gen::quote(q));
    match k {
        0 => format!("cd {}", p),
        1 => format!("sys@cd {}", p),
        2 => format!("fs@canon {}", p),
        3 => format!("fs@ls {}", p),
        4 => format!("fs@glob {}", q),
        5 => format!("fs@tree {} {}", q.trim_matches('"'), p),
        6 => format!("fs@read {}", p),
        7 => format!("fs@write {} \"new\"", p),
        8 => format!("fs@append {} \"more\"", p),
        9 => format!("sys@include {}", p),
        10 => format!("fs@cp {} {}", p, q),
        11 => format!("fs@mv {} {}", p, q),
        12 => format!("fs@rm {}", p),
        13 => format!("fs@exists? {}", p),
        _ => format!("[fs@is-dir? {}, fs@is-file? {}]", p, p),
    }
}

fn history(base: &Path, ops: &[(usize, String, String)], inside: bool) -> R {
    let mut env = sut::fresh_env();
    env.set_cwd(base.to_str().unwrap());
    std::env::set_current_dir(if inside { base } else { Path::new("/") }).unwrap();
    let mut cwd = base.to_path_buf();
    let mut process = std::env::current_dir().unwrap();
    let mut want = snapshot(base);
    for (i, op) in ops.iter().enumerate() {
        let (k, p, q) = op;
        // Stay inside the tree.
        if k == &0 || k == &1 {
            if cwd.join(p).canonicalize().map_or(false, |c| !c.starts_with(base)) {
                continue;
            }
        }
        let full = cwd.join(p);
        let canon = full.canonicalize();
        if canon.as_ref().map_or(false, |c| !c.starts_with(base)) {
            continue;
        }
        // Where the entry itself is, when the last part of its path is not followed.
        let entry = match (full.parent().map(|u| u.canonicalize()), full.file_name()) {
            (Some(Ok(u)), Some(n)) if !p.ends_with('.') && u.starts_with(base) => Some(u.join(n)),
            _ => None,
        };
        let rel = |x: &Path| x.strip_prefix(base).unwrap().to_path_buf();
        let at = format!("step {}, {}: ", i + 1, text_of(op));
        let dst = cwd.join(q);
        // Only take away what is below the current directory, and neither the tree nor a directory we are in.
        if matches!(k, 10 | 11 | 12) {
            let Some(e) = &entry else { continue };
            let through = canon.as_ref().ok();
            if p == q || cwd.starts_with(e) || through.map_or(false, |c| cwd.starts_with(c)) || process.starts_with(e) && process.starts_with(base) && *k != 10 || dst.exists() {
                continue;
            }
        }
        let copied = if *k == 10 { follow(&full) } else { None };
        if *k == 10 && (copied.is_none() || copied.as_ref().unwrap().len() > 200) {
            continue;
        }
        let text = text_of(op);
        let before = want.clone();
        let out = sut::run_in(&mut env, &text);
        if let Out::Panic(m) = &out {
            fail!("{}{}", at, m);
        }
        let fails = |ok: bool| -> R {
            ensure!(ok == out.val().is_some(), "{}gives {}, and should {}", at, out.show(), if ok { "succeed" } else { "be an error" });
            Ok(())
        };
        match k {
            0 | 1 => {
                let ok = match &canon {
                    Ok(c) => c.to_str().is_some() && (c.is_dir() || *k == 1),
                    Err(_) => false,
                };
                if *k == 1 && canon.as_ref().map_or(false, |c| !c.is_dir()) {
                    // A directory is expected.
                    env.set_cwd(cwd.to_str().unwrap());
                } else {
                    fails(ok)?;
                    if ok {
                        cwd = canon.unwrap();
                        if *k == 0 {
                            process = cwd.clone();
                        }
                    }
                }
            }
            2 => match &canon {
                Ok(c) if c.to_str().is_some() => ensure!(out.val() == Some(&E::String(c.to_str().unwrap().into())), "{}gives {}", at, out.show()),
                _ => fails(false)?,
            },
            3 if canon.as_ref().map_or(false, |c| c.is_dir()) => {
                let mut expect: Vec<String> = std::fs::read_dir(&full).unwrap().flatten().map(|e| Path::new(p).join(e.file_name()).to_string_lossy().into_owned()).collect();
                let mut got = match out.val().and_then(strings) {
                    Some(v) => v,
                    None => fail!("{}gives {}", at, out.show()),
                };
                expect.sort();
                got.sort();
                ensure!(got == expect, "{}gives {:?} instead of {:?}", at, got, expect);
            }
            3 => {}
            4 => {
                let expect: BTreeSet<String> = match q.as_str() {
                    "*" | "l*" | "?" => names(&cwd).into_iter().filter(|n| q == "*" || q == "l*" && n.starts_with('l') || q == "?" && n.chars().count() == 1).collect(),
                    "l0/*" => names(&cwd.join("l0")).into_iter().map(|n| format!("l0/{}", n)).collect(),
                    _ => names(&cwd).into_iter().flat_map(|d| names(&cwd.join(&d)).into_iter().filter(|n| q == "*/*" || n == "a").map(|n| format!("{}/{}", d, n)).collect::<Vec<_>>()).collect(),
                };
                match out.val().and_then(strings) {
                    Some(v) => {
                        let got: BTreeSet<String> = v.iter().cloned().collect();
                        ensure!(got.len() == v.len() && got == expect, "{}gives {:?} instead of {:?}", at, v, expect);
                    }
                    None => fail!("{}gives {}", at, out.show()),
                }
            }
            5 => {
                let expect = tree_value(&full, Some(q.parse().unwrap()));
                ensure!(out.val() == Some(&expect), "{}gives {} instead of {:?}", at, out.show(), expect);
            }
            6 => match canon.as_ref().ok().and_then(|c| std::fs::read(c).ok()) {
                Some(b) => {
                    let expect = match String::from_utf8(b) {
                        Ok(t) => E::String(t),
                        Err(e) => E::Bytes(e.into_bytes()),
                    };
                    ensure!(out.val() == Some(&expect), "{}gives {} instead of {:?}", at, out.show(), expect);
                }
                None => fails(false)?,
            },
            7 | 8 => {
                // A new file needs its directory.
                let target = match &canon {
                    Ok(c) => (!c.is_dir()).then(|| c.clone()),
                    Err(_) => entry.clone().filter(|e| *k == 7 && e.parent().unwrap().is_dir() && e.symlink_metadata().map_or(true, |m| !m.is_symlink())),
                };
                match target {
                    Some(f) => {
                        fails(true)?;
                        let f = rel(&f);
                        match (*k, want.get_mut(&f)) {
                            (8, Some(Node::File(b))) => b.extend(b"more"),
                            _ => {
                                want.insert(f, Node::File(b"new".to_vec()));
                            }
                        }
                    }
                    None if canon.is_ok() || *k == 8 || entry.map_or(true, |e| !e.parent().unwrap().is_dir()) => fails(false)?,
                    // A link that leads nowhere: look what became of it.
                    None => want = snapshot(base),
                }
            }
            9 => match canon.as_ref().ok().and_then(|c| std::fs::read(c).ok()) {
                Some(b) if b == b"let inc = 5" => {
                    fails(true)?;
                    let o = sut::run_in(&mut env, "inc");
                    ensure!(o.val() == Some(&E::Integer(5)), "{}afterwards the variable of the file is {}", at, o.show());
                    sut::run_in(&mut env, "unbind inc");
                }
                Some(b) if b.starts_with(b"\xff") => fails(false)?,
                Some(_) => {}
                None => fails(false)?,
            },
            10 => {
                fails(true)?;
                for (x, n) in copied.unwrap() {
                    let to = if x.as_os_str().is_empty() { dst.clone() } else { dst.join(&x) };
                    want.insert(rel(&to), n);
                }
            }
            11 | 12 => {
                let e = rel(&entry.unwrap());
                if before.contains_key(&e) {
                    fails(true)?;
                    let gone: Vec<(PathBuf, Node)> = before.iter().filter(|(x, _)| x.starts_with(&e)).map(|(x, n)| (x.clone(), n.clone())).collect();
                    for (x, n) in gone {
                        want.remove(&x);
                        if *k == 11 {
                            let below = x.strip_prefix(&e).unwrap();
                            let to = if below.as_os_str().is_empty() { dst.clone() } else { dst.join(below) };
                            want.insert(rel(&to), n);
                        }
                    }
                } else {
                    fails(false)?;
                }
            }
            13 => ensure!(out.val() == Some(&E::Boolean(canon.is_ok())), "{}gives {}", at, out.show()),
            _ => {
                let expect = E::List(vec![E::Boolean(canon.as_ref().map_or(false, |c| c.is_dir())), E::Boolean(canon.as_ref().map_or(false, |c| c.is_file()))].into());
                ensure!(out.val() == Some(&expect), "{}gives {}", at, out.show());
            }
        }
        let now = snapshot(base);
        ensure!(now == want, "{}the files are\n{:?}\ninstead of\n{:?}", at, now, want);
        ensure!(env.get_cwd() == cwd.to_str().unwrap(), "{}the current directory is {:?} instead of {:?}", at, env.get_cwd(), cwd);
        let real = std::env::current_dir().ok();
        ensure!(real.as_ref() == Some(&process), "{}the process is in {:?} instead of {:?}", at, real, process);
    }
    Ok(())
}
/// The names in a directory that are text.
fn names(d: &Path) -> Vec<String> {
    std::fs::read_dir(d).into_iter().flatten().flatten().filter_map(|e| e.file_name().into_string().ok()).collect()
}

// ---------------------------------------------------------------- starting

fn start(s: &mut Src, cx: &mut Cx) -> R {
    let place = |s: &mut Src, good: &[u8]| -> Vec<u8> { if s.bool() { s.pick(BAD).to_vec() } else { good.to_vec() } };
    let here = place(s, b"here");
    let home = if s.chance(1, 4) { here.clone() } else { [b"h".to_vec(), place(s, b"ome")].concat() };
    let bin = [b"p".to_vec(), place(s, b"ath")].concat();
    let moved = s.chance(1, 40);
    let var = s.chance(1, 3);
    let prelude = s.chance(2, 3);
    let others: Vec<Vec<u8>> = (0..s.below(3)).map(|_| [b"o".to_vec(), a_name(s)].concat()).collect();
    // 0: -x, 1: a script, 2: typed.
    let mode = if prelude { s.below(3) } else { s.below(2) };
    let n = s.usize(1, 6);
    let kinds: Vec<usize> = (0..n).map(|_| s.below(7) as usize).collect();
    let up = s.chance(1, 4);

    let (mut prog, mut want) = (vec![], String::new());
    let mut made: Vec<&str> = vec![];
    for k in &kinds {
        match k {
            0 => {
                prog.push("println (fs@read \"f\")".to_string());
                want.push_str("first\n");
            }
            1 => {
                prog.push("fs@write \"out\" \"x\"".into());
                made.push("out");
            }
            2 => {
                prog.push("println (len (fs@ls \".\"))".into());
                let mut all: BTreeSet<Vec<u8>> = others.iter().cloned().collect();
                for x in ["f", "sub", "link", "script.dune"].iter().chain(&made) {
                    all.insert(x.as_bytes().to_vec());
                }
                if home == here {
                    if prelude {
                        all.insert(b".dune-prelude".to_vec());
                    }
                    if mode == 2 {
                        // The history may have been written or not.
                        prog.pop();
                        continue;
                    }
                }
                want.push_str(&format!("{}\n", all.len()));
            }
            3 => {
                prog.push("println (err@try (cd \"link\") (e -> \"refused\"))".into());
                want.push_str("refused\n");
            }
            4 => {
                prog.push("println (fs@exists? \"sub\") (fs@exists? \"gone\")".into());
                want.push_str("True False\n");
            }
            5 => {
                prog.push("xcat << \"f\" >> \"copy\"".into());
                if made.contains(&"copy") {
                    prog.pop();
                } else {
                    made.push("copy");
                }
            }
            _ => {
                prog.push("argdump >> \"dump\"".into());
                made.push("dump");
            }
        }
    }
    if up {
        prog.push("cd \"..\"; fs@write \"up\" \"y\"".into());
    }
    prog.push("println \"end\"".into());
    want.push_str("end\n");
    let bad = [&here, &home, &bin].iter().filter(|b| std::str::from_utf8(b).is_err()).count();
    cx.nontrivial(bad + moved as usize + var as usize > 0);
    let esc = |b: &[u8]| b.escape_ascii().to_string();
    cx.go(format!(
        "{}: {}   # in {}, HOME {}, PATH {}{}{}{}",
        ["-x", "script", "typed"][mode as usize],
        prog.join("; "),
        esc(&here),
        esc(&home),
        esc(&bin),
        if prelude { ", with a prelude" } else { "" },
        if moved { ", with the program in an unreadable directory" } else { "" },
        if var { ", with unreadable variables" } else { "" }
    ))?;

    sut::clean_cwd();
    let base = sut::cwd_dir().canonicalize().unwrap();
    let (dir, hdir, bdir) = (base.join(os(&here)), base.join(os(&home)), base.join(os(&bin)));
    for d in [&dir, &hdir, &bdir] {
        std::fs::create_dir_all(d).unwrap();
    }
    std::fs::write(dir.join("f"), "first").unwrap();
    std::fs::create_dir(dir.join("sub")).unwrap();
    std::os::unix::fs::symlink(os(b"../t\xff"), dir.join("link")).unwrap();
    std::fs::create_dir(base.join(os(b"t\xff"))).unwrap();
    for o in &others {
        std::fs::write(dir.join(os(o)), "other").unwrap();
    }
    let text = prog.join(";\n");
    std::fs::write(dir.join("script.dune"), &text).unwrap();
    if prelude {
        std::fs::write(hdir.join(".dune-prelude"), "println \"prelude\"").unwrap();
    }
    for h in ["argdump", "xcat"] {
        std::os::unix::fs::symlink(sut::bin_dir().join(h), bdir.join(h)).unwrap();
    }
    let mut exe = sut::bin_dir().join("dunesh");
    if moved {
        let d = base.join(os(b"e\xff"));
        std::fs::create_dir(&d).unwrap();
        std::fs::copy(&exe, d.join("dunesh")).unwrap();
        exe = d.join("dunesh");
    }
    let mut vars: Vec<(&OsStr, &OsStr)> = vec![(os(b"HOME"), hdir.as_os_str()), (os(b"PATH"), bdir.as_os_str())];
    if var {
        vars.push((os(b"ZZ"), os(b"v\xff")));
        vars.push((os(b"Y\xfe"), os(b"1")));
    }
    let mut c = Command::new(exe);
    c.env_clear().envs(vars.iter().copied()).current_dir(&dir);
    match mode {
        0 => {
            c.args(["-x", &text]);
        }
        1 => {
            c.arg("script.dune");
        }
        _ => want.insert_str(0, "prelude\n"),
    }
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
    let typed = if mode == 2 { prog.iter().map(|p| format!("{}\n", p)).collect::<String>() } else { String::new() };
    let (r, stuck) = sut::watched(30, || {
        let mut child = c.spawn().unwrap();
        let _ = child.stdin.take().unwrap().write_all(typed.as_bytes());
        child.wait_with_output().unwrap()
    });
    let result = (|| {
        ensure!(!stuck, "the shell never ends");
        let (out, err) = (String::from_utf8_lossy(&r.stdout).into_owned(), String::from_utf8_lossy(&r.stderr).into_owned());
        ensure!(r.status.code() == Some(0), "the shell ends with {:?}, the errors are {:?}", r.status, err);
        ensure!(out == want, "the shell prints {:?} instead of {:?}, the errors are {:?}", out, want, err);
        ensure!(err.is_empty(), "the errors are {:?}", err);
        for m in &made {
            let b = std::fs::read(dir.join(m));
            let Ok(b) = b else { fail!("{:?} is not written in the current directory", m) };
            match *m {
                "out" => ensure!(b == b"x", "{:?} holds {:?}", m, b),
                "copy" => ensure!(b == b"first", "{:?} holds {:?}", m, b),
                _ => {
                    let Some((d, _)) = Dump::read(&b) else { fail!("no report of the program: {:?}", String::from_utf8_lossy(&b)) };
                    ensure!(d.cwd == dir.as_os_str().as_bytes(), "a program runs in {:?} instead of {:?}", os(&d.cwd), dir);
                    for (k, v) in vars.iter().skip(2) {
                        ensure!(d.vars.get(k.as_bytes()).map(|x| &x[..]) == Some(v.as_bytes()), "a program finds {:?} in {:?}", d.vars.get(k.as_bytes()), k);
                    }
                }
            }
        }
        if up {
            ensure!(std::fs::read(base.join("up")).ok().as_deref() == Some(b"y"), "a file of the directory above is not written there");
        }
        if mode == 2 {
            let h = std::fs::read_to_string(hdir.join(".dune-history")).unwrap_or_default();
            ensure!(h.contains("println \"end\""), "the history in the home directory is {:?}", h);
        }
        Ok(())
    })();
    sut::clean_cwd();
    result
}
