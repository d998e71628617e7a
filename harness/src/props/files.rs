//! The file system functions and redirection, against a model of a tree of files.

use crate::engine::*;
use crate::helpers;
use crate::sut::{self, Out};
use crate::val::{self, same};
use crate::{ensure, fail, gen};
use dune::{Environment, Expression as E};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "Histories of 1 to 24 operations (mkdir, rmdir, write, append, read, head, tail, mv, cp, rm, ls, glob, tree, canon, exists?, is-dir?, is-file?, cd) on relative, absolute, dotted and missing paths, directly or inside functions, while the process itself is in another directory or not; the whole tree is compared with a model after every operation. A second family copies, moves and overwrites files of every permission, a third has symbolic links in the tree, a fourth links that lead back to directories they are in. Non-trivial: at least two operations change the tree.",
            subs: &[Sub { name: "history", quick: 80_000, thorough: 2_000_000, f: c25 }, Sub { name: "permissions", quick: 10_000, thorough: 200_000, f: c25_modes }, Sub { name: "links", quick: 20_000, thorough: 400_000, f: c25_links }, Sub { name: "cycles", quick: 12_000, thorough: 200_000, f: c25_cycles }],
            cpu_limit: None,
            assumptions: &["The order in which a directory is listed is that of the operating system.", "Nothing else changes the files meanwhile; the current directory itself is not removed."],
        },
        Prop {
            id: "C26",
            rule: "Histories of 1 to 10 redirections (>> > >>> <<, alone, chained, with pipelines, in functions) between values, programs, functions and files, from 0 to 200,000 bytes of text or binary data; all files are compared with a model after every step. Non-trivial: at least two steps succeed.",
            subs: &[Sub { name: "redirect", quick: 7_000, thorough: 250_000, f: c26 }],
            cpu_limit: None,
            assumptions: &["Values that are no text are written like `str` shows them (C28); bytes are written as they are."],
        },
    ]
}

#[derive(Clone, Debug, PartialEq)]
enum Node {
    Dir,
    File(Vec<u8>),
}
/// The tree below the working directory; the root is the empty path.
#[derive(Clone, Debug, PartialEq)]
struct Tree(BTreeMap<Vec<String>, Node>);

#[derive(Debug, PartialEq)]
enum At {
    /// An existing node.
    There(Vec<String>),
    /// Nothing there, but its parent is a directory.
    Free(Vec<String>),
    /// A step of the path is missing or no directory.
    Broken,
    /// Above the root.
    Out,
}

impl Tree {
    fn new() -> Tree {
        Tree([(vec![], Node::Dir)].into())
    }
    fn dir(&self, p: &[String]) -> bool {
        self.0.get(p) == Some(&Node::Dir)
    }
    fn file(&self, p: &[String]) -> Option<&Vec<u8>> {
        match self.0.get(p) {
            Some(Node::File(b)) => Some(b),
            _ => None,
        }
    }
    fn resolve(&self, cwd: &[String], path: &Rel) -> At {
        let mut at: Vec<String> = if path.abs { vec![] } else { cwd.to_vec() };
        let n = path.parts.len();
        for (i, c) in path.parts.iter().enumerate() {
            if !self.dir(&at) {
                return At::Broken;
            }
            match c.as_str() {
                "." => {}
                ".." => {
                    if at.pop().is_none() {
                        return At::Out;
                    }
                }
                c => {
                    at.push(c.to_string());
                    if !self.0.contains_key(&at) {
                        return if i + 1 == n { At::Free(at) } else { At::Broken };
                    }
                }
            }
        }
        At::There(at)
    }
    /// Where a path would lead if all its steps existed.
    fn lexical(cwd: &[String], path: &Rel) -> Option<Vec<String>> {
        let mut at: Vec<String> = if path.abs { vec![] } else { cwd.to_vec() };
        for c in &path.parts {
            match c.as_str() {
                "." => {}
                ".." => {
                    at.pop()?;
                }
                c => at.push(c.into()),
            }
        }
        Some(at)
    }
    fn children(&self, p: &[String]) -> Vec<String> {
        self.0.keys().filter(|k| k.len() == p.len() + 1 && k.starts_with(p)).map(|k| k.last().unwrap().clone()).collect()
    }
    fn below(&self, p: &[String]) -> Vec<Vec<String>> {
        self.0.keys().filter(|k| k.starts_with(p)).cloned().collect()
    }
    fn read(base: &Path) -> Tree {
        fn walk(d: &Path, at: &mut Vec<String>, t: &mut Tree) {
            for e in std::fs::read_dir(d).unwrap().flatten() {
                at.push(e.file_name().to_string_lossy().into_owned());
                if e.file_type().unwrap().is_dir() {
                    t.0.insert(at.clone(), Node::Dir);
                    walk(&e.path(), at, t);
                } else {
                    t.0.insert(at.clone(), Node::File(std::fs::read(e.path()).unwrap_or_else(|e| format!("unreadable: {}", e).into_bytes())));
                }
                at.pop();
            }
        }
        let mut t = Tree::new();
        walk(base, &mut vec![], &mut t);
        t
    }
    fn diff(&self, real: &Tree) -> Option<String> {
        for (k, v) in &self.0 {
            match real.0.get(k) {
                None => return Some(format!("{} is missing", k.join("/"))),
                Some(w) if w != v => return Some(format!("{} is {} instead of {}", k.join("/"), show(w), show(v))),
                _ => {}
            }
        }
        real.0.keys().find(|k| !self.0.contains_key(*k)).map(|k| format!("{} should not exist", k.join("/")))
    }
    fn as_map(&self, base: &Path, p: &[String], depth: Option<i64>) -> E {
        let full = full(base, p);
        let mut m = BTreeMap::new();
        m.insert(".".to_string(), E::String(full.to_str().unwrap().into()));
        m.insert("..".to_string(), E::String(full.parent().unwrap().to_str().unwrap().into()));
        if depth.map_or(true, |d| d > 0) {
            for c in self.children(p) {
                let mut q = p.to_vec();
                q.push(c.clone());
                let v = if self.dir(&q) { self.as_map(base, &q, depth.map(|d| d - 1)) } else { E::String(crate::props::files::full(base, &q).to_str().unwrap().into()) };
                m.insert(c, v);
            }
        }
        E::Map(m)
    }
}
fn show(n: &Node) -> String {
    match n {
        Node::Dir => "a directory".into(),
        Node::File(b) => format!("a file of {} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(40)])),
    }
}
fn full(base: &Path, p: &[String]) -> PathBuf {
    let mut b = base.to_path_buf();
    b.extend(p);
    b
}

#[derive(Clone, Debug)]
struct Rel {
    abs: bool,
    parts: Vec<String>,
}
impl Rel {
    fn text(&self, base: &Path) -> String {
        if self.abs {
            let mut t = base.to_str().unwrap().to_string();
            for p in &self.parts {
                t.push('/');
                t.push_str(p);
            }
            t
        } else {
            self.parts.join("/")
        }
    }
    fn plain(&self) -> bool {
        !self.parts.iter().any(|p| p == ".." || p == ".")
    }
}

const NAMES: &[&str] = &["a", "b", "c", "d e", "日本", "x.txt", "[q]", "a*", "ab"];

/// A path that is likely to mean something.
fn path(s: &mut Src, t: &Tree, cwd: &[String]) -> Rel {
    let abs = s.chance(1, 6);
    let here: Vec<String> = if abs { vec![] } else { cwd.to_vec() };
    let mut parts: Vec<String> = vec![];
    if s.chance(3, 5) {
        // Something that exists.
        let known: Vec<Vec<String>> = t.below(&here).into_iter().filter(|k| k.len() > here.len()).collect();
        if !known.is_empty() {
            parts = s.pick(&known)[here.len()..].to_vec();
        }
    }
    if parts.is_empty() || s.chance(2, 5) {
        let k = 1 + s.weighted(&[6, 2, 1]);
        for _ in 0..k {
            parts.push(s.pick(NAMES).to_string());
        }
    }
    if s.chance(1, 6) {
        // Up and, perhaps, down again.
        if !here.is_empty() && s.bool() {
            parts.insert(0, "..".into());
            if s.bool() {
                parts.insert(1, here.last().unwrap().clone());
            }
        } else {
            let dirs: Vec<String> = t.children(&here).into_iter().filter(|c| t.dir(&[&here[..], &[c.clone()]].concat())).collect();
            if !dirs.is_empty() {
                parts.insert(0, s.pick(&dirs).clone());
                parts.insert(1, "..".into());
            }
        }
    }
    if s.chance(1, 10) {
        let i = s.idx(parts.len());
        parts.insert(i, ".".into());
    }
    Rel { abs, parts }
}

/// What an operation is expected to give.
#[derive(Debug)]
enum Want {
    Is(E),
    /// A list, in any order.
    Set(Vec<String>),
    Fails,
}

fn content(s: &mut Src) -> E {
    match s.below(8) {
        0 => E::Bytes(helpers::data(s.usize(0, 30), s.below(99), 2)),
        1 => E::Integer(gen::int(s)),
        2 => E::String(String::new()),
        3 => val::value(s, 2),
        4 => {
            let (n, seed) = (s.usize(0, 20_000), s.below(99));
            E::Bytes(helpers::data(n, seed, 2))
        }
        5 => {
            let k = s.usize(0, 8);
            let mark = if s.chance(1, 4) { "\u{feff}" } else { "" };
            E::String(mark.to_string() + &(0..k).map(|i| format!("{}{}", i, s.pick(&["\n", "\r\n", "\n\n", "x\r", " "]))).collect::<String>())
        }
        _ => E::String(gen::long(s, 40)),
    }
}
fn bytes_of(e: &E) -> Vec<u8> {
    match e {
        E::Bytes(b) => b.clone(),
        e => format!("{}", e).into_bytes(),
    }
}
fn value_of(b: &[u8]) -> E {
    match String::from_utf8(b.to_vec()) {
        Ok(t) => E::String(t),
        Err(_) => E::Bytes(b.to_vec()),
    }
}
/// Lines without their ends (\n or \r\n).
fn lines(t: &str) -> Vec<String> {
    let mut v: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
    if v.last().map_or(false, |l| l.is_empty()) {
        v.pop();
    }
    let n = v.len();
    let ended = t.ends_with('\n');
    for (i, l) in v.iter_mut().enumerate() {
        if l.ends_with('\r') && (i + 1 < n || ended) {
            l.pop();
        }
    }
    v
}
/// `*` and `?` in one component.
fn wild(p: &[char], t: &[char]) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some('*') => (0..=t.len()).any(|i| wild(&p[1..], &t[i..])),
        Some('?') => !t.is_empty() && wild(&p[1..], &t[1..]),
        Some(c) => t.first() == Some(c) && wild(&p[1..], &t[1..]),
    }
}

struct World {
    tree: Tree,
    cwd: Vec<String>,
    base: PathBuf,
}

/// One operation: its text, and what it should give. Changes the model.
fn step(s: &mut Src, w: &mut World, defs: &mut Vec<(String, E)>, changes: &mut usize) -> Option<(String, Want)> {
    let op = *s.pick(&["mkdir", "mkdir", "write", "write", "append", "read", "mv", "mv", "cp", "cp", "rm", "rmdir", "ls", "exists?", "is-dir?", "is-file?", "head", "tail", "glob", "tree", "canon", "cd", "cd", "cwd"]);
    let base = w.base.clone();
    let p = path(s, &w.tree, &w.cwd);
    let at = w.tree.resolve(&w.cwd, &p);
    if at == At::Out {
        return None;
    }
    let lex = Tree::lexical(&w.cwd, &p)?;
    let t = &mut w.tree;
    let arg = |s: &mut Src, defs: &mut Vec<(String, E)>, text: &str| {
        let simple = text.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '/') && text.starts_with(|c: char| c == 'x');
        if simple && s.bool() {
            text.to_string()
        } else if s.chance(2, 3) {
            gen::quote(text)
        } else {
            let n = format!("p{}", defs.len());
            defs.push((n.clone(), E::String(text.into())));
            n
        }
    };
    let path_text = p.text(&base);
    let a = arg(s, defs, &path_text);
    // The directory we are in stays.
    let holds_cwd = |q: &[String]| w.cwd.starts_with(q);
    let ok = |e: E| Some(Want::Is(e));
    let (call, want) = match op {
        "mkdir" => {
            if !p.plain() && at == At::Broken {
                return None;
            }
            let blocked = (0..=lex.len()).any(|i| t.file(&lex[..i]).is_some());
            if !blocked {
                for i in 0..=lex.len() {
                    if t.0.insert(lex[..i].to_vec(), Node::Dir).is_none() {
                        *changes += 1;
                    }
                }
            }
            (format!("fs@mkdir {}", a), if blocked { Want::Fails } else { Want::Is(E::None) })
        }
        "rmdir" => {
            if holds_cwd(&lex) {
                return None;
            }
            let w = match &at {
                At::There(q) if t.dir(q) && t.children(q).is_empty() && p.parts.last().map_or(false, |l| l != ".") => {
                    t.0.remove(q);
                    *changes += 1;
                    Want::Is(E::None)
                }
                _ => Want::Fails,
            };
            if p.parts.last().map_or(true, |l| l == "." || l == "..") {
                return None;
            }
            (format!("fs@rmdir {}", a), w)
        }
        "rm" => {
            if holds_cwd(&lex) || p.parts.last().map_or(true, |l| l == "." || l == "..") {
                return None;
            }
            let w = match &at {
                At::There(q) => {
                    for k in t.below(q) {
                        t.0.remove(&k);
                    }
                    *changes += 1;
                    Want::Is(E::None)
                }
                _ => Want::Fails,
            };
            (format!("fs@rm {}", a), w)
        }
        "write" => {
            let v = content(s);
            let c = match val::lit(&v) {
                Some(l) if s.bool() => l,
                _ => {
                    let n = format!("p{}", defs.len());
                    defs.push((n.clone(), v.clone()));
                    n
                }
            };
            let want = match &at {
                At::Free(q) => {
                    t.0.insert(q.clone(), Node::File(bytes_of(&v)));
                    Want::Is(E::None)
                }
                At::There(q) if t.file(q).is_some() => {
                    t.0.insert(q.clone(), Node::File(bytes_of(&v)));
                    Want::Is(E::None)
                }
                _ => Want::Fails,
            };
            *changes += 1;
            (format!("fs@write {} {}", a, c), want)
        }
        "append" => {
            let v = content(s);
            let n = format!("p{}", defs.len());
            defs.push((n.clone(), v.clone()));
            let want = match &at {
                At::There(q) if t.file(q).is_some() => {
                    let mut b = t.file(q).unwrap().clone();
                    b.extend(bytes_of(&v));
                    t.0.insert(q.clone(), Node::File(b));
                    *changes += 1;
                    Want::Is(E::None)
                }
                _ => Want::Fails,
            };
            (format!("fs@append {} {}", a, n), want)
        }
        "read" => {
            let want = match &at {
                At::There(q) => t.file(q).and_then(|b| ok(value_of(b))).unwrap_or(Want::Fails),
                _ => Want::Fails,
            };
            (format!("fs@read {}", a), want)
        }
        "head" | "tail" => {
            let n = if s.chance(1, 8) { gen::int(s).max(0) } else { s.range(0, 9) };
            let want = match &at {
                At::There(q) => match t.file(q).map(|b| String::from_utf8(b.clone())) {
                    Some(Ok(text)) => {
                        let l = lines(&text);
                        let k = usize::try_from(n).unwrap().min(l.len());
                        let l = if op == "head" { &l[..k] } else { &l[l.len() - k..] };
                        Want::Is(E::String(l.iter().map(|x| format!("{}\n", x)).collect()))
                    }
                    _ => Want::Fails,
                },
                _ => Want::Fails,
            };
            (format!("fs@{} {} {}", op, a, n), want)
        }
        "mv" | "cp" => {
            let d = path(s, t, &w.cwd);
            let dat = t.resolve(&w.cwd, &d);
            let dlex = Tree::lexical(&w.cwd, &d)?;
            let plain_ends = |r: &Rel| r.parts.last().map_or(false, |l| l != "." && l != "..");
            if dat == At::Out || !plain_ends(&p) || !plain_ends(&d) || (!d.plain() && dat == At::Broken) || (op == "mv" && holds_cwd(&lex)) || holds_cwd(&dlex) {
                return None;
            }
            let b = arg(s, defs, &d.text(&base));
            let same_path = full(&base, &w.cwd).join(p.text(&base)) == full(&base, &w.cwd).join(d.text(&base));
            let want = match &at {
                At::There(q) if same_path => {
                    let _ = q;
                    Want::Is(E::None)
                }
                _ if same_path => return None,
                At::There(q) => {
                    let is_dir = t.dir(q);
                    let into_itself = is_dir && dlex.starts_with(q);
                    let blocked = (0..dlex.len()).any(|i| t.file(&dlex[..i]).is_some());
                    match &dat {
                        At::There(_) => Want::Fails,
                        _ if into_itself || blocked => Want::Fails,
                        // Copying a directory also makes the directories above its destination.
                        At::Broken if !(op == "cp" && is_dir) => Want::Fails,
                        _ => {
                            for i in 0..dlex.len() {
                                t.0.entry(dlex[..i].to_vec()).or_insert(Node::Dir);
                            }
                            for k in t.below(q) {
                                let v = t.0[&k].clone();
                                t.0.insert([&dlex[..], &k[q.len()..]].concat(), v);
                            }
                            if op == "mv" {
                                for k in t.below(q) {
                                    t.0.remove(&k);
                                }
                            }
                            *changes += 1;
                            Want::Is(E::None)
                        }
                    }
                }
                _ => Want::Fails,
            };
            (format!("fs@{} {} {}", op, a, b), want)
        }
        "ls" => {
            let want = match &at {
                At::There(q) if t.dir(q) => Want::Set(t.children(q).iter().map(|c| Path::new(&path_text).join(c).to_str().unwrap().to_string()).collect()),
                At::There(_) => Want::Is(E::List(vec![E::String(full(&base, &w.cwd).join(&path_text).to_str().unwrap().into())])),
                _ => Want::Fails,
            };
            (format!("fs@ls {}", a), want)
        }
        "exists?" | "is-dir?" | "is-file?" => {
            let r = match &at {
                At::There(q) => match op {
                    "exists?" => true,
                    "is-dir?" => t.dir(q),
                    _ => !t.dir(q),
                },
                _ => false,
            };
            (format!("fs@{} {}", op, a), Want::Is(E::Boolean(r)))
        }
        "canon" => {
            let want = match &at {
                At::There(q) => Want::Is(E::String(full(&base, q).to_str().unwrap().into())),
                _ => Want::Fails,
            };
            (format!("fs@canon {}", a), want)
        }
        "tree" => {
            let depth = if s.chance(2, 3) { Some(s.range(-1, 4)) } else { None };
            let here = s.bool();
            let q = if here { w.cwd.clone() } else { lex.clone() };
            if !here && !matches!(&at, At::There(q) if t.dir(q)) || !p.plain() {
                return None;
            }
            let call = match (depth, here) {
                (None, true) => "fs@tree ()".to_string(),
                (None, false) => format!("fs@tree {}", a),
                (Some(d), true) => format!("fs@tree ({})", d),
                (Some(d), false) => format!("fs@tree ({}) {}", d, a),
            };
            (call, Want::Is(t.as_map(&base, &q, depth)))
        }
        "glob" => {
            let dir = w.cwd.clone();
            let abs = s.chance(1, 4);
            let k = 1 + s.below(3) as usize;
            let pats: Vec<String> = (0..k).map(|_| s.pick(&["*", "a*", "?", "??", "*.txt", "a", "b", "*b*", "d e", "日*", "?b", "x.t?t", "**"]).to_string()).collect();
            if pats.iter().filter(|p| *p == "**").count() > 1 {
                return None;
            }
            let root = if abs { vec![] } else { dir.clone() };
            let hits: Vec<Vec<String>> = t
                .below(&root)
                .into_iter()
                .filter(|q| {
                    let rel = &q[root.len()..];
                    if rel.is_empty() {
                        return false;
                    }
                    matches(&pats, rel, t, &root)
                })
                .collect();
            // `**` at the end stands for directories, the start itself among them.
            if pats.last().map_or(false, |p| p == "**") {
                return None;
            }
            let set = hits
                .iter()
                .map(|q| {
                    let f = full(&base, q);
                    match f.strip_prefix(full(&base, &dir)) {
                        Ok(r) => r.to_str().unwrap().to_string(),
                        Err(_) => f.to_str().unwrap().to_string(),
                    }
                })
                .collect();
            let text = if abs { format!("{}/{}", escape(base.to_str().unwrap()), pats.join("/")) } else { pats.join("/") };
            (format!("fs@glob {}", gen::quote(&text)), Want::Set(set))
        }
        "cd" => {
            let want = match &at {
                At::There(q) if t.dir(q) => {
                    w.cwd = q.clone();
                    Want::Is(E::None)
                }
                _ => Want::Fails,
            };
            // Only here does it change the directory of what comes after it.
            return Some((format!("cd {}", a), want));
        }
        _ => {
            let c = full(&base, &w.cwd).to_str().unwrap().to_string();
            return Some((s.pick(&["CWD", "sys@cwd ()"]).to_string(), Want::Is(E::String(c))));
        }
    };
    // Functions work in the directory of their caller, whatever it was where they were made.
    let two = matches!(op, "write" | "append" | "head" | "tail" | "mv" | "cp") || (op == "tree" && call.starts_with("fs@tree (") && !call.ends_with(')'));
    let call = match s.below(10) {
        k @ (8 | 9) if call != "fs@tree ()" => {
            let (f, rest) = call.split_once(' ').unwrap();
            format!("{}{} {} {}", if k == 8 { "early" } else { "late" }, if two { 2 } else { 1 }, f, rest)
        }
        7 => format!("(zz -> {}) 1", call),
        6 => format!("{{ {} }}", call),
        5 => format!("err@try ({}) (ee -> \"failed\")", call),
        _ => call,
    };
    let want = match want {
        Want::Fails if call.starts_with("err@try") => Want::Is(E::String("failed".into())),
        w => w,
    };
    Some((call, want))
}
fn escape(t: &str) -> String {
    t.chars().map(|c| if "[]*?".contains(c) { format!("[{}]", c) } else { c.to_string() }).collect()
}
fn matches(pats: &[String], rel: &[String], t: &Tree, at: &[String]) -> bool {
    let Some(p) = pats.first() else { return rel.is_empty() };
    if p == "**" {
        // Any number of directories.
        return (0..=rel.len()).any(|i| {
            (1..=i).all(|j| t.dir(&[at, &rel[..j]].concat())) && matches(&pats[1..], &rel[i..], t, &[at, &rel[..i]].concat())
        });
    }
    let Some(r) = rel.first() else { return false };
    let (p, c): (Vec<char>, Vec<char>) = (p.chars().collect(), r.chars().collect());
    wild(&p, &c) && matches(&pats[1..], &rel[1..], t, &[at, &rel[..1]].concat())
}

fn judge(call: &str, out: &Out, want: &Want) -> R {
    let ok = match (out, want) {
        (Out::Val(v), Want::Is(e)) => same(v, e),
        (Out::Val(E::List(l)), Want::Set(w)) => {
            let mut have: Vec<String> = vec![];
            for x in l {
                match x {
                    E::String(t) => have.push(t.clone()),
                    _ => fail!("{} gives {}", call, out.show()),
                }
            }
            have.sort();
            let mut w = w.clone();
            w.sort();
            have == w
        }
        (Out::Err(_), Want::Fails) => true,
        _ => false,
    };
    if !ok {
        let w: String = format!("{:?}", want).chars().take(500).collect();
        let h: String = out.show().chars().take(500).collect();
        fail!("{} gives {}; expected: {}", call, h, w);
    }
    Ok(())
}

fn c25(s: &mut Src, cx: &mut Cx) -> R {
    let odd = s.chance(1, 4);
    let base = if odd { sut::cwd_dir().join(s.pick(&["[z]", "a*b", "x y", "ü"])) } else { sut::cwd_dir() };
    let mut w = World { tree: Tree::new(), cwd: vec![], base: base.clone() };
    let mut defs = vec![];
    let mut plan: Vec<(String, Want, Tree)> = vec![];
    let mut changes = 0;
    let n = s.usize(1, 24);
    for _ in 0..n {
        if let Some((call, want)) = step(s, &mut w, &mut defs, &mut changes) {
            plan.push((call, want, w.tree.clone()));
        }
    }
    if plan.is_empty() {
        return discard();
    }
    // `cd` moves the whole process; otherwise only the environment says where we are.
    let elsewhere = s.bool() && !plan.iter().any(|p| p.0.starts_with("cd "));
    cx.nontrivial(changes >= 2);
    cx.label(if elsewhere { "process elsewhere" } else { "process in the same directory" });
    let mut shown: String = plan.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(";\n");
    for (n, v) in &defs {
        let t: String = format!("{:?}", v).chars().take(100).collect();
        shown.push_str(&format!("   # {} = {}", n, t));
    }
    cx.go(shown)?;
    sut::clean_cwd();
    std::fs::create_dir_all(&base).unwrap();
    std::env::set_current_dir(if elsewhere { Path::new("/") } else { &base }).unwrap();
    let mut env = sut::fresh_env();
    env.set_cwd(base.to_str().unwrap());
    for (n, v) in &defs {
        env.define(n, v.clone());
    }
    sut::run_in(&mut env, "let early1 = f -> x -> f x; let early2 = f -> x -> y -> f x y; let late1 = f -> { let g = f; x -> g x }; let late2 = f -> x -> { let g = x; y -> f g y }");
    let r = (|| {
        for (call, want, tree) in &plan {
            let out = sut::run_in(&mut env, call);
            judge(call, &out, want)?;
            if let Some(d) = tree.diff(&Tree::read(&base)) {
                fail!("after {}: {}", call, d);
            }
        }
        Ok(())
    })();
    sut::clean_cwd();
    r
}

/// Removing, moving and listing never reach through a link.
fn c25_links(s: &mut Src, cx: &mut Cx) -> R {
    // t/: the target of the links; it must stay as it is. w/: where we work.
    let files: Vec<(String, Vec<u8>)> = vec![("t/keep".into(), b"precious".to_vec()), ("t/sub/deep".into(), b"also".to_vec()), ("w/own".into(), b"own".to_vec()), ("w/dir/inner".into(), b"inner".to_vec())];
    let links: Vec<(&str, &str)> = vec![("w/to_dir", "../t"), ("w/to_file", "../t/keep"), ("w/dangling", "../nowhere"), ("w/dir/up", "../../t"), ("w/dir/self", ".")];
    let use_links: Vec<(&str, &str)> = links.iter().filter(|_| s.chance(3, 4)).copied().collect();
    let n = s.usize(1, 8);
    let mut calls: Vec<(String, Box<dyn Fn(&Out) -> R>)> = vec![];
    let mut there: BTreeSet<String> = use_links.iter().map(|l| l.0.to_string()).collect();
    there.insert("w/own".into());
    there.insert("w/dir".into());
    there.insert("w/dir/inner".into());
    let mut gone = |there: &mut BTreeSet<String>, p: &str| there.retain(|q| q != p && !q.starts_with(&format!("{}/", p)));
    for _ in 0..n {
        let v: Vec<String> = there.iter().cloned().collect();
        if v.is_empty() {
            break;
        }
        let p = s.pick(&v).clone();
        let name = p.strip_prefix("w/").unwrap().to_string();
        let is_link = use_links.iter().any(|l| l.0 == p);
        match s.below(8) {
            5 | 6 => {
                // What is there is told as it is, links that lead nowhere included.
                let dir = s.pick(&[".", "dir", "to_dir"]).to_string();
                let full = format!("w/{}", dir);
                calls.push((
                    format!("fs@ls {}", gen::quote(&dir)),
                    Box::new(move |o| {
                        let Ok(entries) = std::fs::read_dir(&full) else {
                            ensure!(o.is_err(), "ls of nothing gives {}", o.show());
                            return Ok(());
                        };
                        let want: BTreeSet<String> = entries.flatten().map(|e| Path::new(&dir).join(e.file_name()).to_str().unwrap().to_string()).collect();
                        let Out::Val(E::List(l)) = o else { fail!("ls gives {}", o.show()) };
                        let have: BTreeSet<String> = l.iter().map(|e| e.to_string()).collect();
                        ensure!(have == want && l.len() == want.len(), "ls gives {:?} instead of {:?}", l, want);
                        Ok(())
                    }),
                ));
            }
            7 => {
                let f = *s.pick(&["exists?", "is-dir?", "is-file?"]);
                let full = p.clone();
                calls.push((
                    format!("fs@{} {}", f, gen::quote(&name)),
                    Box::new(move |o| {
                        let q = Path::new(&full);
                        let want = match f {
                            "exists?" => q.exists(),
                            "is-dir?" => q.is_dir(),
                            _ => q.is_file(),
                        };
                        ensure!(matches!(o, Out::Val(E::Boolean(b)) if *b == want), "{} of {} gives {} instead of {}", f, full, o.show(), want);
                        Ok(())
                    }),
                ));
            }
            0..=2 => {
                calls.push((format!("fs@rm {}", gen::quote(&name)), Box::new(|o| if o.val().is_some() { Ok(()) } else { fail!("rm gives {}", o.show()) })));
                gone(&mut there, &p);
            }
            3 => {
                let k = calls.len();
                calls.push((format!("fs@mv {} \"moved{}\"", gen::quote(&name), k), Box::new(|o| if o.val().is_some() { Ok(()) } else { fail!("mv gives {}", o.show()) })));
                gone(&mut there, &p);
            }
            _ if is_link => {
                // A link to a directory is no empty directory.
                calls.push((format!("fs@rmdir {}", gen::quote(&name)), Box::new(|o| if o.is_err() { Ok(()) } else { fail!("rmdir gives {}", o.show()) })));
            }
            _ => {}
        }
    }
    if calls.is_empty() {
        return discard();
    }
    cx.nontrivial(calls.len() >= 2);
    let shown = calls.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join("; ") + &format!("   # links {:?}", use_links);
    cx.go(shown)?;
    sut::clean_cwd();
    std::fs::create_dir_all("t/sub").unwrap();
    std::fs::create_dir_all("w/dir").unwrap();
    for (f, b) in &files {
        std::fs::write(f, b).unwrap();
    }
    for (l, t) in &use_links {
        std::os::unix::fs::symlink(t, l).unwrap();
    }
    let mut env = sut::fresh_env();
    env.set_cwd(sut::cwd_dir().join("w").to_str().unwrap());
    let r = (|| {
        for (c, check) in &calls {
            let o = sut::run_in(&mut env, c);
            check(&o)?;
            for (f, b) in &files[..2] {
                ensure!(std::fs::read(f).ok().as_ref() == Some(b), "{} changed {}, which is behind a link", c, f);
            }
        }
        let _ = &there;
        for p in ["w/own", "w/dir", "w/to_dir", "w/to_file", "w/dangling", "w/dir/inner", "w/dir/up", "w/dir/self"] {
            let have = std::fs::symlink_metadata(p).is_ok();
            ensure!(have == there.contains(p), "in the end {} {}", p, if have { "still exists" } else { "is gone" });
        }
        Ok(())
    })();
    sut::clean_cwd();
    r
}

/// What `fs@tree` shows of a real directory, which does not enter a directory within itself.
fn real_tree(p: &Path, depth: Option<i64>, above: &[PathBuf]) -> E {
    let mut m: BTreeMap<String, E> = BTreeMap::new();
    m.insert(".".into(), p.to_str().unwrap().into());
    m.insert("..".into(), p.parent().unwrap().to_str().unwrap().into());
    if depth.map_or(true, |d| d > 0) {
        let above = [above, &[p.canonicalize().unwrap()]].concat();
        for e in std::fs::read_dir(p).unwrap().flatten() {
            let q = e.path();
            let v = match q.canonicalize() {
                Ok(c) if c.is_dir() && !above.contains(&c) => real_tree(&q, depth.map(|d| d - 1), &above),
                _ => q.to_str().unwrap().into(),
            };
            m.insert(e.file_name().into_string().unwrap(), v);
        }
    }
    E::Map(m)
}
/// The files of a copy of a real directory, or nothing if it has no end or a link to nothing.
fn real_copy(p: &Path, above: &[PathBuf], name: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) -> bool {
    let Ok(c) = p.canonicalize() else { return false };
    if c.is_file() {
        out.insert(name.into(), Some(std::fs::read(c).unwrap()));
        return true;
    }
    if above.contains(&c) {
        return false;
    }
    out.insert(name.into(), None);
    let above = [above, &[c]].concat();
    std::fs::read_dir(p).unwrap().flatten().all(|e| real_copy(&e.path(), &above, &format!("{}/{}", name, e.file_name().to_str().unwrap()), out))
}

/// Links that lead back to a directory they are in: listing and copying end, and are right.
fn c25_cycles(s: &mut Src, cx: &mut Cx) -> R {
    let dirs = ["w", "w/a", "w/a/b", "w/c", "t"];
    let n = s.usize(0, 6);
    let mut links: BTreeMap<String, String> = BTreeMap::new();
    for i in 0..n {
        let at = *s.pick(&dirs);
        let to = *s.pick(&["", ".", "..", "../..", "a", "../a", "a/b", "../c", "../w", "../../t", "../t", "f", "nowhere"]);
        let to = if to.is_empty() { format!("{}/{}", sut::cwd_dir().display(), s.pick(&dirs)) } else { to.to_string() };
        links.insert(format!("{}/l{}", at, i), to);
    }
    let from = *s.pick(&dirs);
    let copy = s.chance(1, 3);
    let depth = if s.chance(1, 3) { Some(s.range(0, 6)) } else { None };
    let call = match depth {
        _ if copy => format!("fs@cp {} \"copy\"", gen::quote(from)),
        Some(d) => format!("fs@tree {} {}", d, gen::quote(from)),
        None => format!("fs@tree {}", gen::quote(from)),
    };
    cx.nontrivial(n >= 1);
    cx.go(format!("{}   # links {:?}", call, links))?;
    sut::clean_cwd();
    std::fs::create_dir_all("w/a/b").unwrap();
    std::fs::create_dir_all("w/c").unwrap();
    std::fs::create_dir_all("t").unwrap();
    for f in ["w/f", "w/a/b/f", "t/f"] {
        std::fs::write(f, f).unwrap();
    }
    for (l, t) in &links {
        std::os::unix::fs::symlink(t, l).unwrap();
    }
    let r = (|| {
        let base = sut::cwd_dir().to_path_buf();
        let p = base.join(from);
        // Without end the tree would be entered 40 times over, in every way there is.
        let mut env = sut::fresh_env();
        env.set_cwd(base.to_str().unwrap());
        if copy {
            let mut want = BTreeMap::new();
            let ok = real_copy(&p, &[], "copy", &mut want);
            let o = sut::run_in(&mut env, &call);
            if !ok {
                ensure!(o.is_err(), "gives {}, but a link leads back to a directory it is in, or to nothing", o.show());
            } else {
                ensure!(o.val().is_some(), "gives {}", o.show());
                let mut have = BTreeMap::new();
                ensure!(real_copy(&base.join("copy"), &[], "copy", &mut have) && have == want, "the copy is {:?} and not {:?}", have, want);
            }
            for f in ["w/f", "w/a/b/f", "t/f"] {
                ensure!(std::fs::read(f).ok().as_deref() == Some(f.as_bytes()), "the copy changed {}", f);
            }
            for (l, t) in &links {
                ensure!(std::fs::read_link(l).ok().as_deref() == Some(Path::new(t)), "the copy changed {}", l);
            }
        } else {
            let want = real_tree(&p, depth, &[]);
            let o = sut::run_in(&mut env, &call);
            ensure!(o.val().map_or(false, |v| same(v, &want)), "gives {} and not {}", o.show(), want);
        }
        Ok(())
    })();
    sut::clean_cwd();
    r
}

/// A copy or a moved file has the permissions of the original; writing to a file leaves them.
fn c25_modes(s: &mut Src, cx: &mut Cx) -> R {
    use std::os::unix::fs::PermissionsExt;
    let mut files: BTreeMap<String, (Vec<u8>, u32)> = BTreeMap::new();
    for n in ["a", "b", "d/c", "d/e/f"] {
        if s.chance(3, 4) {
            let mode = *s.pick(&[0o644, 0o755, 0o600, 0o700, 0o640, 0o444, 0o400, 0o555, 0o777, 0o666, 0o664, 0o711]);
            let c: Vec<u8> = (0..s.len(20)).map(|_| s.below(256) as u8).collect();
            files.insert(n.to_string(), (c, mode));
        }
    }
    if files.is_empty() {
        return discard();
    }
    let start = files.clone();
    let mut calls: Vec<(String, BTreeMap<String, (Vec<u8>, u32)>)> = vec![];
    let n = s.usize(1, 6);
    for i in 0..n {
        let names: Vec<String> = files.keys().cloned().collect();
        if names.is_empty() {
            break;
        }
        let f = s.pick(&names).clone();
        // A directory above it instead.
        let f = if f.contains('/') && s.bool() { f.rsplit_once('/').unwrap().0.to_string() } else { f };
        let call = match s.below(5) {
            0 if files.contains_key(&f) && files[&f].1 & 0o200 != 0 => {
                files.get_mut(&f).unwrap().0 = b"new".to_vec();
                format!("fs@write {} \"new\"", gen::quote(&f))
            }
            1 if files.contains_key(&f) && files[&f].1 & 0o200 != 0 => {
                files.get_mut(&f).unwrap().0.extend(b"more");
                format!("fs@append {} \"more\"", gen::quote(&f))
            }
            k => {
                let to = format!("to{}", i);
                let below: Vec<String> = files.keys().filter(|q| **q == f || q.starts_with(&format!("{}/", f))).cloned().collect();
                for q in below {
                    let v = files[&q].clone();
                    files.insert(format!("{}{}", to, &q[f.len()..]), v);
                    if k == 2 {
                        files.remove(&q);
                    }
                }
                format!("fs@{} {} {}", if k == 2 { "mv" } else { "cp" }, gen::quote(&f), to)
            }
        };
        calls.push((call, files.clone()));
    }
    let mode: Vec<String> = start.iter().map(|(n, v)| format!("{} {:o}", n, v.1)).collect();
    cx.nontrivial(calls.len() >= 2);
    cx.go(format!("{}   # {}", calls.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join("; "), mode.join(", ")))?;
    sut::clean_cwd();
    for (n, (c, m)) in &start {
        if let Some((d, _)) = n.rsplit_once('/') {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(n, c).unwrap();
        std::fs::set_permissions(n, std::fs::Permissions::from_mode(*m)).unwrap();
    }
    let mut env = sut::fresh_env();
    env.set_cwd(sut::cwd_dir().to_str().unwrap());
    let r = (|| {
        for (call, want) in &calls {
            let o = sut::run_in(&mut env, call);
            ensure!(matches!(o, Out::Val(E::None)), "{} gives {}", call, o.show());
            let real = Tree::read(Path::new("."));
            let have: BTreeSet<String> = real.0.iter().filter(|x| *x.1 != Node::Dir).map(|x| x.0.join("/")).collect();
            let names: BTreeSet<String> = want.keys().cloned().collect();
            ensure!(have == names, "after {}: the files are {:?} instead of {:?}", call, have, names);
            for (n, (c, m)) in want {
                let is = std::fs::metadata(n).unwrap().permissions().mode() & 0o7777;
                ensure!(is == *m, "after {}: {} has the permissions {:o} instead of {:o}", call, n, is, m);
                ensure!(std::fs::read(n).ok().as_ref() == Some(c), "after {}: {} has another content", call, n);
            }
        }
        Ok(())
    })();
    sut::clean_cwd();
    r
}

// ---------------------------------------------------------------- C26

fn c26(s: &mut Src, cx: &mut Cx) -> R {
    let names = ["f.txt", "x", "a b", "d/g", "日", "d/h.bin"];
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut defs: Vec<(String, E)> = vec![];
    let mut plan: Vec<(String, Option<E>, Vec<u8>, BTreeMap<String, Vec<u8>>)> = vec![];
    let n = s.usize(1, 10);
    let mut good = 0;
    for _ in 0..n {
        let f = s.pick(&names).to_string();
        let mut bad_place = false;
        let f = match s.below(25) {
            0 => {
                bad_place = true;
                "nowhere/f".to_string()
            }
            1 => {
                bad_place = true;
                "d".to_string()
            }
            _ => f,
        };
        let target = |s: &mut Src, defs: &mut Vec<(String, E)>, f: &str| match s.below(4) {
            0 => {
                let n = format!("v{}", defs.len());
                defs.push((n.clone(), E::String(f.into())));
                n
            }
            1 if f == "f.txt" => "f.txt".to_string(),
            2 => gen::quote(sut::cwd_dir().join(f).to_str().unwrap()),
            _ => gen::quote(f),
        };
        // A source of data: its text and what it gives.
        let mut source = |s: &mut Src, defs: &mut Vec<(String, E)>| -> (String, E) {
            match s.below(5) {
                0 | 1 => {
                    let k = if s.chance(1, 5) { s.usize(0, 200_000) } else { s.usize(0, 60) };
                    let (seed, mode) = (s.below(1000), s.below(3));
                    (format!("emit {} {} {}", k, seed, mode), value_of(&helpers::data(k, seed, mode)))
                }
                _ => {
                    let v = content(s);
                    match val::lit(&v) {
                        Some(l) if s.bool() => (l, v),
                        _ => {
                            let n = format!("v{}", defs.len());
                            defs.push((n.clone(), v.clone()));
                            (n, v)
                        }
                    }
                }
            }
        };
        // Programs and functions on the way.
        let way = |s: &mut Src, v: E| -> (String, E) {
            match s.below(6) {
                0 => (" | xcat".into(), value_of(&bytes_of(&v))),
                1 => (" | slurp".into(), value_of(&helpers::transform("slurp", &[], &bytes_of(&v)))),
                2 => (" | count".into(), value_of(&helpers::transform("count", &[], &bytes_of(&v)))),
                3 => (" | fn@id".into(), v),
                4 => (" | (q -> q)".into(), v),
                _ => (String::new(), v),
            }
        };
        let (mut call, value, io): (String, Option<E>, Vec<u8>);
        match s.below(8) {
            0..=2 => {
                let (a, v) = source(s, &mut defs);
                let (b, v) = way(s, v);
                let t = target(s, &mut defs, &f);
                call = format!("{}{} >> {}", a, b, t);
                value = if bad_place {
                    None
                } else {
                    files.insert(f.clone(), bytes_of(&v));
                    Some(E::None)
                };
                io = vec![];
            }
            3 | 4 => {
                let (a, v) = source(s, &mut defs);
                let (b, v) = way(s, v);
                let t = target(s, &mut defs, &f);
                call = format!("{}{} >>> {}", a, b, t);
                value = match files.get_mut(&f) {
                    Some(have) => {
                        if have.len() > 1_000_000 {
                            return discard();
                        }
                        have.extend(bytes_of(&v));
                        Some(E::None)
                    }
                    None => None,
                };
                io = vec![];
            }
            _ => {
                // Reading.
                let t = target(s, &mut defs, &f);
                let have = files.get(&f).cloned();
                match s.below(5) {
                    0 => {
                        call = format!("xcat << {}", t);
                        io = have.clone().unwrap_or_default();
                        value = have.map(|_| E::None);
                    }
                    1 => {
                        call = format!("fn@id << {}", t);
                        value = have.map(|b| value_of(&b));
                        io = vec![];
                    }
                    2 => {
                        call = format!("count << {}", t);
                        io = have.as_ref().map(|b| format!("{}", b.len()).into_bytes()).unwrap_or_default();
                        value = have.map(|_| E::None);
                    }
                    3 => {
                        call = format!("(q -> [q, 1]) << {}", t);
                        value = have.map(|b| E::List(vec![value_of(&b), E::Integer(1)]));
                        io = vec![];
                    }
                    _ => {
                        // From one file into another.
                        let g = s.pick(&names).to_string();
                        let u = target(s, &mut defs, &g);
                        call = format!("slurp << {} >> {}", t, u);
                        io = vec![];
                        value = have.map(|b| {
                            files.insert(g.clone(), b.iter().rev().copied().collect());
                            E::None
                        });
                    }
                }
            }
        }
        match s.below(8) {
            7 => call = format!("(zz -> {}) 1", call),
            6 => call = format!("{{ {} }}", call),
            _ => {}
        }
        if value.is_some() {
            good += 1;
        }
        plan.push((call, value, io, files.clone()));
    }
    cx.nontrivial(good >= 2);
    let mut shown: String = plan.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(";\n");
    for (n, v) in &defs {
        let t: String = format!("{:?}", v).chars().take(100).collect();
        shown.push_str(&format!("   # {} = {}", n, t));
    }
    cx.go(shown)?;
    sut::clean_cwd();
    std::fs::create_dir("d").unwrap();
    let mut env: Environment = sut::programs_env();
    for (n, v) in &defs {
        env.define(n, v.clone());
    }
    let base = sut::cwd_dir();
    let r = (|| {
        for (call, want, io, files) in &plan {
            let ((out, have), stuck) = sut::watched(30, || sut::captured(|| sut::run_in(&mut env, call)));
            ensure!(!stuck, "{} never ends", call);
            match want {
                Some(e) => judge(call, &out, &Want::Is(e.clone()))?,
                None => judge(call, &out, &Want::Fails)?,
            }
            ensure!(&have == io, "{} prints {} bytes {:?} instead of {} bytes", call, have.len(), String::from_utf8_lossy(&have[..have.len().min(60)]), io.len());
            let mut tree = Tree::new();
            tree.0.insert(vec!["d".into()], Node::Dir);
            for (f, b) in files {
                tree.0.insert(f.split('/').map(String::from).collect(), Node::File(b.clone()));
            }
            if let Some(d) = tree.diff(&Tree::read(&base)) {
                fail!("after {}: {}", call, d);
            }
        }
        Ok(())
    })();
    sut::clean_cwd();
    r
}
