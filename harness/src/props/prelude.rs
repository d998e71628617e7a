//! The start-up scripts the shell comes with, and what they define.

use crate::engine::*;
use crate::props::around::{day_number, leap, month_days, tzset, CLOCK};
use crate::sut::{self, Out};
use crate::{ensure, fail, gen, val};
use dune::{Environment, Expression as E};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C45",
        rule: "The calendar functions for days of the years 1 to 9999; the shrew saying any text at terminals of any width and at none; every other function the scripts define, with random arguments; and starts with the default script at any time, with and without secrets, and with the first script and any answers. Non-trivial: the year is no multiple of 4 or the month is February; the text takes several lines; or the start has secrets or answers.",
        subs: &[
            Sub { name: "calendar", quick: 8_000, thorough: 300_000, f: calendar },
            Sub { name: "shrew", quick: 2_500, thorough: 80_000, f: shrew },
            Sub { name: "words", quick: 6_000, thorough: 200_000, f: words },
            Sub { name: "start", quick: 700, thorough: 20_000, f: start },
            Sub { name: "first", quick: 150, thorough: 3_000, f: first },
        ],
        cpu_limit: None,
        assumptions: &["The clock of the system is replaced by one that stands still (sub-check `start` and the calendar of today).", "The weather comes from a program curl of PATH that answers in JSON."],
    }]
}

/// The scripts before what they do at the start.
fn statements(intro: bool) -> Vec<E> {
    let (d, i) = dunebin::verif_hooks::preludes();
    match sut::parse(if intro { i } else { d }) {
        Ok(E::Do(v)) => v,
        _ => vec![],
    }
}

fn base_env() -> Environment {
    let mut env = sut::fresh_env();
    env.define("HOME", E::String(env.get_cwd()));
    for t in ["let clear = _ ~> console@clear ()", "let pwd = _ ~> echo CWD", "let join = sep -> l -> { let sep = str sep; fn@reduce (x -> y -> x + sep + (str y)) (str l@0) (list@tail l) }"] {
        sut::run_in(&mut env, t);
    }
    env
}

thread_local! {
    static ENVS: [Result<Environment, String>; 2] = [defined(false), defined(true)];
}

/// Everything a script defines; what it does besides is left out.
fn defined(intro: bool) -> Result<Environment, String> {
    let all = statements(intro);
    if all.is_empty() {
        return Err("the script is no program".into());
    }
    let mut env = base_env();
    for e in &all {
        let keep = match e {
            E::Assign(..) => true,
            e => format!("{}", e).contains("set-weather-api-key"),
        };
        if keep {
            let (o, _) = sut::captured(|| sut::eval_in(&mut env, e));
            if !matches!(o, Out::Val(_)) {
                return Err(format!("{} gives {}", e, o.show()));
            }
        }
    }
    Ok(env)
}
fn env_of(intro: bool) -> Result<Environment, Fail> {
    match ENVS.with(|e| e[intro as usize].clone()) {
        Ok(mut env) => {
            env.set_cwd(sut::cwd_dir().to_str().unwrap());
            env.define("HOME", E::String(env.get_cwd()));
            Ok(env)
        }
        Err(m) => Err(viol(format!("the {} script cannot be run: {}", name(intro), m))),
    }
}
fn name(intro: bool) -> &'static str {
    if intro { "first" } else { "default" }
}
fn viol(m: String) -> Fail {
    Fail::Violation { sig: String::new(), msg: m }
}

/// Text without its escape sequences.
fn plain(t: &str) -> String {
    let t = t.replace("\u{1b}]2;Dune", "");
    let mut o = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\u{1b}' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('[') => while it.next().map_or(false, |c| !c.is_ascii_alphabetic()) {},
            Some(']') => while let Some(c) = it.next() {
                if c == '\u{7}' {
                    break;
                }
                if c == '\u{1b}' {
                    it.next();
                    break;
                }
            },
            _ => {}
        }
    }
    o
}

/// Columns of a text: the characters used here are one column wide, or two.
fn width(t: &str) -> usize {
    t.chars().map(|c| match c as u32 {
        0x1100..=0x115f | 0x2e80..=0xa4cf | 0xac00..=0xd7a3 | 0xf900..=0xfaff | 0xff00..=0xff60 | 0x1f300..=0x1faff => 2,
        0x300..=0x36f | 0xfe0f => 0,
        _ => 1,
    }).sum()
}

const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];

/// 0 for Sunday; counted from the first of January of the year 1, a Monday.
fn weekday(y: i64, m: i64, d: i64) -> i64 {
    let before = (y - 1) * 365 + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400;
    (before + (1..m).map(|m| month_days(y, m)).sum::<i64>() + d) % 7
}

/// Check the ten lines of a calendar.
fn is_calendar(lines: &[&str], (y, m, d): (i64, i64, i64)) -> Result<(), String> {
    if lines.len() != 10 {
        return Err(format!("it has {} lines", lines.len()));
    }
    for l in lines {
        if l.chars().count() != 30 {
            return Err(format!("the line {:?} is not 30 columns wide", l));
        }
    }
    if lines[0] != "┌──────────Calendar──────────┐" || lines[9] != format!("└{}┘", "─".repeat(28)) {
        return Err("it is not framed right".into());
    }
    let title = format!("{} {}, {}", MONTHS[m as usize - 1], d, y);
    let (left, right) = (lines[1].len() - lines[1].trim_start().len(), lines[1].len() - lines[1].trim_end().len());
    if lines[1].trim() != title || left.abs_diff(right) > 1 {
        return Err(format!("the title is {:?} instead of {:?}", lines[1], title));
    }
    let mut want = vec!["  Su  Mo  Tu  We  Th  Fr  Sa".to_string(), String::new()];
    for _ in 0..weekday(y, m, 1) {
        want.last_mut().unwrap().push_str("    ");
    }
    for i in 1..=month_days(y, m) {
        let last = want.last_mut().unwrap();
        let cell = if i == d { format!("*{}", i) } else { i.to_string() };
        last.push_str(&format!(" {:>3}", cell));
        if i < month_days(y, m) && weekday(y, m, i) == 6 {
            want.push(String::new());
        }
    }
    for i in 0..7 {
        let w = want.get(i).map_or("", |w| w);
        if lines[i + 2].trim_end() != w.trim_end() {
            return Err(format!("line {} is {:?} instead of {:?}", i + 3, lines[i + 2], w));
        }
    }
    Ok(())
}

fn day(s: &mut Src) -> (i64, i64, i64) {
    let y = match s.below(4) {
        0 => s.range(1, 9999),
        1 => s.range(1, 99) * 100,
        2 => s.range(1900, 2100),
        _ => s.range(1600, 2400),
    };
    let m = if s.chance(1, 4) { *s.pick(&[1, 2, 3, 12]) } else { s.range(1, 12) };
    let d = if s.chance(1, 3) { *s.pick(&[1, month_days(y, m), 9, 10]) } else { s.range(1, month_days(y, m)) };
    (y, m, d)
}

fn text_of(o: &Out) -> Option<String> {
    match o.val() {
        Some(E::String(t)) => Some(plain(t)),
        _ => None,
    }
}

fn calendar(s: &mut Src, cx: &mut Cx) -> R {
    let intro = s.bool();
    let (mut y, m, d) = day(s);
    let mut env = env_of(intro)?;
    cx.nontrivial(m == 2 || y % 4 != 0);
    let ask = s.below(6);
    let prog = match ask {
        0 => format!("is-leapyear {}", y),
        1 => format!("days-in-month {} {}", m, y),
        2 => format!("(days-in-month {}) {}", m, y),
        3 => format!("day-of-week {} {} {}", m, d, y),
        4 => format!("make-calendar {} {} {}", m, d, y),
        _ => {
            y = 1970 + y % 230;
            if !leap(y) && m == 2 && d == 29 {
                return discard();
            }
            s.pick(&["cal ()", "let c = cal (); c"]).to_string()
        }
    };
    cx.label(prog.split(' ').next().unwrap());
    cx.go(format!("{} script: {}  # {}-{:02}-{:02}", name(intro), prog, y, m, d))?;
    if ask == 5 {
        std::env::set_var("TZ", "UTC");
        unsafe { tzset() };
        CLOCK.store(day_number(y, m, d) * 86400 + (y * m * d * 7919) % 86400, Ordering::SeqCst);
    }
    let (out, _) = sut::captured(|| sut::run_in(&mut env, &prog));
    CLOCK.store(-1, Ordering::SeqCst);
    let want = match ask {
        0 => E::Boolean(leap(y)),
        1 | 2 => E::Integer(month_days(y, m)),
        3 => E::Integer(weekday(y, m, d)),
        _ => {
            let Some(t) = text_of(&out) else { fail!("{} gives {}", prog, out.show()) };
            if let Err(e) = is_calendar(&t.lines().collect::<Vec<_>>(), (y, m, d)) {
                fail!("{} for {}-{:02}-{:02} gives\n{}\n{}", prog, y, m, d, t, e);
            }
            return Ok(());
        }
    };
    ensure!(out.val() == Some(&want), "{} gives {} instead of {:?}", prog, out.show(), want);
    Ok(())
}

// ---------------------------------------------------------------- the shrew

/// The box with the text the shrew says, and the rest of what is printed.
fn is_shrew(out: &str, text: &str, screen: usize, turned: bool) -> Result<(), String> {
    let lines: Vec<&str> = out.split('\n').collect();
    let indent = if turned { 21 } else { 26 };
    let pad = " ".repeat(indent);
    let Some(end) = lines.iter().position(|l| l.starts_with(&format!("{}└", pad))) else {
        return Err("there is no box".into());
    };
    let mut inner = vec![];
    // A box measures in characters.
    let w = lines[0].chars().count();
    for (i, l) in lines[..=end].iter().enumerate() {
        if !l.starts_with(&pad) || l.chars().count() != w {
            return Err(format!("line {} does not fit the box", i + 1));
        }
        let l = &l[indent..];
        let (a, b) = if i == 0 { ('┌', '┐') } else if i == end { ('└', '┘') } else { (' ', ' ') };
        if !l.starts_with(a) || !l.ends_with(b) {
            return Err(format!("line {} does not fit the box", i + 1));
        }
        let l = &l[a.len_utf8()..l.len() - b.len_utf8()];
        if i > 0 && i < end {
            inner.push(l);
        } else if l.replace('─', "") != if i == 0 { "Wild Dune Shrew" } else { "" } {
            return Err("the frame is wrong".into());
        }
    }
    // Between two wide characters a line may end.
    let wide = width(text) > text.chars().count();
    let words = |t: &str| if wide { t.chars().filter(|c| !c.is_whitespace()).map(String::from).collect() } else { t.split_whitespace().map(String::from).collect::<Vec<_>>() };
    if words(&inner.join("\n")) != words(text) {
        return Err(format!("it says {:?} instead of {:?}", words(&inner.join("\n")), words(text)));
    }
    // The lines of the text stay lines.
    let mut at = inner.iter().map(|l| words(l)).peekable();
    for t in text.split('\n') {
        let mut left = words(t);
        loop {
            let Some(l) = at.next() else { return Err("lines of the text are missing".into()) };
            if l.len() > left.len() || l[..] != left[..l.len()] {
                return Err(format!("the lines of the text are mixed: {:?}", l));
            }
            left.drain(..l.len());
            if left.is_empty() {
                break;
            }
        }
    }
    let inside = w - indent - 2;
    let most = text.split('\n').map(width).max().unwrap_or(0);
    if inside > screen.max(15) || inside < 15 || (most <= screen && screen >= 15 && !text.contains('\n') && most > 15 && inner.len() == 1 && inside != most) {
        return Err(format!("the box is {} columns wide", inside));
    }
    // What comes out of the mouth, and the shrew.
    let rest: Vec<&str> = lines[end + 1..].to_vec();
    if rest.len() < 8 || rest[0] != format!("{}╱", " ".repeat(indent)) || rest[1] != format!("{}╱", " ".repeat(indent - 1)) {
        return Err(format!("below the box is {:?}", rest));
    }
    if !rest.iter().any(|l| l.contains(if turned { "p_____,_" } else { "_,____ c--." })) {
        return Err("the shrew is missing".into());
    }
    Ok(())
}

fn words_of(s: &mut Src) -> String {
    let lines = if s.chance(1, 4) { s.usize(2, 4) } else { 1 };
    let mut out: Vec<String> = vec![];
    for _ in 0..lines {
        let n = if s.chance(1, 4) { s.usize(1, 40) } else { s.usize(1, 8) };
        let mut l = vec![];
        for _ in 0..n {
            l.push(match s.below(8) {
                0 => s.pick(&["日本", "漢字漢字", "é", "😀", "naïve", "│"]).to_string(),
                1 => format!("{}", s.below(10_000)),
                _ => (0..s.usize(1, 10)).map(|_| (b'a' + s.below(26) as u8) as char).collect(),
            });
        }
        out.push(l.join(" "));
    }
    out.join("\n")
}

fn shrew(s: &mut Src, cx: &mut Cx) -> R {
    let intro = s.bool();
    let screen = if s.chance(1, 5) { 0 } else if s.bool() { *s.pick(&[20, 24, 40, 80, 100, 132]) } else { s.usize(20, 240) };
    let turned = s.bool();
    let (arg, text) = match s.below(8) {
        0 => {
            let n = s.range(-10_000, 1_000_000);
            (val::lit(&E::Integer(n)).unwrap(), n.to_string())
        }
        1 => ("hello".to_string(), "hello".to_string()),
        _ => {
            let t = words_of(s);
            (gen::quote(&t), t)
        }
    };
    let prog = format!("{} {}", if turned { "turnedshrewsay" } else { "shrewsay" }, arg);
    let mut env = env_of(intro)?;
    cx.nontrivial(width(&text) > screen / 2);
    cx.label(if screen == 0 { "no terminal" } else { "terminal" });
    cx.go(format!("{} script, {} columns: {}", name(intro), screen, prog))?;
    sut::TERMINAL.store(screen, Ordering::SeqCst);
    let (out, io) = sut::captured(|| sut::run_in(&mut env, &prog));
    sut::TERMINAL.store(0, Ordering::SeqCst);
    let io = plain(&String::from_utf8_lossy(&io));
    ensure!(matches!(out, Out::Val(_)), "{} at {} columns gives {}", prog, screen, out.show());
    if let Err(e) = is_shrew(&io, &text, if screen == 0 { 1000 } else { screen }, turned) {
        fail!("{} at {} columns prints\n{}\n{}", prog, screen, io, e);
    }
    Ok(())
}

// ---------------------------------------------------------------- the other functions

fn words(s: &mut Src, cx: &mut Cx) -> R {
    let kind = s.below(9);
    // `report` and `help` of the first script; the others are of the default script.
    let intro = kind >= 7;
    sut::clean_cwd();
    let mut env = env_of(intro)?;
    let home = env.get_cwd();
    let a = s.range(-99, 99);
    let b = s.range(-99, 99);
    let n = gen::name(s);
    let lit = |v: &E| val::lit(v).unwrap();
    let (prog, want): (String, Option<E>) = match kind {
        0 => {
            let l: Vec<E> = val::ints(s, 6);
            let i = s.range(0, 7);
            if s.bool() {
                (format!("get {} {}", i, lit(&E::List(l.clone()))), Some(l.get(i as usize).cloned().unwrap_or(E::None)))
            } else {
                (format!("(get {}) {{{} = {}, other = 5}}", n, n, a), Some(E::Integer(if n == "other" { 5 } else { a })))
            }
        }
        1 => {
            let (x, y) = (val::value(s, 1), val::value(s, 1));
            let (Some(lx), Some(ly)) = (val::lit(&x), val::lit(&y)) else { return discard() };
            // A table that is printed is laid out by its own rules (C24).
            if matches!(x, E::List(_) | E::Map(_)) || matches!(y, E::List(_) | E::Map(_)) {
                return discard();
            }
            let st = |e: &E| match e {
                E::String(t) => t.clone(),
                e => format!("{}", e),
            };
            (format!("concat {} {}", lx, ly), Some(E::String(st(&y) + &st(&x))))
        }
        2 => {
            let t = gen::text(s, 20);
            std::fs::write("f", &t).unwrap();
            (s.pick(&["open \"f\"", "open f"]).to_string(), Some(E::String(t)))
        }
        3 => {
            let d = s.pick(&["a", "a/b", "ü x"]).to_string();
            std::fs::create_dir_all(&d).unwrap();
            std::fs::create_dir_all("elsewhere").unwrap();
            let base = std::fs::canonicalize(&home).unwrap();
            let ask = s.pick(&[d.clone(), format!("{}/.", d), "missing".to_string(), format!("{}/../a", d)]).clone();
            if s.bool() {
                env.set_cwd(base.join("elsewhere").to_str().unwrap());
            }
            let want = std::fs::canonicalize(base.join(&ask)).ok().map(|p| E::String(p.to_str().unwrap().into()));
            (format!("~ {}", gen::quote(&ask)), want)
        }
        4 => {
            // The files whose name has the text in it once.
            let mut names: BTreeMap<String, ()> = BTreeMap::new();
            for _ in 0..s.usize(0, 8) {
                let f = format!("{}{}", s.pick(&["a", "ab", "b", "aab", "x", "abab"]), s.pick(&[".txt", ".md", "", ".a", ".txt.txt"]));
                std::fs::write(&f, "").unwrap();
                names.insert(f, ());
            }
            let g = s.pick(&[".txt", "a", "ab", "x", ".md", "zz"]).to_string();
            let prog = format!("$ {}", gen::quote(&g));
            let prog = if s.bool() { prog } else { format!("let g = {}; $ g", gen::quote(&g)) };
            let all = sut::run_in(&mut sut::fresh_env(), "fs@ls \".\"");
            let Some(E::List(all)) = all.val() else { fail!("fs@ls gives {}", all.show()) };
            ensure!(all.len() == names.len(), "fs@ls gives {:?} for {:?}", all, names);
            let mut want: Vec<E> = all.iter().filter(|e| matches!(e, E::String(t) if t.matches(g.as_str()).count() == 1)).cloned().collect();
            want.sort_by_key(|e| format!("{}", e));
            (prog, Some(E::List(want)))
        }
        5 | 6 => {
            // A file that is included defines its variables here; one that is used does not.
            let seen = kind == 5;
            let how = if seen { "include" } else { "use" };
            std::fs::write("f.dune", format!("let {} = {};\nlet k = x -> x * {};\n[{}, k 2]", n, a, b, n)).unwrap();
            let first = match s.below(3) {
                0 => String::new(),
                1 => "let k = 1;".to_string(),
                _ => format!("let {} = 7;", n),
            };
            let after = if first.contains("7") { E::Integer(7) } else { E::String("nothing".into()) };
            let prog = format!("{} let r = {} \"f.dune\"; [r, err@try {{ {} + 0 }} (e -> \"nothing\")]", first, how, n);
            let r = E::List(vec![E::Integer(a), E::Integer(2 * b)]);
            (prog, Some(E::List(vec![r, if seen { E::Integer(a) } else { after }])))
        }
        7 => {
            // The message about donations comes with the fifty-first report, once.
            let k = *s.pick(&[1, 5, 49, 50, 51, 52, 60]);
            let v = val::value(s, 0);
            let Some(l) = val::lit(&v) else { return discard() };
            let prog = format!("for i in 1 to {} {{ report {} }}", k + 1, l);
            cx.nontrivial(k > 50);
            cx.go(format!("first script: {}", prog))?;
            let one = sut::captured(|| sut::run_in(&mut sut::fresh_env(), &format!("report {}", l)));
            ensure!(matches!(one.0, Out::Val(_)), "report {} gives {}", l, one.0.show());
            let mut all = vec![];
            for i in 1..=k {
                let (o, io) = sut::captured(|| sut::run_in(&mut env, &format!("report {}", l)));
                ensure!(matches!(o, Out::Val(_)), "report {} gives {}", l, o.show());
                ensure!(io.starts_with(&one.1), "report {} prints {:?} instead of {:?}", l, String::from_utf8_lossy(&io), String::from_utf8_lossy(&one.1));
                let more = plain(&String::from_utf8_lossy(&io[one.1.len()..]));
                ensure!(more.contains("consider starring") == (i == 51), "report number {} prints {:?}", i, more);
                ensure!(i == 51 || more.is_empty(), "report number {} prints {:?} too", i, more);
                all.push(o);
            }
            return Ok(());
        }
        _ => {
            let topic = s.pick(&["me", "builtin", "lib", "syntax", "types", "scripting", "prelude", "echo", "math@abs", "fs", "5"]).to_string();
            let prog = if topic == "me" && s.bool() { "help CWD".to_string() } else { format!("help {}", topic) };
            cx.nontrivial(true);
            cx.go(format!("first script: {}", prog))?;
            let old = sut::captured(|| sut::run_in(&mut base_env(), &format!("help {}", topic)));
            let (o, io) = sut::captured(|| sut::run_in(&mut env, &prog));
            ensure!(matches!(o, Out::Val(_)) == matches!(old.0, Out::Val(_)), "{} gives {}, and without the script {}", prog, o.show(), old.0.show());
            let (old, new) = (plain(&String::from_utf8_lossy(&old.1)), plain(&String::from_utf8_lossy(&io)));
            ensure!(new.starts_with(&old), "{} prints {:?} instead of {:?}", prog, new, old);
            ensure!((new.len() > old.len()) == (topic == "me") && new.contains("consider starring") == (topic == "me"), "{} prints {:?}", prog, new);
            return Ok(());
        }
    };
    cx.nontrivial(true);
    cx.label(prog.split(' ').next().unwrap());
    cx.go(format!("default script: {}", prog))?;
    let (mut out, _) = sut::captured(|| sut::run_in(&mut env, &prog));
    if let (4, Out::Val(E::List(l))) = (kind, &mut out) {
        let mut v = l.to_vec();
        v.sort_by_key(|e| format!("{}", e));
        *l = v.into();
    }
    match (&out, &want) {
        (Out::Val(v), Some(w)) if val::same(v, w) => Ok(()),
        (Out::Err(_), None) => Ok(()),
        (o, w) => fail!("{} gives {} instead of {:?}", prog, o.show(), w),
    }
}

// ---------------------------------------------------------------- starting

fn is_banner(lines: &[&str], clock: (i64, i64, i64, i64, i64)) -> Result<usize, String> {
    let (y, m, d, h, mi) = clock;
    let Some(top) = lines.iter().position(|l| l.starts_with("┌─────────────────Welcome to ...")) else { return Err("there is no banner".into()) };
    let Some(end) = lines[top..].iter().position(|l| l.starts_with("└──────")).map(|e| e + top) else { return Err("the banner does not end".into()) };
    let emoji = match h {
        0..=6 => "🌃",
        7..=10 => "🌅",
        11..=18 => "🌤️ ",
        _ => "🌃",
    };
    let want = format!("        The time is {}:{:02} {} {} on {:02}/{:02}/{:02}", if h % 12 == 0 { 12 } else { h % 12 }, mi, if h < 12 { "AM" } else { "PM" }, emoji, m, d, y % 100);
    if lines[end - 1] != want {
        return Err(format!("the banner says {:?} instead of {:?}", lines[end - 1], want));
    }
    if !lines[top..end].iter().any(|l| l.contains("██████╗")) {
        return Err("the banner has no logo".into());
    }
    Ok(end + 1)
}

fn start(s: &mut Src, cx: &mut Cx) -> R {
    let (y, m, d) = day(s);
    let y = 1970 + y % 230;
    if !leap(y) && m == 2 && d == 29 {
        return discard();
    }
    let (h, mi) = (if s.bool() { *s.pick(&[0, 6, 7, 10, 11, 12, 18, 19, 23]) } else { s.range(0, 23) }, s.range(0, 59));
    let screen = *s.pick(&[0usize, 80, 40, 120, 200]);
    // What the secrets say: nothing, something else, or the key and the city.
    let secrets = s.below(4);
    let city = s.pick(&["Paris", "New York", "Knoxville", "東京"]).to_string();
    let key = s.pick(&["K1", "abc"]).to_string();
    let (temp, hi, lo) = (s.range(-40, 100) as f64 / 2.0, s.range(-40, 50), s.range(-80, 100) as f64 / 4.0);
    let desc = s.pick(&["few clouds", "clear sky", "Snow", "unheard of"]).to_string();
    let text = match secrets {
        0 | 1 => None,
        2 => Some("let token = 5;\n".to_string()),
        _ => Some(format!("# keys\nset-weather-api-key {} {};\n", gen::quote(&key), gen::quote(&city))),
    };
    cx.nontrivial(text.is_some());
    cx.label(["no secrets", "no secrets", "a token", "weather"][secrets as usize]);
    cx.go(format!("default script at {}-{:02}-{:02} {}:{:02}, {} columns, secrets {:?}", y, m, d, h, mi, screen, text))?;

    sut::clean_cwd();
    let base = sut::cwd_dir().canonicalize().unwrap();
    std::fs::create_dir_all("bin").unwrap();
    std::fs::write("bin/curl", format!("#!/bin/sh\nfor a; do printf '%s\\n' \"$a\" >> {}; done\necho '{{\"weather\":[{{\"main\":\"Clouds\",\"description\":\"{}\"}}],\"main\":{{\"temp\":{:?},\"temp_max\":{},\"temp_min\":{:?},\"humidity\":81,\"pressure\":1013}},\"name\":\"Town\"}}'\n", base.join("asked").to_str().unwrap(), desc, temp, hi, lo)).unwrap();
    std::fs::set_permissions("bin/curl", std::fs::Permissions::from_mode(0o755)).unwrap();
    if let Some(t) = &text {
        std::fs::write(".dune-secrets", t).unwrap();
    }
    let mut env = base_env();
    let home = base.to_str().unwrap().to_string();
    env.define("HOME", E::String(home.clone()));
    let bin = base.join("bin").to_str().unwrap().to_string();
    env.define("PATH", E::String(bin.clone()));
    std::env::set_var("PATH", &bin);
    std::env::set_var("TZ", "UTC");
    unsafe { tzset() };
    CLOCK.store(day_number(y, m, d) * 86400 + h * 3600 + mi * 60, Ordering::SeqCst);
    sut::TERMINAL.store(screen, Ordering::SeqCst);
    let script = dunebin::verif_hooks::preludes().0;
    let (out, io) = sut::captured(|| sut::run_in(&mut env, script));
    sut::TERMINAL.store(0, Ordering::SeqCst);
    CLOCK.store(-1, Ordering::SeqCst);
    let asked = std::fs::read_to_string("asked").unwrap_or_default();
    let now = sut::run_in(&mut env, "[token, str CITY]");
    sut::clean_cwd();
    let raw = String::from_utf8_lossy(&io).into_owned();
    let io = plain(&raw);
    let show = |m: String| viol(format!("the default script prints\n{}\n{}", io, m));
    ensure!(matches!(out, Out::Val(_)), "the default script ends with {} after printing\n{}", out.show(), io);
    ensure!(raw.contains("\u{1b}]2;Dune") , "the title of the terminal is not set: {:?}", &raw[..raw.len().min(60)]);
    let lines: Vec<&str> = io.split('\n').collect();
    let at = is_banner(&lines, (y, m, d, h, mi)).map_err(show)?;
    // The calendar, and a cat beside it.
    let cal: Vec<String> = lines[at..].iter().take(10).map(|l| l.chars().take(30).collect()).collect();
    is_calendar(&cal.iter().map(|l| l.as_str()).collect::<Vec<_>>(), (y, m, d)).map_err(show)?;
    ensure!(lines[at].contains("Cat") && lines[at..at + 10].iter().all(|l| width(l) == 50), "the default script prints\n{}\nthe calendar and the cat are not side by side", io);
    let rest = lines[at + 10..].join("\n");
    let weather = secrets == 3;
    let has = |t: &str| rest.contains(t);
    ensure!(has("Please set your `openweathermap.org`") == !weather, "the default script prints\n{}\n(the key is {})", io, if weather { "set" } else { "not set" });
    ensure!(has("Wild Dune Shrew") == text.is_none() , "the default script prints\n{}\n(the secrets are {:?})", io, text);
    if text.is_none() {
        let flat: String = rest.chars().filter(|c| !c.is_whitespace()).collect();
        ensure!(flat.contains("tostore") || screen < 60, "the default script prints\n{}\nthe message about secrets is not whole", io);
    }
    let want_token = if secrets == 2 { E::Integer(5) } else { E::Symbol("token".into()) };
    let want_city = if weather { city.clone() } else { "Knoxville".into() };
    ensure!(now.val() == Some(&E::List(vec![want_token, E::String(want_city)])), "afterwards [token, CITY] is {}", now.show());
    if weather {
        let url = format!("http://api.openweathermap.org/data/2.5/weather?q={}&units=imperial&appid={}", city, key);
        ensure!(asked == format!("--silent\n{}\n", url), "curl is called with {:?} instead of {:?}", asked, url);
        for t in [format!("Temp now: {}° F", temp), format!("high: {}° F", hi), format!("low: {}° F", lo), "Humidity: 81%".to_string(), "Pressure: 1013 hPa".to_string(), "Weather in Town".to_string()] {
            ensure!(has(&t), "the default script prints\n{}\nwithout {:?}", io, t);
        }
        let icon = match desc.as_str() {
            "few clouds" => "/(___(__)",
            "clear sky" => "― (   ) ―",
            "Snow" => "*  *  *",
            _ => "`-’",
        };
        ensure!(has(icon), "the default script prints\n{}\nwithout the picture for {:?}", io, desc);
    } else {
        ensure!(asked.is_empty(), "curl is called with {:?}", asked);
    }
    Ok(())
}

fn first(s: &mut Src, cx: &mut Cx) -> R {
    let write = s.pick(&["y", "n", "", "Y", "no", " y ", "yes"]).to_string();
    let new = s.pick(&["y", "n", "", "yes", "no"]).to_string();
    let waits = if new == "n" { 1 } else { 7 };
    let mut typed = vec![write.clone(), new.clone()];
    for _ in 0..waits {
        typed.push(s.pick(&["", "", "x", "quit"]).to_string());
    }
    let k = s.range(0, 1_000_000);
    typed.push(format!("echo ({} + 1)", k));
    let leave = s.bool();
    if leave {
        typed.push("exit 0".into());
    }
    cx.nontrivial(true);
    cx.label(if waits == 1 { "knows the way" } else { "the tour" });
    cx.go(format!("first start, typed {:?}", typed))?;
    sut::clean_cwd();
    let home = sut::cwd_dir();
    let mut c = Command::new(sut::bin_dir().join("dunesh"));
    c.env_clear().env("HOME", &home).env("PATH", "/nowhere").current_dir(&home).process_group(0);
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let input = typed.join("\n") + "\n";
    let (r, stuck) = sut::watched(30, || {
        let mut child = c.spawn().unwrap();
        let mut stdin = child.stdin.take().unwrap();
        let _ = stdin.write_all(input.as_bytes());
        drop(stdin);
        child.wait_with_output().unwrap()
    });
    let written = std::fs::read(".dune-prelude").ok();
    sut::clean_cwd();
    ensure!(!stuck, "the shell never ends");
    let out = plain(&String::from_utf8_lossy(&r.stdout));
    let err = String::from_utf8_lossy(&r.stderr).into_owned();
    ensure!(r.status.code() == Some(0) && err.is_empty(), "typed {:?}: the shell ends with {:?}, the errors are {:?}, it prints\n{}", typed, r.status, err, out);
    let wanted = write.trim().to_lowercase() == "y";
    let default = dunebin::verif_hooks::preludes().0;
    ensure!(written.is_some() == wanted && written.iter().all(|w| w == default.as_bytes()), "typed {:?}: the file of the script is {:?}", typed, written.map(|w| w.len()));
    let banners = out.matches("Welcome to ...").count();
    let pages = out.matches("Wild Dune Shrew").count();
    let (want_banners, want_pages) = if waits == 1 { (3, 2) } else { (9, 8) };
    ensure!(banners == want_banners && pages == want_pages, "typed {:?}: {} banners instead of {}, {} shrews instead of {}:\n{}", typed, banners, want_banners, pages, want_pages, out);
    let Some(last) = out.rfind("Calendar") else { fail!("typed {:?}: no calendar is shown:\n{}", typed, out) };
    ensure!(out[last..].trim_end().ends_with(&format!("\n{}", k + 1)), "typed {:?}: the line after the tour is not run; it ends with\n{}", typed, &out[last..]);
    Ok(())
}
