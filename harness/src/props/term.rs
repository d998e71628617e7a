//! The shell at a terminal: a pseudo terminal, a terminal emulator, and somebody who types.

use crate::engine::*;
use crate::props::lang::Scope;
use crate::props::modes::{complain, program, run, st, statement, Said, St};
use crate::sut::{self, Out};
use crate::{ensure, fail, gen};
use dune::{Environment, Expression as E};
use std::collections::BTreeMap;
use std::os::unix::io::{AsRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C42",
        rule: "Sessions at a pseudo terminal of random width: up to 12 statements typed with every editing key, corrections, pasted parts, recalled from the history, completed with Tab, abandoned with Ctrl-C, or interrupted while they run, with prompts of every kind; and scripts that read keys, lines, passwords and input. Non-trivial: a line is edited, or something is read.",
        subs: &[
            Sub { name: "typing", quick: 1_500, thorough: 60_000, f: c42_typing },
            Sub { name: "reading", quick: 1_500, thorough: 30_000, f: c42_reading },
        ],
        cpu_limit: None,
        assumptions: &[
            "The terminal understands the usual control sequences and answers the question for the cursor's position at once.",
            "A session that goes wrong must go wrong three times in a row, so that a busy machine cannot be the reason.",
            "Characters are letters, digits, signs and ideographs; combining characters and emoji are pasted by nobody here.",
        ],
    }]
}

// ---------------------------------------------------------------- a terminal

fn char_width(c: char) -> usize {
    if ('\u{1100}'..='\u{115f}').contains(&c) || ('\u{2e80}'..='\u{a4cf}').contains(&c) || ('\u{ac00}'..='\u{d7a3}').contains(&c) || ('\u{f900}'..='\u{faff}').contains(&c) || ('\u{ff00}'..='\u{ff60}').contains(&c) {
        2
    } else {
        1
    }
}

/// Where text goes that is written from a place on: cells, and the place after it.
fn layout(from: (usize, usize), t: &str, width: usize, cells: &mut BTreeMap<(usize, usize), char>) -> (usize, usize) {
    let (mut row, mut col) = from;
    for c in t.chars() {
        if c == '\n' {
            row += 1;
            col = 0;
            continue;
        }
        let w = char_width(c);
        if col + w > width {
            row += 1;
            col = 0;
        }
        cells.insert((row, col), c);
        col += w;
    }
    if col == width {
        row += 1;
        col = 0;
    }
    (row, col)
}

#[derive(Default)]
struct Emu {
    width: usize,
    cells: BTreeMap<(usize, usize), char>,
    row: usize,
    col: usize,
    /// The part of a control sequence or character that has come so far.
    part: Vec<u8>,
    /// The line editor is at work: between ?2004h and ?2004l.
    editing: bool,
    /// What was written while it was not, one text for each time.
    said: Vec<Vec<u8>>,
    /// How often the cursor's position was asked for, and where it was the last time.
    asked: usize,
    asked_at: (usize, usize),
    answer: Vec<u8>,
    odd: Option<String>,
}
impl Emu {
    fn new(width: usize) -> Self {
        Emu { width, said: vec![vec![]], ..Default::default() }
    }
    fn feed(&mut self, b: &[u8]) {
        for x in b {
            if !self.editing {
                self.said.last_mut().unwrap().push(*x);
            }
            self.part.push(*x);
            self.step();
        }
    }
    fn step(&mut self) {
        let p = self.part.clone();
        if p[0] == 0x1b {
            if p.len() < 3 && (p.len() == 1 || p[1] == b'[' || p[1] == b']') {
                return;
            }
            if p[1] == b']' {
                if p.ends_with(b"\x07") || p.ends_with(b"\x1b\\") {
                    self.part.clear();
                }
                return;
            }
            let f = p[p.len() - 1];
            if p[1] == b'[' && !(0x40..=0x7e).contains(&f) {
                return;
            }
            self.part.clear();
            if p[1] != b'[' {
                return;
            }
            let t = String::from_utf8_lossy(&p[2..p.len() - 1]).into_owned();
            let n: usize = t.parse().unwrap_or(1).max(1);
            match (f, t.as_str()) {
                (b'm', _) => {}
                (b'h', "?2004") => {
                    self.editing = true;
                    let s = self.said.last_mut().unwrap();
                    s.truncate(s.len() - p.len());
                }
                (b'l', "?2004") => {
                    self.editing = false;
                    self.said.push(vec![]);
                }
                (b'h' | b'l', _) => {}
                (b'n', "6") => {
                    self.asked += 1;
                    self.asked_at = (self.row, self.col);
                    self.answer.extend(format!("\x1b[{};{}R", self.row.min(49) + 1, self.col.min(self.width - 1) + 1).bytes());
                }
                (b'A', _) => self.row = self.row.saturating_sub(n),
                (b'B', _) => self.row += n,
                (b'C', _) => self.col = (self.col + n).min(self.width - 1),
                (b'D', _) => self.col = self.col.min(self.width - 1).saturating_sub(n),
                (b'H', "") => (self.row, self.col) = (0, 0),
                (b'K', "" | "0") => {
                    let (r, c) = (self.row, self.col);
                    self.cells.retain(|k, _| k.0 != r || k.1 < c);
                }
                (b'J', "" | "0") => {
                    let at = (self.row, self.col);
                    self.cells.retain(|k, _| *k < at);
                }
                (b'J', "2") => self.cells.clear(),
                _ => self.odd = Some(String::from_utf8_lossy(&p).into_owned()),
            }
            return;
        }
        match p[0] {
            b'\r' => self.col = 0,
            b'\n' => self.row += 1,
            8 => self.col = self.col.min(self.width - 1).saturating_sub(1),
            0..=31 | 127 => {}
            _ => match std::str::from_utf8(&p) {
                Ok(t) => {
                    let c = t.chars().next().unwrap();
                    let w = char_width(c);
                    // The last column is only left when something follows.
                    if self.col + w > self.width {
                        self.row += 1;
                        self.col = 0;
                    }
                    self.cells.insert((self.row, self.col), c);
                    if w == 2 {
                        self.cells.remove(&(self.row, self.col + 1));
                    }
                    self.col += w;
                }
                Err(_) if p.len() < 4 => return,
                Err(_) => {}
            },
        }
        self.part.clear();
    }
}

struct Pty {
    master: OwnedFd,
    child: Child,
    emu: Emu,
    closed: bool,
    /// All that was written.
    all: Vec<u8>,
}
impl Drop for Pty {
    fn drop(&mut self) {
        unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL) };
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Pty {
    fn start(args: &[String], width: usize, height: usize) -> Pty {
        unsafe {
            let (master, slave) = sut::open_pty(width, height);
            let mut c = Command::new(sut::bin_dir().join("dunesh"));
            c.env_clear().env("HOME", sut::cwd_dir()).env("PATH", sut::bin_dir()).env("TERM", "xterm").current_dir(sut::cwd_dir());
            c.args(args).stdin(slave.try_clone().unwrap()).stdout(slave.try_clone().unwrap()).stderr(slave.try_clone().unwrap());
            c.pre_exec(|| {
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                Ok(())
            });
            let child = c.spawn().unwrap();
            Pty { master, child, emu: Emu::new(width), closed: false, all: vec![] }
        }
    }
    /// Take what has come within the time; false when nothing has.
    fn pump(&mut self, ms: i32) -> bool {
        if self.closed {
            return false;
        }
        unsafe {
            let mut p = libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, ms) <= 0 {
                return false;
            }
            let mut buf = [0u8; 8192];
            let n = libc::read(self.master.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                self.closed = true;
                return false;
            }
            self.all.extend_from_slice(&buf[..n as usize]);
            self.emu.feed(&buf[..n as usize]);
            let a = std::mem::take(&mut self.emu.answer);
            if !a.is_empty() {
                self.send(&a);
            }
            true
        }
    }
    fn send(&mut self, b: &[u8]) {
        let mut b = b;
        while !b.is_empty() {
            let n = unsafe { libc::write(self.master.as_raw_fd(), b.as_ptr() as *const _, b.len()) };
            if n <= 0 {
                self.closed = true;
                return;
            }
            b = &b[n as usize..];
        }
    }
    /// Wait until it is so.
    fn until(&mut self, secs: u64, mut f: impl FnMut(&mut Pty) -> bool) -> bool {
        let end = Instant::now() + Duration::from_secs(secs);
        loop {
            if f(self) {
                return true;
            }
            if self.closed || Instant::now() > end {
                return f(self);
            }
            self.pump(20);
        }
    }
    fn echoes(&self) -> bool {
        unsafe {
            let mut t: libc::termios = std::mem::zeroed();
            libc::tcgetattr(self.master.as_raw_fd(), &mut t);
            t.c_lflag & libc::ECHO != 0
        }
    }
    /// The status with which it ends by itself.
    fn ended(&mut self) -> Option<std::process::ExitStatus> {
        let mut r = None;
        self.until(20, |p| {
            r = p.child.try_wait().unwrap();
            r.is_some()
        });
        // The terminal may be closed before the process is gone.
        let end = Instant::now() + Duration::from_secs(20);
        while r.is_none() && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(2));
            r = self.child.try_wait().unwrap();
        }
        while self.pump(0) {}
        r
    }
}

fn l(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// A failure must come three times in a row.
fn thrice(mut f: impl FnMut() -> R) -> R {
    let mut r = f();
    for _ in 0..2 {
        if !matches!(r, Err(Fail::Violation { .. })) {
            break;
        }
        std::thread::sleep(Duration::from_millis(300));
        r = f();
    }
    r
}

fn setup() {
    sut::clean_cwd();
    std::fs::create_dir_all("sub").unwrap();
    std::fs::write("f1", "first\n").unwrap();
    std::fs::write("alpha.txt", "the first").unwrap();
    std::fs::write("sub/alps.md", "the other").unwrap();
}
fn session_env() -> Environment {
    let mut env = sut::programs_env();
    env.define("HOME", E::String(sut::cwd_dir().to_str().unwrap().to_string()));
    sut::run_in(&mut env, "let pwd = _ ~> echo CWD");
    env
}

// ---------------------------------------------------------------- typing

/// What is done at the keyboard; the line after it must be as given, with the cursor there.
#[derive(Clone, Debug)]
struct Act {
    keys: Vec<u8>,
    line: String,
    pos: usize,
    look: bool,
}

#[derive(Clone, Debug)]
enum End {
    Enter,
    CtrlC,
    /// Interrupt each program that holds.
    Hold,
}

#[derive(Clone, Debug)]
struct Typed {
    acts: Vec<Act>,
    end: End,
    line: String,
}

struct Hand<'a> {
    acts: Vec<Act>,
    line: Vec<char>,
    pos: usize,
    s: &'a mut Src,
}
impl Hand<'_> {
    fn act(&mut self, keys: &[u8]) {
        let look = self.s.chance(1, 5);
        self.acts.push(Act { keys: keys.to_vec(), line: self.line.iter().collect(), pos: self.pos, look });
    }
    fn type_in(&mut self, t: &[char]) {
        for c in t {
            self.line.insert(self.pos, *c);
            self.pos += 1;
            let mut b = [0; 4];
            let k = c.encode_utf8(&mut b).as_bytes().to_vec();
            self.act(&k);
        }
    }
    fn paste(&mut self, t: &[char]) {
        let mut k = b"\x1b[200~".to_vec();
        for c in t {
            self.line.insert(self.pos, *c);
            self.pos += 1;
            let mut b = [0; 4];
            k.extend(if *c == '\n' { &b"\r"[..] } else { c.encode_utf8(&mut b).as_bytes() });
        }
        k.extend(b"\x1b[201~");
        self.act(&k);
    }
    fn backspace(&mut self) {
        self.pos -= 1;
        self.line.remove(self.pos);
        let k: &[u8] = if self.s.chance(1, 4) { b"\x08" } else { b"\x7f" };
        self.act(k);
    }
    fn left(&mut self) {
        self.pos -= 1;
        let k: &[u8] = if self.s.chance(1, 4) { b"\x02" } else { b"\x1b[D" };
        self.act(k);
    }
    fn right(&mut self) {
        self.pos += 1;
        let k: &[u8] = if self.s.chance(1, 4) { b"\x06" } else { b"\x1b[C" };
        self.act(k);
    }
    fn delete(&mut self) {
        self.line.remove(self.pos);
        let k: &[u8] = if self.s.chance(1, 4) { b"\x04" } else { b"\x1b[3~" };
        self.act(k);
    }
    fn home(&mut self) {
        self.pos = 0;
        let k: &[u8] = if self.s.bool() { b"\x01" } else { b"\x1b[H" };
        self.act(k);
    }
    fn end(&mut self) {
        if self.pos < self.line.len() {
            self.pos = self.line.len();
            let k: &[u8] = if self.s.bool() { b"\x05" } else { b"\x1b[F" };
            self.act(k);
        }
    }
    fn kill_rest(&mut self) {
        self.line.truncate(self.pos);
        self.act(b"\x0b");
    }
    fn kill_start(&mut self) {
        self.line.drain(..self.pos);
        self.pos = 0;
        self.act(b"\x15");
    }
    fn junk(&mut self) -> Vec<char> {
        (0..1 + self.s.below(3)).map(|_| *self.s.pick(&['z', '"', ' ', '(', '5', '日', ';', '}'])).collect()
    }
    /// Type a line in some way.
    fn write(&mut self, t: &str, recalled: &[String]) {
        let t: Vec<char> = t.chars().collect();
        if t.contains(&'\n') {
            self.paste(&t);
            return;
        }
        let mut i = 0;
        // Sometimes the last part comes first.
        let cut = if self.s.chance(1, 8) { self.s.usize(0, t.len()) } else { t.len() };
        let tail: Vec<char> = t[cut..].to_vec();
        if !tail.is_empty() {
            self.type_in(&tail);
            self.home();
        }
        while i < cut {
            match self.s.weighted(&[30, 2, 2, 2, 2, 1, 1, 1, 1]) {
                0 => {
                    let n = self.s.usize(1, 12).min(cut - i);
                    self.type_in(&t[i..i + n]);
                    i += n;
                }
                1 => {
                    let j = self.junk();
                    self.type_in(&j);
                    for _ in 0..j.len() {
                        self.backspace();
                    }
                }
                2 => {
                    let back = self.s.usize(0, 4).min(i);
                    for _ in 0..back {
                        self.left();
                    }
                    let j = self.junk();
                    self.type_in(&j);
                    for _ in 0..j.len() {
                        self.backspace();
                    }
                    for _ in 0..back {
                        self.right();
                    }
                }
                3 => {
                    let back = self.s.usize(0, 4).min(i);
                    for _ in 0..back {
                        self.left();
                    }
                    for _ in 0..back {
                        self.delete();
                    }
                    i -= back;
                }
                4 => {
                    let n = self.s.usize(1, 12).min(cut - i);
                    self.paste(&t[i..i + n]);
                    i += n;
                }
                5 if tail.is_empty() => {
                    let back = self.s.usize(0, 6).min(i);
                    for _ in 0..back {
                        self.left();
                    }
                    self.kill_rest();
                    i -= back;
                }
                6 => {
                    self.kill_start();
                    i = 0;
                }
                7 if !recalled.is_empty() && !self.line.is_empty() && tail.is_empty() => {
                    // Up, and down again.
                    let k = self.s.usize(1, recalled.len());
                    let was = (self.line.clone(), self.pos);
                    for n in 0..k {
                        self.line = recalled[recalled.len() - 1 - n].chars().collect();
                        self.pos = self.line.len();
                        self.act(b"\x1b[A");
                    }
                    for n in (0..k).rev() {
                        self.line = if n == 0 { was.0.clone() } else { recalled[recalled.len() - n].chars().collect() };
                        self.pos = self.line.len();
                        self.act(b"\x1b[B");
                    }
                    while self.pos > was.1 {
                        self.left();
                    }
                }
                _ => {
                    // There and back.
                    self.home();
                    if !self.line.is_empty() {
                        self.end();
                    }
                    for _ in 0..tail.len() {
                        self.left();
                    }
                }
            }
        }
        if self.s.chance(1, 3) {
            self.end();
        }
    }
}

fn typable(t: &str) -> bool {
    t.chars().all(|c| (' '..='~').contains(&c) || c == '\n' || ('à'..='ÿ').contains(&c) || ('\u{4e00}'..='\u{9fff}').contains(&c) || ('а'..='я').contains(&c))
}

/// The prompt of the shell, as a definition and as what is seen.
const PROMPTS: &[(&str, &str)] = &[
    ("", "(dune) {cwd}$ "),
    ("", "(dune) {cwd}$ "),
    ("let prompt = cwd -> \"[\" + cwd + \"] \"", "[{cwd}] "),
    ("let prompt = cwd -> fmt@bold (fmt@red \"> \")", "> "),
    ("let prompt = cwd -> (fmt@dark@green \"λ\") + (fmt@underline \" d \") + (fmt@blue (fmt@faint \"$ \"))", "λ d $ "),
    ("let prompt = cwd -> (fmt@href \"file:///m\" cwd) + (fmt@bold \"$ \")", "{cwd}$ "),
    ("let prompt = cwd -> 1 // 0", "{cwd}$ "),
    ("unbind prompt", "{cwd}$ "),
    ("let prompt = cwd -> 42", "42"),
    ("let prompt = cwd -> \"\"", ""),
    ("let prompt = cwd ~> \"(\" + CWD + \")\"", "({cwd})"),
    ("let prompt = cwd -> \"two\nlines \" + (str (len cwd))", "two\nlines {len}"),
    ("let prompt = cwd -> \"日本\" * 20", "日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本"),
];
const INCOMPLETE: &[(&str, &str)] = &[
    ("", "{pad}> "),
    ("", "{pad}> "),
    ("let incomplete_prompt = cwd -> fmt@red \"... \"", "... "),
    ("let incomplete_prompt = 5", "{cwd}$ "),
];

fn c42_typing(s: &mut Src, cx: &mut Cx) -> R {
    let width = *s.pick(&[80usize, 132, 40, 24, 200]);
    let height = *s.pick(&[24usize, 50, 10]);
    let prompt = *s.pick(PROMPTS);
    let incomplete = *s.pick(INCOMPLETE);
    let mut sc = Scope { vars: BTreeMap::new(), in_lambda: false };
    let n = s.usize(1, 12);
    // The history as far as it is known.
    let mut hist: Vec<String> = vec![];
    let mut lines: Vec<String> = vec![];
    let mut session: Vec<Typed> = vec![];
    let mut edits = 0;
    let mut heres: BTreeMap<String, String> = BTreeMap::new();
    let mut broken = false;
    for i in 0..n {
        let single = hist.iter().rev().take_while(|h| !h.contains('\n')).count();
        let kind = s.weighted(&[12, 2, if hist.is_empty() || broken { 0 } else { 3 }, 2, 1, 2]);
        let mut typed: Vec<Typed> = vec![];
        let recalled: Vec<String> = if broken { vec![] } else { hist[hist.len() - single..].to_vec() };
        match kind {
            0 | 1 => {
                let mut x: St = statement(s, &mut sc, s.size > 40);
                if x.shell.is_empty() || !typable(&x.shell) || !typable(&x.here) || x.shell.starts_with(' ') {
                    x = st(format!("println {}", i));
                }
                heres.insert(x.shell.clone(), x.here.clone());
                // In one go or line by line.
                let parts: Vec<String> = if kind == 1 { vec![x.shell.clone()] } else { x.shell.split('\n').map(String::from).collect() };
                for (n, p) in parts.into_iter().enumerate() {
                    let mut h = Hand { acts: vec![], line: vec![], pos: 0, s };
                    h.write(&p, if n == 0 { &recalled } else { &[] });
                    edits += 1;
                    typed.push(Typed { acts: h.acts, end: End::Enter, line: p });
                }
            }
            2 => {
                // One of the last programs again, perhaps with more to it.
                let k = s.usize(1, (single + 1).min(hist.len()));
                let mut h = Hand { acts: vec![], line: vec![], pos: 0, s };
                for n in 0..k {
                    h.line = hist[hist.len() - 1 - n].chars().collect();
                    h.pos = h.line.len();
                    h.act(b"\x1b[A");
                }
                if k <= single && h.s.chance(1, 3) {
                    h.type_in(&"; println 77".chars().collect::<Vec<_>>());
                }
                edits += 1;
                let line: String = h.line.iter().collect();
                typed.push(Typed { acts: h.acts, end: End::Enter, line });
            }
            3 => {
                let t = format!("println \"never\" {}", i);
                let mut h = Hand { acts: vec![], line: vec![], pos: 0, s };
                let t = if h.s.chance(1, 4) { String::new() } else { t };
                h.write(&t, &recalled);
                edits += 1;
                typed.push(Typed { acts: h.acts, end: End::CtrlC, line: t });
            }
            4 => {
                let t = *s.pick(&["hold", "hold 1; println 1", "for i in 0 to 2 { hold i }", "err@try (hold 1) (e -> 5)", "let hh = q -> { hold q; q }; hh 3"]);
                let mut h = Hand { acts: vec![], line: vec![], pos: 0, s };
                h.write(t, &recalled);
                typed.push(Typed { acts: h.acts, end: End::Hold, line: t.to_string() });
            }
            _ => {
                let head = *s.pick(&["println (fs@read \"al", "println (fs@read \"./al", "upper << \"al", "[1, \"alp", "println (fs@exists? \"sub/al"]);
                let tail = *s.pick(&["\"", "\")"]);
                let tail = if head.contains('(') { "\")" } else if head.starts_with('[') { "\"]" } else { tail.trim_end_matches(')') };
                let mut h = Hand { acts: vec![], line: vec![], pos: 0, s };
                h.write(head, &[]);
                h.end();
                // What it is completed to depends on the directory, which is known when it runs.
                h.line.push('\t');
                h.pos = h.line.len();
                h.act(b"\t");
                for c in tail.chars() {
                    h.line.push(c);
                    h.pos += 1;
                    h.act(&[c as u8]);
                }
                edits += 1;
                let line: String = h.line.iter().collect();
                typed.push(Typed { acts: h.acts, end: End::Enter, line });
                broken = true; // The text in the history is not known here.
            }
        }
        for t in typed {
            match t.end {
                End::CtrlC => lines.clear(),
                _ => {
                    lines.push(t.line.clone());
                    let all = lines.join("\n");
                    match sut::guarded_parse(&all) {
                        Ok(Ok(_)) => {
                            if !all.is_empty() && !all.starts_with(char::is_whitespace) && hist.last() != Some(&all) {
                                hist.push(all);
                            }
                            lines.clear();
                        }
                        _ => {
                            // Whether this is remembered is not said.
                            broken = true;
                            if t.line.is_empty() {
                                lines.clear();
                            }
                        }
                    }
                }
            }
            session.push(t);
        }
    }
    // A statement that is left open swallows what follows; one that holds must stand alone.
    if session.iter().any(|t| t.line.contains("hold") && !matches!(t.end, End::Hold)) {
        return discard();
    }
    let leave = s.below(3);
    let script: Vec<String> = session.iter().map(|t| format!("{:?} {}", l(&t.acts.iter().flat_map(|a| a.keys.clone()).collect::<Vec<_>>()), match t.end { End::Enter => "Enter", End::CtrlC => "Ctrl-C", End::Hold => "Enter, Ctrl-C while it runs" })).collect();
    cx.nontrivial(edits > 1);
    cx.label(format!("width {}", width).as_str());
    cx.go(format!("{} columns, prelude {:?} {:?}\n{}", width, prompt.0, incomplete.0, script.join("\n")))?;
    thrice(|| type_session(width, height, prompt, incomplete, &session, &heres, leave))
}

fn type_session(width: usize, height: usize, prompt: (&str, &str), incomplete: (&str, &str), session: &[Typed], heres: &BTreeMap<String, String>, leave: u64) -> R {
    struct Wide;
    impl Drop for Wide {
        fn drop(&mut self) {
            sut::TERMINAL.store(0, std::sync::atomic::Ordering::SeqCst);
        }
    }
    sut::TERMINAL.store(width, std::sync::atomic::Ordering::SeqCst);
    let wide = Wide;
    // The model runs first, statement by statement: what it says, and the directory after it.
    setup();
    let mut env = session_env();
    struct Step {
        said: Option<Said>,
        line: String,
        acts: Vec<Act>,
        prompt: String,
    }
    let shown = |p: &str, cwd: &str| p.replace("{cwd}", cwd).replace("{len}", &cwd.chars().count().to_string()).replace("{pad}", &" ".repeat(cwd.chars().count() + 7));
    let mut steps: Vec<Step> = vec![];
    let mut texts: Vec<String> = vec![];
    let mut lines: Vec<String> = vec![];
    for t in session {
        let cwd = env.get_cwd();
        let p = shown(if lines.is_empty() { prompt.1 } else { incomplete.1 }, &cwd);
        let dir = std::path::PathBuf::from(&cwd);
        let complete = |x: &str| -> String {
            let Some(i) = x.find('\t') else { return x.to_string() };
            let from = x[..i].rfind('"').unwrap() + 1;
            let typed = &x[from..i];
            let (d, n) = typed.rsplit_once('/').map(|(d, n)| (dir.join(d), n)).unwrap_or((dir.clone(), typed));
            let found: Vec<String> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|f| f.starts_with(n)).collect();
            match &found[..] {
                [one] => format!("{}{}{}{}", &x[..i - n.len()], one, "", &x[i + 1..]),
                _ => format!("{}{}", &x[..i], &x[i + 1..]),
            }
        };
        let acts: Vec<Act> = t
            .acts
            .iter()
            .map(|a| {
                let line = complete(&a.line);
                // After a completion everything is typed at the end.
                let pos = if a.line.contains('\t') { line.chars().count() } else { a.pos };
                Act { line, pos, ..a.clone() }
            })
            .collect();
        let line = complete(&t.line);
        let said = match t.end {
            End::CtrlC => {
                lines.clear();
                None
            }
            _ => {
                lines.push(line.clone());
                let all = lines.join("\n");
                texts.push(all.clone());
                let mut said = Said::default();
                match sut::guarded_parse(&all).map_err(viol)? {
                    Err(_) => {
                        if line.is_empty() {
                            let o = run(&mut env, &all, &mut said);
                            complain(&o, &mut said);
                            lines.clear();
                        }
                        // A program that holds is part of a text that does not end.
                        if matches!(t.end, End::Hold) {
                            return discard();
                        }
                        Some(said)
                    }
                    Ok(_) => {
                        // Some programs are written differently here.
                        let base = all.trim_end_matches("; println 77");
                        let here = match heres.get(&all) {
                            Some(h) => h.clone(),
                            None => format!("{}{}", heres.get(base).map_or(base, |h| h), &all[base.len()..]),
                        };
                        if matches!(t.end, End::Hold) {
                            if all != t.line {
                                return discard();
                            }
                            lines.clear();
                            let quiet = all.replace("hold", "say");
                            program(&mut env, &quiet, &mut said).map_err(viol)?;
                            None
                        } else {
                            lines.clear();
                            program(&mut env, &here, &mut said).map_err(viol)?;
                            Some(said)
                        }
                    }
                }
            }
        };
        if let Some(x) = &said {
            // Other control characters would do something to the terminal.
            if x.out.iter().chain(&x.err).any(|b| *b < 32 && *b != b'\n' && *b != 0x1b || *b == 127) {
                return discard();
            }
        }
        steps.push(Step { said, line, acts, prompt: p });
    }
    let last = shown(if lines.is_empty() { prompt.1 } else { incomplete.1 }, &env.get_cwd());
    let want_tree = tree();
    drop(wide);
    setup();
    std::fs::write(".dune-prelude", format!("{};\n{};\nNone", if prompt.0.is_empty() { "None" } else { prompt.0 }, if incomplete.0.is_empty() { "None" } else { incomplete.0 })).unwrap();
    let mut p = Pty::start(&[], width, height);
    let mut asked = 0;
    for (i, (step, t)) in steps.iter().zip(session).enumerate() {
        ensure!(p.until(20, |p| p.emu.asked > asked), "no prompt comes for line {}; on the terminal: {:?}", i, l(&p.all));
        asked = p.emu.asked;
        let at = p.emu.asked_at;
        let at = if at.1 == 0 { at } else { (at.0 + 1, 0) };
        let mut keys: Vec<u8> = vec![];
        let nothing = Act { keys: vec![], line: String::new(), pos: 0, look: i % 3 == 0 };
        for a in std::iter::once(&nothing).chain(&step.acts) {
            keys.extend(&a.keys);
            // The line editor misplaces the cursor when its hint goes on to another line.
            if a.look && !texts.iter().any(|t| t.contains('\n') && t.starts_with(&a.line) && !a.line.is_empty()) {
                p.send(&std::mem::take(&mut keys));
                look(&mut p, at, &step.prompt, &a.line, a.pos, width).map_err(|m| viol(format!("line {}, after {:?}: {}", i, a.line, m)))?;
            }
        }
        p.send(&keys);
        let said = p.emu.said.len();
        p.send(if matches!(t.end, End::CtrlC) { b"\x03" } else { b"\r" });
        // While it runs.
        let mut sent = 0;
        let done = p.until(30, |p| {
            if matches!(t.end, End::Hold) && p.emu.said.len() > said {
                let n = p.emu.said[said].windows(7).filter(|w| *w == b"holding").count();
                if n > sent {
                    sent = n;
                    p.send(b"\x03");
                }
            }
            p.emu.asked > asked
        });
        if !done {
            // The statement may be one that leaves the shell; there is none.
            fail!("no prompt comes after line {} ({:?}); on the terminal: {:?}", i, step.line, l(&p.all));
        }
        if let Some(o) = &p.emu.odd {
            fail!("an unusual control sequence: {:?}", o);
        }
        ensure!(p.emu.said.len() > said, "line {} ({:?}) is not taken; on the terminal: {:?}", i, step.line, l(&p.all));
        let have = l(&p.emu.said[said..].concat());
        let have = have.strip_prefix("\r\n").unwrap_or(&have).replace("\r\n", "\n");
        match (&step.said, &t.end) {
            (Some(w), _) => {
                let (out, err) = (l(&w.out), l(&w.err));
                let same = if err.is_empty() {
                    have == out
                } else {
                    match have.find(&err) {
                        Some(k) => format!("{}{}", &have[..k], &have[k + err.len()..]) == out,
                        None => false,
                    }
                };
                ensure!(same, "line {} ({:?}) says {:?} instead of {:?} and the errors {:?}", i, step.line, have, out, err);
            }
            (None, End::CtrlC) => ensure!(!have.contains("never"), "line {} was abandoned, but says {:?}", i, have),
            _ => ensure!(sent > 0, "line {} ({:?}) runs no program; it says {:?}", i, step.line, have),
        }
    }
    ensure!(p.until(20, |p| p.emu.asked > asked || steps.is_empty()), "no prompt comes at the end; on the terminal: {:?}", l(&p.all));
    let at = p.emu.asked_at;
    look(&mut p, if at.1 == 0 { at } else { (at.0 + 1, 0) }, &last, "", 0, width).map_err(|m| viol(format!("at the end: {}", m)))?;
    let code = if leave == 0 && lines.is_empty() {
        p.send(b"exit 7\r");
        7
    } else {
        p.send(b"\x04");
        0
    };
    let r = p.ended();
    ensure!(r.and_then(|r| r.code()) == Some(code), "the shell ends with {:?} instead of {}; on the terminal: {:?}", r, code, l(&p.all));
    let have_tree = tree();
    sut::clean_cwd();
    ensure!(have_tree == want_tree, "it leaves the files {:?} instead of {:?}", have_tree, want_tree);
    Ok(())
}
fn viol(m: String) -> Fail {
    Fail::Violation { sig: String::new(), msg: m }
}
fn tree() -> BTreeMap<String, Vec<u8>> {
    let mut t = crate::props::modes::tree();
    t.retain(|k, _| !k.contains(".dune-"));
    t
}

/// The terminal shows the prompt and the line, and the cursor is in its place.
fn look(p: &mut Pty, at: (usize, usize), prompt: &str, line: &str, pos: usize, width: usize) -> Result<(), String> {
    let mut want = BTreeMap::new();
    let start = layout(at, prompt, width, &mut want);
    let before: String = line.chars().take(pos).collect();
    let cursor = layout(start, &before, width, &mut BTreeMap::new());
    layout(start, line, width, &mut want);
    let ok = p.until(10, |p| {
        let here = if p.emu.col >= width { (p.emu.row + 1, 0) } else { (p.emu.row, p.emu.col) };
        here == cursor && want.iter().all(|(k, c)| p.emu.cells.get(k).copied().unwrap_or(' ') == *c)
    });
    if ok {
        return Ok(());
    }
    let rows = want.keys().map(|k| k.0).max().unwrap_or(at.0);
    let seen: Vec<String> = (at.0..=rows + 1).map(|r| (0..width).map(|c| p.emu.cells.get(&(r, c)).copied().unwrap_or(' ')).collect::<String>().trim_end().to_string()).collect();
    Err(format!("the terminal shows {:?}, cursor at row {}, column {}, instead of {:?} with the cursor at row {}, column {}", seen, p.emu.row as i64 - at.0 as i64, p.emu.col, format!("{}{}", prompt, line), cursor.0 - at.0, cursor.1))
}

// ---------------------------------------------------------------- reading

const KEYS: &[(&str, &[&[u8]])] = &[
    ("enter", &[b"\r"]),
    ("backspace", &[b"\x7f"]),
    ("delete", &[b"\x1b[3~"]),
    ("left", &[b"\x1b[D", b"\x1bOD"]),
    ("right", &[b"\x1b[C", b"\x1bOC"]),
    ("up", &[b"\x1b[A", b"\x1bOA"]),
    ("down", &[b"\x1b[B", b"\x1bOB"]),
    ("home", &[b"\x1b[H", b"\x1bOH", b"\x1b[1~"]),
    ("end", &[b"\x1b[F", b"\x1bOF", b"\x1b[4~"]),
    ("page-up", &[b"\x1b[5~"]),
    ("page-down", &[b"\x1b[6~"]),
    ("tab", &[b"\t"]),
    ("esc", &[b"\x1b"]),
    ("insert", &[b"\x1b[2~"]),
    ("f1", &[b"\x1bOP", b"\x1b[11~"]),
    ("f2", &[b"\x1bOQ", b"\x1b[12~"]),
    ("f3", &[b"\x1bOR", b"\x1b[13~"]),
    ("f4", &[b"\x1bOS", b"\x1b[14~"]),
    ("f5", &[b"\x1b[15~"]),
    ("f6", &[b"\x1b[17~"]),
    ("f7", &[b"\x1b[18~"]),
    ("f8", &[b"\x1b[19~"]),
    ("f9", &[b"\x1b[20~"]),
    ("f10", &[b"\x1b[21~"]),
    ("f11", &[b"\x1b[23~"]),
    ("f12", &[b"\x1b[24~"]),
    ("back-tab", &[b"\x1b[Z"]),
];

fn c42_reading(s: &mut Src, cx: &mut Cx) -> R {
    #[derive(Clone, Debug)]
    enum Ev {
        Named(usize, usize),
        Char(char),
        Line(String),
        Password(String),
        Input(String),
        Size,
    }
    let (width, height) = (s.usize(20, 300), s.usize(3, 200));
    let evs: Vec<Ev> = (0..s.usize(1, 8))
        .map(|_| match s.below(9) {
            0..=2 => {
                let k = s.usize(0, KEYS.len() - 1);
                Ev::Named(k, s.usize(0, KEYS[k].1.len() - 1))
            }
            3 => Ev::Char(loop {
                let c = if s.bool() { s.range(32, 126) as u8 as char } else { gen::ch(s) };
                if c >= ' ' && c != '\u{7f}' && !c.is_control() {
                    break c;
                }
            }),
            4 | 5 => {
                let mut t = gen::text(s, 20);
                t.retain(|c| !c.is_control());
                if s.bool() {
                    Ev::Line(t)
                } else {
                    Ev::Password(t)
                }
            }
            6 | 7 => {
                let mut t = gen::text(s, 20);
                t.retain(|c| typable(&c.to_string()) && c != '\n');
                Ev::Input(t)
            }
            _ => Ev::Size,
        })
        .collect();
    let mut script = String::new();
    for (i, e) in evs.iter().enumerate() {
        let key = "console@mode@raw (); println \"<I>\"; let k = console@keyboard@read-key (); console@mode@cooked ()";
        script += &match e {
            Ev::Named(k, _) => format!("{}; fs@write \"rI\" k; fs@write \"sI\" (str (k == console@keyboard@keys@{}))", key, KEYS[*k].0),
            Ev::Char(_) => format!("{}; fs@write \"rI\" k", key),
            Ev::Line(_) => "println \"<I>\"; fs@write \"rI\" (console@keyboard@read-line ())".into(),
            Ev::Password(_) => "println \"<I>\"; fs@write \"rI\" (console@keyboard@read-password ())".into(),
            Ev::Input(_) => "println \"<I>\"; fs@write \"rI\" (input \"more: \")".into(),
            Ev::Size => "fs@write \"rI\" ((str (console@width ())) + \" \" + (str (console@height ())))".into(),
        }
        .replace('I', &i.to_string());
        script += ";\n";
    }
    script += "fs@write \"end\" \"reached\"";
    cx.nontrivial(evs.iter().any(|e| !matches!(e, Ev::Size)));
    cx.go(format!("{} x {}: {:?}", width, height, evs))?;
    thrice(|| {
        sut::clean_cwd();
        let path = sut::work_dir().join("script.dune");
        std::fs::write(&path, &script).unwrap();
        let mut p = Pty::start(&[path.to_str().unwrap().to_string()], width, height);
        for (i, e) in evs.iter().enumerate() {
            if matches!(e, Ev::Size) {
                continue;
            }
            let mark = format!("<{}>", i);
            ensure!(p.until(20, |p| l(&p.all).contains(&mark)), "the script does not come to step {}; on the terminal: {:?}", i, l(&p.all));
            let from = p.all.len();
            match e {
                Ev::Named(k, n) => p.send(KEYS[*k].1[*n]),
                Ev::Char(c) => p.send(c.to_string().as_bytes()),
                Ev::Line(t) => p.send(format!("{}\n", t).as_bytes()),
                Ev::Password(t) => {
                    ensure!(p.until(20, |p| !p.echoes()), "a password is shown while it is typed");
                    p.send(format!("{}\n", t).as_bytes());
                }
                Ev::Input(t) => {
                    ensure!(p.until(20, |p| l(&p.all).split(&mark).nth(1).map_or(false, |x| x.contains("\u{1b}[6n"))), "input does not ask; on the terminal: {:?}", l(&p.all));
                    p.send(format!("{}\r", t).as_bytes());
                }
                Ev::Size => {}
            }
            let file = format!("r{}", i);
            ensure!(p.until(20, |_| std::path::Path::new(&file).exists()), "what is typed at step {} is not read; on the terminal: {:?}", i, l(&p.all));
            if let Ev::Password(t) = e {
                if t.chars().count() > 3 {
                    while p.pump(1) {}
                    ensure!(!l(&p.all[from..]).contains(t.as_str()), "the password {:?} is shown: {:?}", t, l(&p.all[from..]));
                }
            }
        }
        let r = p.ended();
        ensure!(r.and_then(|r| r.code()) == Some(0), "the shell ends with {:?}; on the terminal: {:?}", r, l(&p.all));
        ensure!(p.echoes(), "the terminal does not echo afterwards");
        for (i, e) in evs.iter().enumerate() {
            let have = std::fs::read_to_string(format!("r{}", i)).ok();
            let want = match e {
                Ev::Named(k, _) => {
                    let same = std::fs::read_to_string(format!("s{}", i)).ok();
                    ensure!(same.as_deref() == Some("True"), "the key {} is read as {:?}, which is not keys@{}", KEYS[*k].0, have, KEYS[*k].0);
                    continue;
                }
                Ev::Char(c) => c.to_string(),
                Ev::Line(t) => format!("{}\n", t),
                Ev::Password(t) | Ev::Input(t) => t.clone(),
                Ev::Size => format!("{} {}", width, height),
            };
            ensure!(have.as_deref() == Some(&want), "step {} reads {:?} instead of {:?}", i, have, want);
        }
        ensure!(std::fs::read_to_string("end").is_ok(), "the script does not reach its end");
        sut::clean_cwd();
        Ok(())
    })
}
