//! This binary, under other names, as the programs that a shell runs.

use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;

pub const NAMES: &[&str] = &["argdump", "emit", "xcat", "upper", "twice", "taken", "slurp", "count", "ret", "late", "say", "intr", "slay", "hold"];

/// The bytes that `emit` writes. Mode 0: lines of ASCII; 1: any characters; 2: any bytes.
pub fn data(n: usize, seed: u64, mode: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1;
    let mut next = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 33
    };
    let mut v = Vec::with_capacity(n + 4);
    while v.len() < n {
        match mode {
            0 => v.push(match next() % 12 {
                0 => b'\n',
                1 => b' ',
                k => b'a' + (k as u8 + (next() % 13) as u8) % 26,
            }),
            1 => {
                let c = ['é', '日', '\u{1F600}', 'a', '\n', '\r', '\t', '\0', '"', '\\', ' ', 'Z', '\u{301}', '\u{1b}'][(next() % 14) as usize];
                if v.len() + c.len_utf8() > n {
                    v.push(b'.');
                } else {
                    v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
            }
            _ => v.push(next() as u8),
        }
    }
    v
}

/// What a program that copies its input makes of it.
pub fn transform(name: &str, args: &[String], input: &[u8]) -> Vec<u8> {
    match name {
        "xcat" => input.to_vec(),
        "upper" => input.to_ascii_uppercase(),
        "twice" => input.iter().flat_map(|b| [*b, *b]).collect(),
        "taken" => input[..input.len().min(args[0].parse().unwrap())].to_vec(),
        "slurp" => input.iter().rev().copied().collect(),
        "count" => format!("{}", input.len()).into_bytes(),
        "late" => data(args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap()),
        "say" => args.join(" ").into_bytes(),
        _ => unreachable!(),
    }
}

/// What `argdump` reports.
#[derive(Debug, Default, PartialEq)]
pub struct Dump {
    pub args: Vec<Vec<u8>>,
    pub cwd: Vec<u8>,
    pub vars: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
}
impl Dump {
    fn write(&self) -> Vec<u8> {
        let mut o = vec![];
        let mut rec = |k: char, b: &[u8]| {
            write!(o, "{}{}:", k, b.len()).unwrap();
            o.extend_from_slice(b);
        };
        for a in &self.args {
            rec('A', a);
        }
        rec('D', &self.cwd);
        for (k, v) in &self.vars {
            rec('K', k);
            rec('V', v);
        }
        rec('.', b"");
        o
    }
    /// The dump at the start of the bytes, and how long it is.
    pub fn read(b: &[u8]) -> Option<(Dump, usize)> {
        let mut d = Dump::default();
        let mut i = 0;
        let mut key = vec![];
        loop {
            let kind = *b.get(i)?;
            let colon = i + b[i..].iter().take(16).position(|c| *c == b':')?;
            let n: usize = std::str::from_utf8(&b[i + 1..colon]).ok()?.parse().ok()?;
            let body = b.get(colon + 1..colon + 1 + n)?.to_vec();
            i = colon + 1 + n;
            match kind {
                b'A' => d.args.push(body),
                b'D' => d.cwd = body,
                b'K' => key = body,
                b'V' => {
                    d.vars.insert(std::mem::take(&mut key), body);
                }
                b'.' => return Some((d, i)),
                _ => return None,
            }
        }
    }
}

/// Writes everything unless the reader is gone.
fn put(b: &[u8]) -> bool {
    use std::os::unix::io::FromRawFd;
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(1) });
    f.write_all(b).is_ok()
}

fn stream(mut f: impl FnMut(&[u8]) -> Vec<u8>) {
    let mut buf = [0u8; 5000];
    let mut inp = std::io::stdin().lock();
    loop {
        match inp.read(&mut buf) {
            Ok(0) | Err(_) => return,
            Ok(n) => {
                if !put(&f(&buf[..n])) {
                    return;
                }
            }
        }
    }
}
fn all() -> Vec<u8> {
    let mut v = vec![];
    let _ = std::io::stdin().lock().read_to_end(&mut v);
    v
}

pub fn main(args: &[std::ffi::OsString]) -> Option<i32> {
    let name = std::path::Path::new(args.first()?).file_name()?.to_str()?.to_string();
    if !NAMES.contains(&name.as_str()) {
        return None;
    }
    let a: Vec<String> = args[1..].iter().map(|a| a.to_string_lossy().to_string()).collect();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    match name.as_str() {
        "argdump" => {
            let d = Dump {
                args: args[1..].iter().map(|a| a.as_bytes().to_vec()).collect(),
                cwd: std::env::current_dir().map(|d| d.as_os_str().as_bytes().to_vec()).unwrap_or_default(),
                vars: std::env::vars_os().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(),
            };
            put(&d.write());
        }
        "emit" => {
            let b = data(num(0) as usize, num(1), num(2));
            let step = [1 << 20, 100_000, 65_536, 4_097, 997][(num(1) % 5) as usize];
            for c in b.chunks(step) {
                if !put(c) {
                    break;
                }
            }
        }
        "xcat" => stream(|b| b.to_vec()),
        "upper" => stream(|b| b.to_ascii_uppercase()),
        "twice" => stream(|b| transform("twice", &[], b)),
        "taken" => {
            let n = num(0) as usize;
            let mut v = vec![];
            let _ = std::io::stdin().lock().take(n as u64).read_to_end(&mut v);
            put(&v);
        }
        "slurp" | "count" => {
            put(&transform(&name, &a, &all()));
        }
        "late" => {
            unsafe { libc::close(0) };
            put(&transform("late", &a, b""));
        }
        "say" => {
            put(&transform("say", &a, b""));
        }
        // Interrupt the shell that runs this, alone or with every program it runs.
        "intr" => unsafe {
            put(&transform("say", &a, b""));
            if a.first().map_or(false, |x| x == "all") {
                libc::kill(0, libc::SIGINT);
                libc::pause();
            }
            libc::kill(libc::getppid(), libc::SIGINT);
        },
        // Say so on standard error, and wait for the end.
        "hold" => unsafe {
            libc::write(2, b"holding\n".as_ptr() as *const _, 8);
            loop {
                libc::pause();
            }
        },
        // End it without notice.
        "slay" => unsafe {
            libc::kill(libc::getppid(), libc::SIGKILL);
        },
        "ret" => {
            if a.first().map_or(false, |x| x == "kill") {
                unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
            }
            return Some(num(0) as i32);
        }
        _ => {}
    }
    Some(0)
}
