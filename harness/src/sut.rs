//! The code under test: an in-process interpreter, stdout capture, and helper programs.

use crate::engine::*;
use dune::{Environment, Error, Expression};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::OnceLock;

static DIRS: OnceLock<(PathBuf, PathBuf)> = OnceLock::new();
pub fn set_dirs(bin: PathBuf, work: PathBuf) {
    let _ = DIRS.set((bin, work));
}
/// Holds the helper programs and `dunesh`; owned by root.
pub fn bin_dir() -> &'static Path {
    &DIRS.get().expect("sandbox").0
}
/// The directory that belongs to this worker; the process runs in `cwd` below it.
pub fn work_dir() -> &'static Path {
    &DIRS.get().expect("sandbox").1
}
pub fn cwd_dir() -> PathBuf {
    work_dir().join("cwd")
}

/// Empty the working directory.
pub fn clean_cwd() {
    let d = cwd_dir();
    std::env::set_current_dir(&d).unwrap();
    remove_all_in(&d);
}
pub fn remove_all_in(d: &Path) {
    use std::os::unix::fs::PermissionsExt;
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            let ft = e.file_type();
            if ft.map(|t| t.is_dir()).unwrap_or(false) {
                let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
                remove_all_in(&p);
                let _ = std::fs::remove_dir(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

// ---------------------------------------------------------------- stdout capture

static MEMFD: AtomicI32 = AtomicI32::new(-1);
static ERRFD: AtomicI32 = AtomicI32::new(-1);

/// From here on file descriptors 1 and 2 are memory files.
pub fn capture_init() {
    unsafe {
        let fd = libc::memfd_create(b"out\0".as_ptr() as *const _, 0);
        assert!(fd > 2);
        libc::dup2(fd, 1);
        MEMFD.store(fd, Ordering::SeqCst);
        let fd = libc::memfd_create(b"err\0".as_ptr() as *const _, 0);
        assert!(fd > 2);
        ERRFD.store(fd, Ordering::SeqCst);
    }
}

fn drain(fd: i32) -> Vec<u8> {
    unsafe {
        let len = libc::lseek(fd, 0, libc::SEEK_END);
        let mut v = vec![0u8; len.max(0) as usize];
        let n = libc::pread(fd, v.as_mut_ptr() as *mut _, v.len(), 0);
        v.truncate(n.max(0) as usize);
        libc::ftruncate(fd, 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
        v
    }
}

/// How wide the terminal is that standard output seems to be; 0 when it is none.
pub static TERMINAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// A pseudo terminal: its master, and its slave.
pub fn open_pty(width: usize, height: usize) -> (std::os::fd::OwnedFd, std::os::fd::OwnedFd) {
    use std::os::fd::FromRawFd;
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(m >= 0, "no pseudo terminal: {}", std::io::Error::last_os_error());
        let master = std::os::fd::OwnedFd::from_raw_fd(m);
        assert!(libc::grantpt(m) == 0 && libc::unlockpt(m) == 0, "no pseudo terminal");
        let mut name = [0 as libc::c_char; 128];
        assert!(libc::ptsname_r(m, name.as_mut_ptr(), name.len()) == 0);
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(s >= 0, "no pseudo terminal: {}", std::io::Error::last_os_error());
        let size = libc::winsize { ws_row: height as u16, ws_col: width as u16, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(m, libc::TIOCSWINSZ, &size);
        (master, std::os::fd::OwnedFd::from_raw_fd(s))
    }
}

fn captured_tty<T>(width: usize, f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::Read;
    use std::os::fd::AsRawFd;
    let (master, slave) = open_pty(width, 24);
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(slave.as_raw_fd(), &mut t);
        libc::cfmakeraw(&mut t);
        libc::tcsetattr(slave.as_raw_fd(), libc::TCSANOW, &t);
        let _ = std::io::stdout().flush();
        libc::dup2(slave.as_raw_fd(), 1);
        drop(slave);
        let h = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = std::fs::File::from(master).read_to_end(&mut v);
            v
        });
        let r = f();
        let _ = std::io::stdout().flush();
        libc::dup2(MEMFD.load(Ordering::SeqCst), 1);
        (r, h.join().unwrap())
    }
}

/// Run `f` and return what it wrote to standard output.
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    let width = TERMINAL.load(Ordering::SeqCst);
    if width > 0 {
        return captured_tty(width, f);
    }
    let fd = MEMFD.load(Ordering::SeqCst);
    let _ = std::io::stdout().flush();
    drain(fd);
    let r = f();
    let _ = std::io::stdout().flush();
    (r, drain(fd))
}

/// Run `f` with the standard input holding this.
pub fn with_stdin<T>(data: Option<&[u8]>, f: impl FnOnce() -> T) -> T {
    let Some(data) = data else { return f() };
    unsafe {
        let fd = libc::memfd_create(b"in\0".as_ptr() as *const libc::c_char, 0);
        let mut at = 0;
        while at < data.len() {
            let n = libc::write(fd, data[at..].as_ptr() as *const libc::c_void, data.len() - at);
            assert!(n > 0);
            at += n as usize;
        }
        libc::lseek(fd, 0, libc::SEEK_SET);
        let saved = libc::dup(0);
        libc::dup2(fd, 0);
        libc::close(fd);
        let r = f();
        libc::dup2(saved, 0);
        libc::close(saved);
        r
    }
}

/// Run `f` with standard error captured too.
pub fn captured_both<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>, Vec<u8>) {
    unsafe {
        let e = ERRFD.load(Ordering::SeqCst);
        drain(e);
        let saved = libc::dup(2);
        libc::dup2(e, 2);
        let (r, out) = captured(f);
        libc::dup2(saved, 2);
        libc::close(saved);
        (r, out, drain(e))
    }
}

// ---------------------------------------------------------------- interpreter

thread_local! {
    static TEMPLATE: Environment = {
        let mut env = Environment::new();
        dunebin::verif_hooks::init(&mut env);
        env
    };
}

/// A fresh environment with every builtin defined, in this worker's directory.
pub fn fresh_env() -> Environment {
    let mut e = TEMPLATE.with(|t| t.clone());
    if let Some((_, w)) = DIRS.get() {
        e.set_cwd(w.join("cwd").to_str().unwrap());
    }
    e
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Val(Expression),
    Err(Error),
    Syntax(String),
    Panic(String),
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Val(v) => format!("value {:?}", v),
            Out::Err(e) => format!("error {:?}", e),
            Out::Syntax(s) => format!("syntax error {}", s),
            Out::Panic(s) => s.clone(),
        }
    }
    pub fn val(&self) -> Option<&Expression> {
        match self {
            Out::Val(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
}

pub fn parse(text: &str) -> Result<Expression, String> {
    match dune::parse_script(text) {
        Ok(e) => Ok(e),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(format!("{}", Error::SyntaxError(text.into(), e))),
        Err(nom::Err::Incomplete(_)) => Err("incomplete".into()),
    }
}

pub fn run_in(env: &mut Environment, text: &str) -> Out {
    let r = guarded(|| match parse(text) {
        Ok(e) => match e.eval(env) {
            Ok(v) => Out::Val(v),
            Err(e) => Out::Err(e),
        },
        Err(e) => Out::Syntax(e),
    });
    match r {
        Ok(o) => o,
        Err(p) => Out::Panic(p),
    }
}

pub fn run(text: &str) -> Out {
    run_in(&mut fresh_env(), text)
}

pub fn eval_in(env: &mut Environment, e: &Expression) -> Out {
    match guarded(|| e.eval(env)) {
        Ok(Ok(v)) => Out::Val(v),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

pub fn guarded_parse(t: &str) -> Result<Result<Expression, dune::SyntaxError>, String> {
    guarded(|| match dune::parse_script(t) {
        Ok(e) => Ok(e),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(e),
        Err(nom::Err::Incomplete(_)) => Err(dune::SyntaxError::InternalError),
    })
}

// ---------------------------------------------------------------- programs

/// Run `f`; when it takes longer than `secs` on the clock, end the programs it waits for.
/// The flag says whether that was necessary.
pub fn watched<T>(secs: u64, f: impl FnOnce() -> T) -> (T, bool) {
    use std::sync::mpsc;
    use std::time::Duration;
    let (tx, rx) = mpsc::channel::<()>();
    let h = std::thread::spawn(move || {
        let mut fired = false;
        let mut wait = Duration::from_secs(secs);
        loop {
            match rx.recv_timeout(wait) {
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    fired = true;
                    wait = Duration::from_millis(200);
                    kill_children();
                }
                _ => return fired,
            }
        }
    });
    let r = f();
    let _ = tx.send(());
    (r, h.join().unwrap())
}
fn kill_children() {
    let me = std::process::id();
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let Some(pid) = e.file_name().to_str().and_then(|n| n.parse::<i32>().ok()) else { continue };
        let Ok(stat) = std::fs::read_to_string(e.path().join("stat")) else { continue };
        let ppid = stat.rsplit(')').next().and_then(|r| r.split_whitespace().nth(1)).and_then(|p| p.parse::<u32>().ok());
        if ppid == Some(me) {
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
    }
}

/// The programs in `bin_dir` can be called by their names.
pub fn programs_env() -> Environment {
    std::env::set_var("PATH", bin_dir());
    let mut e = fresh_env();
    e.define("PATH", Expression::String(bin_dir().to_str().unwrap().to_string()));
    e
}
