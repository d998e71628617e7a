//! The orchestrator (`check`), its sandboxed workers, replay and evidence.

use crate::engine::*;
use crate::props;
use json::{object, JsonValue};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::io::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const SANDBOX_UID: u32 = 61234;
const WORKERS: u64 = 8;

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            std::process::exit(2)
        }
    }
}

fn case_seed(seed: u64, p: &Prop, sub: usize, i: u64) -> u64 {
    mix(&[seed, hash_str(p.id), hash_str(p.subs[sub].name), i])
}
fn case_size(i: u64, n: u64) -> u64 {
    // Ten ramps from small to large over a run.
    let ramp = (n / 10).max(1);
    (i % ramp) * 100 / ramp
}
fn count(s: &Sub, tier: &str) -> u64 {
    let scale: f64 = std::env::var("DUNECHECK_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let n = if tier == "thorough" { s.thorough } else { s.quick };
    ((n as f64 * scale) as u64).max(1)
}

// ---------------------------------------------------------------- known findings

/// Signatures of defects that are recorded instead of repaired.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let path = verif_root().join("known_findings.json");
    let Ok(text) = fs::read_to_string(&path) else { return vec![] };
    let Ok(v) = json::parse(&text) else {
        eprintln!("cannot parse {}", path.display());
        std::process::exit(2)
    };
    v["findings"]
        .members()
        .filter(|f| f["property"] == id)
        .map(|f| (f["signature"].to_string(), f["what"].to_string()))
        .collect()
}

pub fn verif_root() -> PathBuf {
    std::env::var("DUNECHECK_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------- sandbox

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = PathBuf::from(format!("/tmp/dunecheck-{}-{}", std::process::id(), Instant::now().elapsed().as_nanos()));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(p.join("bin")).unwrap();
        fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
        let me = std::env::current_exe().unwrap();
        let dir = me.parent().unwrap();
        for b in ["dunecheck", "dunesh"] {
            fs::copy(dir.join(b), p.join("bin").join(b)).unwrap();
            fs::set_permissions(p.join("bin").join(b), fs::Permissions::from_mode(0o755)).unwrap();
        }
        for h in crate::helpers::NAMES {
            std::os::unix::fs::symlink("dunecheck", p.join("bin").join(h)).unwrap();
        }
        Scratch(p)
    }
    fn worker_dir(&self, k: &str) -> PathBuf {
        let d = self.0.join(k);
        fs::create_dir_all(d.join("cwd")).unwrap();
        for x in [d.clone(), d.join("cwd")] {
            let c = std::ffi::CString::new(x.to_str().unwrap()).unwrap();
            unsafe {
                libc::chown(c.as_ptr(), SANDBOX_UID, SANDBOX_UID);
            }
        }
        d
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        // Directories without permission bits do not stop root.
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Give up every privilege: from here on the process can only change files of its own.
fn enter_sandbox(dir: &Path) {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::umask(0o022);
        if libc::getuid() == 0 {
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(SANDBOX_UID) != 0 || libc::setuid(SANDBOX_UID) != 0 || libc::getuid() == 0 {
                eprintln!("cannot drop privileges");
                std::process::exit(2);
            }
        }
        libc::prctl(libc::PR_SET_DUMPABLE, 1);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    std::env::set_current_dir(dir.join("cwd")).unwrap();
    let keep: Vec<(String, String)> = ["VERIF_SEED", "VERIF_TIER", "DUNECHECK_SCALE", "DUNECHECK_ROOT"]
        .iter()
        .filter_map(|k| std::env::var(k).ok().map(|v| (k.to_string(), v)))
        .collect();
    for (k, _) in std::env::vars_os() {
        std::env::remove_var(k);
    }
    for (k, v) in keep {
        std::env::set_var(k, v);
    }
    std::env::set_var("HOME", dir.join("cwd"));
    std::env::set_var("PATH", "/nonexistent");
    crate::sut::set_dirs(dir.parent().unwrap().join("bin"), dir.to_path_buf());
    crate::sut::capture_init();
}

/// Run on a thread whose stack is as large as a main thread's usually is.
fn on_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| {
        eprintln!("harness thread panicked: {:?}", last_panic());
        std::process::exit(2)
    })
}

// ---------------------------------------------------------------- worker

/// worker ID SHARD SEED TIER SCRATCH KNOWN...
pub fn worker(a: &[String]) -> i32 {
    let p = find(&a[0]);
    let shard: u64 = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let tier = a[3].clone();
    let scratch = PathBuf::from(&a[4]);
    let journal = fs::OpenOptions::new().write(true).create(true).truncate(true).open(scratch.join(format!("j{}", shard))).unwrap();
    let mut out = fs::OpenOptions::new().write(true).create(true).truncate(true).open(scratch.join(format!("r{}", shard))).unwrap();
    let mut hashes = fs::OpenOptions::new().write(true).create(true).truncate(true).open(scratch.join(format!("h{}", shard))).unwrap();
    let known: HashSet<String> = known_findings(p.id).into_iter().map(|k| k.0).collect();
    enter_sandbox(&scratch.join(format!("w{}", shard)));
    install_panic_hook();
    on_stack(move || {
        let mut st = Stats::default();
        let mut failure: Option<JsonValue> = None;
        'all: for (si, s) in p.subs.iter().enumerate() {
            let n = count(s, &tier);
            let mut i = shard;
            while i < n {
                let rec = [si as u64, i];
                let bytes: [u8; 16] = unsafe { std::mem::transmute(rec) };
                unsafe { libc::pwrite(journal.as_raw_fd(), bytes.as_ptr() as *const _, 16, 0) };
                let size = case_size(i, n);
                let mut src = Src::random(case_seed(seed, &p, si, i), size);
                let (r, cx) = match run_case(s.f, &mut src) {
                    Ok(x) => x,
                    Err(e) => {
                        let _ = write!(out, "{}", object! { error: e }.dump());
                        return 2;
                    }
                };
                match r {
                    Err(Fail::Discard) => st.discards += 1,
                    Err(Fail::Violation { sig, msg }) => {
                        if known.contains(&sig) {
                            *st.known.entry(sig).or_default() += 1;
                        } else {
                            failure = Some(shrink_failure(&p, si, size, src.rec.clone(), &known, msg, cx.case));
                            break 'all;
                        }
                    }
                    Ok(()) => {
                        st.evaluations += 1;
                        *st.per_sub.entry(s.name.to_string()).or_default() += 1;
                        for l in cx.labels {
                            *st.labels.entry(format!("{}: {}", s.name, l)).or_default() += 1;
                        }
                        if cx.nontrivial && st.hashes.insert(hash_str(&format!("{}|{}", s.name, cx.case))) {
                            let have = st.samples.iter().filter(|x| x.starts_with(s.name)).count();
                            if (have < 2 && i > n / 3) || (have < 3 && i > n * 3 / 4) {
                                let c: String = cx.case.chars().take(600).collect();
                                st.samples.push(format!("{}: {}", s.name, c));
                            }
                        }
                    }
                }
                i += WORKERS;
            }
        }
        let mut v = object! {
            evaluations: st.evaluations,
            discards: st.discards,
            samples: st.samples.clone(),
            labels: JsonValue::new_object(),
            per_sub: JsonValue::new_object(),
            known: JsonValue::new_object(),
        };
        for (k, c) in &st.labels {
            v["labels"][k.as_str()] = (*c).into();
        }
        for (k, c) in &st.per_sub {
            v["per_sub"][k.as_str()] = (*c).into();
        }
        for (k, c) in &st.known {
            v["known"][k.as_str()] = (*c).into();
        }
        if let Some(f) = failure {
            v["failure"] = f;
        }
        let mut hb = Vec::with_capacity(st.hashes.len() * 8);
        for h in &st.hashes {
            hb.extend_from_slice(&h.to_le_bytes());
        }
        let _ = hashes.write_all(&hb);
        let _ = write!(out, "{}", v.dump());
        0
    })
}

fn failure_json(p: &Prop, si: usize, size: u64, choices: &[u64], case: &str, msg: &str) -> JsonValue {
    object! {
        property: p.id,
        sub: p.subs[si].name,
        size: size,
        choices: choices.iter().map(|c| c.to_string()).collect::<Vec<_>>(),
        case: case,
        message: msg,
    }
}

fn shrink_failure(p: &Prop, si: usize, size: u64, rec: Vec<u64>, known: &HashSet<String>, msg0: String, case0: String) -> JsonValue {
    let f = p.subs[si].f;
    let deadline = Instant::now() + Duration::from_secs(60);
    let best = shrink(rec, 3000, |c| {
        if Instant::now() > deadline {
            return None;
        }
        let mut src = Src::replay(c.to_vec(), size);
        match run_case(f, &mut src) {
            Ok((Err(Fail::Violation { sig, .. }), _)) if !known.contains(&sig) => Some(src.rec),
            _ => None,
        }
    });
    let mut src = Src::replay(best.clone(), size);
    match run_case(f, &mut src) {
        Ok((Err(Fail::Violation { msg, .. }), cx)) => failure_json(p, si, size, &best, &cx.case, &msg),
        _ => failure_json(p, si, size, &best, &case0, &format!("{} (the shrunk case did not fail again)", msg0)),
    }
}

// ---------------------------------------------------------------- one case in a child

/// one ID SUB SIZE SCRATCH WDIR (seed N | file F) REC  -> exit 0 pass, 10 violation, 11 discard
pub fn one(a: &[String]) -> i32 {
    let p = find(&a[0]);
    let si: usize = a[1].parse().unwrap();
    let size: u64 = a[2].parse().unwrap();
    let wdir = PathBuf::from(&a[3]);
    let mut src = if a[4] == "seed" {
        Src::random(a[5].parse().unwrap(), size)
    } else {
        let t = fs::read_to_string(&a[5]).unwrap();
        Src::replay(t.split_whitespace().map(|x| x.parse().unwrap()).collect(), size)
    };
    let mut out = fs::OpenOptions::new().write(true).create(true).truncate(true).open(&a[6]).unwrap();
    if let Some(limit) = p.cpu_limit {
        let lim = libc::rlimit { rlim_cur: limit + 2, rlim_max: limit + 4 };
        unsafe { libc::setrlimit(libc::RLIMIT_CPU, &lim) };
    }
    enter_sandbox(&wdir);
    install_panic_hook();
    set_draw_only(a.get(7).map(|x| x == "draw").unwrap_or(false));
    on_stack(move || {
        let r = run_case(p.subs[si].f, &mut src);
        match r {
            Err(e) => {
                let _ = write!(out, "{}", object! { error: e }.dump());
                2
            }
            Ok((r, cx)) => {
                let (code, msg) = match r {
                    Ok(()) => (0, String::new()),
                    Err(Fail::Discard) => (11, String::new()),
                    Err(Fail::Violation { msg, .. }) => (10, msg),
                };
                let _ = write!(out, "{}", object! { case: cx.case, message: msg, choices: src.rec.iter().map(|c| c.to_string()).collect::<Vec<_>>() }.dump());
                code
            }
        }
    })
}

enum One {
    Pass,
    Violation(String, String),
    Crash(String),
    CpuLimit,
    Error(String),
}

struct OneRunner {
    scratch: PathBuf,
    n: usize,
    draw: bool,
}
impl OneRunner {
    fn run(&mut self, sc: &Scratch, p: &Prop, si: usize, size: u64, from: Result<u64, &[u64]>) -> One {
        self.n += 1;
        let w = sc.worker_dir(&format!("one{}", self.n));
        let rec = self.scratch.join("one.rec");
        let _ = fs::remove_file(&rec);
        let (kind, val) = match from {
            Ok(s) => ("seed", s.to_string()),
            Err(c) => {
                let f = self.scratch.join("one.in");
                fs::write(&f, c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
                ("file", f.to_str().unwrap().to_string())
            }
        };
        let errf = fs::File::create(self.scratch.join("one.err")).unwrap();
        let st = Command::new(self.scratch.join("bin/dunecheck"))
            .args(["one", p.id, &si.to_string(), &size.to_string(), w.to_str().unwrap(), kind, &val, rec.to_str().unwrap(), if self.draw { "draw" } else { "run" }])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(errf)
            .status();
        let _ = fs::remove_dir_all(&w);
        let st = match st {
            Ok(s) => s,
            Err(e) => return One::Error(e.to_string()),
        };
        if let Some(sig) = st.signal() {
            let err = fs::read_to_string(self.scratch.join("one.err")).unwrap_or_default();
            if sig == libc::SIGXCPU || (sig == libc::SIGKILL && p.cpu_limit.is_some()) {
                return One::CpuLimit;
            }
            if err.contains("memory allocation of") || sig == libc::SIGKILL {
                return One::Error(format!("out of memory: {}", err.trim()));
            }
            return One::Crash(format!("the process died from signal {}: {}", sig, err.trim().replace('\n', " ")));
        }
        let v = fs::read_to_string(&rec).ok().and_then(|t| json::parse(&t).ok()).unwrap_or(JsonValue::Null);
        match st.code() {
            Some(0) | Some(11) => One::Pass,
            Some(10) => One::Violation(v["case"].to_string(), v["message"].to_string()),
            c => One::Error(format!("child exited with {:?}: {}", c, v)),
        }
    }
}

// ---------------------------------------------------------------- check

fn cpu_secs(pid: u32) -> f64 {
    let Ok(t) = fs::read_to_string(format!("/proc/{}/stat", pid)) else { return 0.0 };
    let Some(i) = t.rfind(')') else { return 0.0 };
    let f: Vec<&str> = t[i + 1..].split_whitespace().collect();
    let n = |k: usize| f.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

struct W {
    child: Child,
    shard: u64,
    done: bool,
    last: [u64; 2],
    cpu_at_start: f64,
    wall_at_start: Instant,
}

fn read_journal(sc: &Scratch, shard: u64) -> Option<[u64; 2]> {
    let b = fs::read(sc.0.join(format!("j{}", shard))).ok()?;
    if b.len() < 16 {
        return None;
    }
    let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    Some([g(0), g(8)])
}

pub fn check(id: &str) -> i32 {
    let start = Instant::now();
    let p = find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let sc = Scratch::new();
    let root = verif_root();
    let _ = fs::create_dir_all(root.join("evidence"));
    let _ = fs::remove_file(root.join("evidence").join(format!("{}.json", id)));

    let mut ws: Vec<W> = (0..WORKERS)
        .map(|k| {
            sc.worker_dir(&format!("w{}", k));
            let errf = fs::File::create(sc.0.join(format!("e{}", k))).unwrap();
            let child = Command::new(sc.0.join("bin/dunecheck"))
                .args(["worker", id, &k.to_string(), &seed.to_string(), &tier, sc.0.to_str().unwrap()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(errf)
                .spawn()
                .expect("spawn worker");
            W { child, shard: k, done: false, last: [u64::MAX; 2], cpu_at_start: 0.0, wall_at_start: Instant::now() }
        })
        .collect();

    let mut failure: Option<JsonValue> = None;
    let mut error: Option<String> = None;
    let limit = Duration::from_secs(if tier == "thorough" { 4 * 3600 } else { 780 });
    let mut suspects: Vec<([u64; 2], &'static str)> = vec![];
    'poll: loop {
        let mut running = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            match w.child.try_wait().expect("wait") {
                None => {
                    running = true;
                    if let Some(j) = read_journal(&sc, w.shard) {
                        if j != w.last {
                            w.last = j;
                            w.cpu_at_start = cpu_secs(w.child.id());
                            w.wall_at_start = Instant::now();
                        } else if let Some(c) = p.cpu_limit {
                            if cpu_secs(w.child.id()) - w.cpu_at_start > c as f64 {
                                suspects.push((j, "cpu"));
                                break 'poll;
                            }
                        }
                    }
                }
                Some(st) => {
                    w.done = true;
                    if let Some(sig) = st.signal() {
                        let err = fs::read_to_string(sc.0.join(format!("e{}", w.shard))).unwrap_or_default();
                        if err.contains("memory allocation of") || sig == libc::SIGKILL {
                            error = Some(format!("worker ran out of memory or was killed: {} at {:?}", err.trim(), read_journal(&sc, w.shard)));
                            break 'poll;
                        }
                        if let Some(j) = read_journal(&sc, w.shard) {
                            suspects.push((j, "crash"));
                            break 'poll;
                        }
                        error = Some(format!("worker died from signal {}", sig));
                        break 'poll;
                    }
                    let v = fs::read_to_string(sc.0.join(format!("r{}", w.shard))).ok().and_then(|t| json::parse(&t).ok());
                    match v {
                        Some(v) if v["error"].is_string() => {
                            error = Some(v["error"].to_string());
                            break 'poll;
                        }
                        Some(v) if v["failure"].is_object() => {
                            failure = Some(v["failure"].clone());
                            break 'poll;
                        }
                        Some(_) => {}
                        None => {
                            let err = fs::read_to_string(sc.0.join(format!("e{}", w.shard))).unwrap_or_default();
                            error = Some(format!("worker {} gave no result: {}", w.shard, err));
                            break 'poll;
                        }
                    }
                }
            }
        }
        if !running {
            break;
        }
        if start.elapsed() > limit {
            let at: Vec<String> = ws.iter().filter(|w| !w.done).map(|w| format!("{:?}", read_journal(&sc, w.shard))).collect();
            error = Some(format!("time is up; still running (sub, case): {}", at.join(" ")));
            break;
        }
        std::thread::sleep(Duration::from_millis(40));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }

    // A crash or a case that does not end: confirm it in fresh children, then shrink it.
    if let Some((j, kind)) = suspects.first().cloned() {
        let mut one = OneRunner { scratch: sc.0.clone(), n: 0, draw: false };
        let si = j[0] as usize;
        let n = count(&p.subs[si], &tier);
        let size = case_size(j[1], n);
        let cs = case_seed(seed, &p, si, j[1]);
        let a = one.run(&sc, &p, si, size, Ok(cs));
        match a {
            One::Crash(m) => {
                let (rec, _) = draw(&mut one, &sc, &p, si, size, Ok(cs));
                let deadline = Instant::now() + Duration::from_secs(120);
                let best = shrink(rec, 400, |c| {
                    if Instant::now() > deadline {
                        return None;
                    }
                    match one.run(&sc, &p, si, size, Err(c)) {
                        One::Crash(_) => Some(c.to_vec()),
                        _ => None,
                    }
                });
                let (_, text) = draw(&mut one, &sc, &p, si, size, Err(&best));
                failure = Some(failure_json(&p, si, size, &best, &text, &m));
            }
            One::CpuLimit => {
                let (rec, text) = draw(&mut one, &sc, &p, si, size, Ok(cs));
                failure = Some(failure_json(&p, si, size, &rec, &text, &format!("no answer within {} CPU seconds", p.cpu_limit.unwrap_or(0))));
            }
            One::Violation(case, m) => {
                let mut f = failure_json(&p, si, size, &[], &case, &m);
                f["case_seed"] = cs.to_string().into();
                failure = Some(f);
            }
            One::Pass => error = Some(format!("worker {} in sub {} case {} which passes alone", kind, p.subs[si].name, j[1])),
            One::Error(e) => error = Some(format!("while confirming a {}: {}", kind, e)),
        }
    }

    // Collect.
    let mut ev = 0u64;
    let mut disc = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_sub: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in &ws {
        if let Ok(b) = fs::read(sc.0.join(format!("h{}", w.shard))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let Some(v) = fs::read_to_string(sc.0.join(format!("r{}", w.shard))).ok().and_then(|t| json::parse(&t).ok()) else { continue };
        ev += v["evaluations"].as_u64().unwrap_or(0);
        disc += v["discards"].as_u64().unwrap_or(0);
        for (k, c) in v["labels"].entries() {
            *labels.entry(k.into()).or_default() += c.as_u64().unwrap_or(0);
        }
        for (k, c) in v["per_sub"].entries() {
            *per_sub.entry(k.into()).or_default() += c.as_u64().unwrap_or(0);
        }
        for (k, c) in v["known"].entries() {
            *known_seen.entry(k.into()).or_default() += c.as_u64().unwrap_or(0);
        }
        if w.shard < 3 {
            for s in v["samples"].members() {
                samples.push(s.to_string());
            }
        }
    }
    let total: u64 = p.subs.iter().map(|s| count(s, &tier)).sum();
    let mut lab = JsonValue::new_object();
    for (k, c) in &labels {
        lab[k.as_str()] = (*c).into();
    }
    let mut ps = JsonValue::new_object();
    for (k, c) in &per_sub {
        ps[k.as_str()] = (*c).into();
    }
    let mut ks = JsonValue::new_object();
    for (k, c) in &known_seen {
        ks[k.as_str()] = (*c).into();
    }
    if let Some(f) = &failure {
        samples.push(format!("FAILING {}: {}", f["sub"], f["case"]));
    }
    let evidence = object! {
        property: id,
        tier: tier.clone(),
        seed: seed,
        level: "exploration",
        coverage: {
            evaluations: ev,
            distinct_nontrivial: hashes.len() as u64,
            rule: p.rule,
            planned: total,
            discarded: disc,
            cases_per_check: ps,
            case_classes: lab,
            known_findings_excluded: ks,
            samples: samples,
        },
        assumptions: p.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        wall_s: start.elapsed().as_secs_f64(),
        violations: if failure.is_some() { 1 } else { 0 },
    };
    fs::write(root.join("evidence").join(format!("{}.json", id)), evidence.pretty(1)).expect("write evidence");

    if let Some(f) = failure {
        let dir = root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", id, hash_str(&f.dump())));
        fs::write(&path, f.pretty(1)).expect("write replay");
        println!("{}: {}", f["sub"], f["message"]);
        println!("case: {}", f["case"]);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR property={} {}", id, e);
        return 3;
    }
    for (sig, what) in known_findings(id) {
        println!("KNOWN-FINDING: property={} {} [{}; met {} times]", id, what, sig, known_seen.get(&sig).copied().unwrap_or(0));
    }
    println!("OK property={} evaluations={} distinct_nontrivial={} discarded={} wall={:.1}s", id, ev, hashes.len(), disc, start.elapsed().as_secs_f64());
    0
}

/// The choices and the text of a case, drawn in a child that stops before the code under
/// test runs (`Cx::go`).
fn draw(one: &mut OneRunner, sc: &Scratch, p: &Prop, si: usize, size: u64, from: Result<u64, &[u64]>) -> (Vec<u64>, String) {
    one.draw = true;
    let _ = one.run(sc, p, si, size, from);
    one.draw = false;
    let v = fs::read_to_string(sc.0.join("one.rec")).ok().and_then(|t| json::parse(&t).ok()).unwrap_or(JsonValue::Null);
    let choices = v["choices"].members().map(|c| c.as_str().and_then(|s| s.parse().ok()).unwrap_or(0)).collect();
    (choices, v["case"].as_str().unwrap_or("").to_string())
}

/// Run the case of a replay file again.
pub fn replay(path: &str) -> i32 {
    let Ok(t) = fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let v = json::parse(&t).expect("replay file");
    let id = v["property"].to_string();
    let p = find(&id);
    let Some(si) = p.subs.iter().position(|s| v["sub"] == s.name) else {
        eprintln!("no such check: {}", v["sub"]);
        return 2;
    };
    let size = v["size"].as_u64().unwrap_or(0);
    let choices: Vec<u64> = v["choices"].members().map(|c| c.as_str().and_then(|s| s.parse().ok()).unwrap_or(0)).collect();
    let sc = Scratch::new();
    let mut one = OneRunner { scratch: sc.0.clone(), n: 0, draw: false };
    let r = if choices.is_empty() && v["case_seed"].is_string() {
        one.run(&sc, &p, si, size, Ok(v["case_seed"].as_str().unwrap().parse().unwrap_or(0)))
    } else {
        one.run(&sc, &p, si, size, Err(&choices))
    };
    drop(sc);
    match r {
        One::Pass => {
            println!("OK: the case passes");
            0
        }
        One::Violation(c, m) => {
            println!("{}\ncase: {}\nVIOLATION property={} replay={}", m, c, id, path);
            1
        }
        One::Crash(m) => {
            println!("{}\ncase: {}\nVIOLATION property={} replay={}", m, v["case"], id, path);
            1
        }
        One::CpuLimit => {
            println!("no answer\ncase: {}\nVIOLATION property={} replay={}", v["case"], id, path);
            1
        }
        One::Error(e) => {
            eprintln!("{}", e);
            2
        }
    }
}
