//! What the shell says of its surroundings: the time, directories, the system and itself.

use crate::engine::*;
use crate::props::lib::{go, judge, Want};
use crate::val::Prog;
use crate::sut;
use crate::{ensure, fail, gen};
use dune::Expression as E;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C44",
        rule: "time@now at any second from 1970 to 2199 (often at the edges of hours, days, months and years) in time zones of any offset, with and without summer time; time@sleep for numbers and other values, its length measured; and starts of the shell with any user directories, system, and place of its own program. Non-trivial: the zone is not UTC; something is waited for; or a directory or the system is described.",
        subs: &[
            Sub { name: "now", quick: 60_000, thorough: 3_000_000, f: now },
            Sub { name: "sleep", quick: 1_200, thorough: 20_000, f: sleep },
            Sub { name: "places", quick: 2_000, thorough: 40_000, f: places },
        ],
        cpu_limit: None,
        assumptions: &["The clock of the system is replaced by one that stands still; the C library finds the rules of summer time.", "The system is described by the program lsb_release of PATH, as on most systems."],
    }]
}

// ---------------------------------------------------------------- the clock

/// Seconds since 1970 that the clock shows; -1 for the real ones.
pub static CLOCK: AtomicI64 = AtomicI64::new(-1);

extern "C" {
    pub fn tzset();
}

/// Takes the place of the function of the C library.
#[no_mangle]
pub extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let fake = CLOCK.load(Ordering::SeqCst);
    if id == libc::CLOCK_REALTIME && fake >= 0 {
        unsafe {
            (*t).tv_sec = fake;
            (*t).tv_nsec = 999_999_999;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int }
}

pub fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn month_days(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Year, month, day of a number of days since 1970, counted off one by one.
fn date(mut d: i64) -> (i64, i64, i64) {
    let mut y = 1970;
    while d < 0 {
        y -= 1;
        d += 365 + leap(y) as i64;
    }
    while d >= 365 + leap(y) as i64 {
        d -= 365 + leap(y) as i64;
        y += 1;
    }
    let mut m = 1;
    while d >= month_days(y, m) {
        d -= month_days(y, m);
        m += 1;
    }
    (y, m, d + 1)
}
pub fn day_number(y: i64, m: i64, d: i64) -> i64 {
    (1970..y).map(|y| 365 + leap(y) as i64).sum::<i64>() + (1..m).map(|m| month_days(y, m)).sum::<i64>() + d - 1
}

fn now(s: &mut Src, cx: &mut Cx) -> R {
    let (y, m) = (s.range(1970, 2199), s.range(1, 12));
    let d = if s.chance(1, 3) { *s.pick(&[1, month_days(y, m)]) } else { s.range(1, month_days(y, m)) };
    let of_day = if s.chance(1, 2) { *s.pick(&[0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 46799, 46800, 82800, 86399]) } else { s.range(0, 86399) };
    let (tz, offset) = match s.below(6) {
        0 => ("UTC".to_string(), Some(0)),
        1 => (s.pick(&["CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3"]).to_string(), None),
        _ => {
            let (h, mi) = (s.range(-12, 14), *s.pick(&[0, 0, 0, 30, 45]));
            let sign = if h < 0 { '+' } else { '-' };
            let o = (h.abs() * 60 + mi) * 60 * if h < 0 { -1 } else { 1 };
            (format!("<xyz>{}{}:{:02}", sign, h.abs(), mi), Some(o))
        }
    };
    let t = (day_number(y, m, d) * 86400 + of_day - offset.unwrap_or(0)).max(0);
    let mut p = Prog::new();
    p.text = s.pick(&["time@now ()", "let n = time@now (); n", "(time@now) 1"]).to_string();
    let field = *s.pick(&["", "", "@year", "@month", "@day", "@hour", "@time@str", "@date@str", "@time", "@date"]);
    if !field.is_empty() {
        p.text = format!("let n = time@now (); n{}", field);
    }
    cx.nontrivial(offset != Some(0));
    cx.go(format!("{}   # at {} in TZ={}", p.text, t, tz))?;

    std::env::set_var("TZ", &tz);
    unsafe { tzset() };
    let local = match offset {
        Some(o) => t + o,
        None => unsafe {
            let mut tm: libc::tm = std::mem::zeroed();
            libc::localtime_r(&t, &mut tm);
            t + tm.tm_gmtoff
        },
    };
    CLOCK.store(t, Ordering::SeqCst);
    let out = p.run();
    CLOCK.store(-1, Ordering::SeqCst);
    let (y, m, d) = date(local.div_euclid(86400));
    let of_day = local.rem_euclid(86400);
    let (h, mi) = (of_day / 3600, of_day / 60 % 60);
    let st = |t: String| E::String(t);
    let map = |k: &str, v: E| E::Map(BTreeMap::from([(k.to_string(), v)]));
    let time = st(format!("{}:{:02} {}", if h % 12 == 0 { 12 } else { h % 12 }, mi, if h < 12 { "AM" } else { "PM" }));
    let day = st(format!("{:02}/{:02}/{:02}", m, d, y % 100));
    let want = match field {
        "@year" => E::Integer(y),
        "@month" => E::Integer(m),
        "@day" => E::Integer(d),
        "@hour" => E::Integer(h),
        "@time@str" => time,
        "@date@str" => day,
        "@time" => map("str", time),
        "@date" => map("str", day),
        _ => E::Map(BTreeMap::from([
            ("year".to_string(), E::Integer(y)),
            ("month".to_string(), E::Integer(m)),
            ("day".to_string(), E::Integer(d)),
            ("hour".to_string(), E::Integer(h)),
            ("time".to_string(), map("str", time)),
            ("date".to_string(), map("str", day)),
        ])),
    };
    ensure!(out.val() == Some(&want), "at {}-{:02}-{:02} {:02}:{:02} local time {} gives {} instead of {:?}", y, m, d, h, mi, p.text, out.show(), want);
    Ok(())
}

fn sleep(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 4) {
        let v = s.pick(&[E::String("5".into()), E::None, E::Boolean(true), E::List(vec![E::Integer(1)].into()), E::Map(BTreeMap::new())]).clone();
        let n = s.below(3);
        let args = if n == 0 { vec![E::Integer(0), E::Integer(1)] } else { vec![v] };
        return go(s, cx, "time@sleep", args, Want::Fails, false);
    }
    let v = match s.below(6) {
        0 => E::Integer(s.range(-5000, 0)),
        1 => E::Float(-(s.range(0, 1_000_000) as f64) / 7.0),
        2 => E::Float(s.range(0, 400) as f64 / 10.0),
        3 => E::Integer(*s.pick(&[i64::MIN, -1, 0, 1])),
        _ => E::Integer(s.range(0, 40)),
    };
    let ms = match v {
        E::Integer(n) => n.max(0) as u64,
        E::Float(x) => x.max(0.0) as u64,
        _ => 0,
    };
    let mut p = Prog::new();
    let a = p.arg(s, &v);
    let twice = s.bool();
    p.text = if twice { format!("time@sleep {}; time@sleep {}", a, a) } else { format!("time@sleep {}", a) };
    cx.nontrivial(ms > 0);
    cx.go(p.show())?;
    let mut best = Duration::MAX;
    let least = Duration::from_millis(ms * (1 + twice as u64));
    for _ in 0..3 {
        let t = Instant::now();
        let out = p.run();
        let took = t.elapsed();
        judge(&p, &out, &Want::V(E::None))?;
        ensure!(took >= least, "{} takes only {:?}", p.show(), took);
        best = best.min(took);
        // A busy machine wakes late.
        if took < least + Duration::from_secs(2) {
            return Ok(());
        }
    }
    fail!("{} takes {:?}", p.show(), best)
}

// ---------------------------------------------------------------- places

const SYSTEMS: &[(&str, &str, &str)] = &[
    ("Arch", "arch", "linux"),
    ("CentOS", "centos", "linux"),
    ("Debian", "debian", "linux"),
    ("EndeavourOS", "endeavouros", "linux"),
    ("Fedora", "fedora", "linux"),
    ("Linuxmint", "mint", "linux"),
    ("ManjaroLinux", "manjaro", "linux"),
    ("openSUSE", "opensuse", "linux"),
    ("OracleServer", "oraclelinux", "linux"),
    ("Pop", "pop", "linux"),
    ("RedHatEnterprise", "redhatenterprise", "linux"),
    ("RedHatEnterpriseServer", "redhatenterprise", "linux"),
    ("Solus", "solus", "linux"),
    ("SUSE", "suse", "linux"),
    ("Ubuntu", "ubuntu", "linux"),
    ("Amazon", "amazon", "linux"),
    ("AmazonAMI", "amazon", "linux"),
    ("SomethingElse", "linux", "linux"),
];

fn places(s: &mut Src, cx: &mut Cx) -> R {
    let home = s.pick(&["home", "h/me", "ho me", "h\u{e9}"]).to_string();
    // The directories of the user, as in the file user-dirs.dirs.
    let mut dirs: BTreeMap<&str, String> = BTreeMap::new();
    let mut conf = String::new();
    let with_conf = s.chance(4, 5);
    if with_conf {
        for (name, key) in [("DESKTOP", "desk"), ("DOCUMENTS", "docs"), ("DOWNLOAD", "down"), ("MUSIC", "")] {
            if s.chance(1, 4) {
                conf.push_str(s.pick(&["# a comment\n", "\n", "XDG_NONSENSE\n", "#XDG_DESKTOP_DIR=\"$HOME/no\"\n"]));
            }
            if s.chance(1, 4) {
                continue;
            }
            let dir = s.pick(&["Desktop", "a b", "x/y", "\u{65e5}\u{672c}", "D"]).to_string();
            if s.bool() {
                conf.push_str(&format!("XDG_{}_DIR=\"$HOME/{}\"\n", name, dir));
                dirs.insert(key, format!("{{home}}/{}", dir));
            } else {
                conf.push_str(&format!("XDG_{}_DIR=\"/abs/{}\"\n", name, dir));
                dirs.insert(key, format!("/abs/{}", dir));
            }
        }
    }
    dirs.remove("");
    dirs.insert("home", "{home}".into());
    let system = *s.pick(SYSTEMS);
    let release = s.pick(&["22.04", "8", "36", "rolling", "9.1"]).to_string();
    let prelude = s.bool();
    let elsewhere = s.chance(1, 4);
    let cd = s.chance(1, 4);
    cx.nontrivial(true);
    cx.go(format!("user-dirs.dirs {:?}, system {} {}, HOME {:?}{}{}{}", conf, system.0, release, home, if prelude { ", a prelude" } else { "" }, if elsewhere { ", started elsewhere" } else { "" }, if cd { ", after cd" } else { "" }))?;

    sut::clean_cwd();
    let base = sut::cwd_dir().canonicalize().unwrap();
    let h = base.join(&home);
    std::fs::create_dir_all(h.join(".config")).unwrap();
    std::fs::create_dir_all(base.join("bin")).unwrap();
    if with_conf {
        std::fs::write(h.join(".config/user-dirs.dirs"), &conf).unwrap();
    }
    if prelude {
        std::fs::write(h.join(".dune-prelude"), "1 // 0").unwrap();
    }
    let lsb = base.join("bin/lsb_release");
    std::fs::write(&lsb, format!("#!/bin/sh\necho 'No LSB modules are available.' >&2\necho 'Distributor ID:\t{}'\necho 'Description:\tA system'\necho 'Release:\t{}'\necho 'Codename:\tn/a'\n", system.0, release)).unwrap();
    std::fs::set_permissions(&lsb, std::fs::Permissions::from_mode(0o755)).unwrap();
    let at = if elsewhere { base.join("bin") } else { h.clone() };
    let exe = sut::bin_dir().join("dunesh");
    let items: Vec<&str> = vec!["HOME", "fs@dirs@home", "fs@dirs@desk", "DESK", "fs@dirs@docs", "DOCS", "fs@dirs@down", "DOWN", "os@name", "os@family", "os@version", "shell@prelude", "shell@path", "CWD"];
    let mut prog = String::new();
    if cd {
        prog.push_str("cd \"/\";\n");
    }
    for i in &items {
        prog.push_str(&format!("println {} (str {});\n", gen::quote(&format!("{}=", i)), i));
    }
    let mut c = Command::new(&exe);
    c.env_clear().env("HOME", &h).env("PATH", base.join("bin")).current_dir(&at).args(["-x", &prog]);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
    let (r, stuck) = sut::watched(30, || c.output().unwrap());
    let result = (|| {
        ensure!(!stuck, "the shell never ends");
        let (out, err) = (String::from_utf8_lossy(&r.stdout).into_owned(), String::from_utf8_lossy(&r.stderr).into_owned());
        ensure!(r.status.code() == Some(0) && err.is_empty(), "the shell ends with {:?}, the errors are {:?}", r.status, err);
        let lines: Vec<&str> = out.lines().collect();
        ensure!(lines.len() == items.len(), "the shell prints {:?}", out);
        let hs = h.to_str().unwrap();
        for (i, line) in items.iter().zip(lines) {
            let dir = |k: &str| dirs.get(k).map(|d| d.replace("{home}", hs));
            let want = match *i {
                "HOME" => hs.to_string(),
                "DESK" | "DOCS" | "DOWN" => dir(&i.to_lowercase()).unwrap_or(i.to_string()),
                "os@name" => system.1.into(),
                "os@family" => system.2.into(),
                "os@version" => match release.as_str() {
                    "rolling" => "Rolling Release".into(),
                    r => r.to_string(),
                },
                "shell@prelude" if prelude => h.join(".dune-prelude").to_str().unwrap().into(),
                "shell@prelude" => "None".into(),
                "shell@path" => exe.canonicalize().unwrap().to_str().unwrap().into(),
                "CWD" => if cd { "/".into() } else { at.to_str().unwrap().to_string() },
                i => dir(i.rsplit('@').next().unwrap()).unwrap_or("None".into()),
            };
            ensure!(line == format!("{}= {}", i, want), "it says {:?}, and should say {:?}", line, want);
        }
        Ok(())
    })();
    sut::clean_cwd();
    result
}
