//! C51, C52: the clock corrected by time servers, and files for secrets.
use std::cell::RefCell;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::time::Duration;
use vmon::{Case, Mon};
use witnet_util::timestamp as ts;

use crate::clock;

const SINCE_1900: i64 = 2_208_988_800;
fn nanos(t: (i64, u32)) -> i128 {
    i128::from(t.0) * 1_000_000_000 + i128::from(t.1)
}
fn instant(r: &mut vmon::Rng) -> (i64, u32) {
    let s = match r.below(6) {
        0 => 1_700_000_000,
        1 => r.below(5) as i64,
        2 => (1i64 << 31) - 2 + r.below(4) as i64,
        3 => i64::from(u32::MAX) - SINCE_1900 - r.below(3) as i64,
        _ => 1_600_000_000 + r.below(400_000_000) as i64,
    };
    let n = match r.below(4) {
        0 => 0,
        1 => 999_999_999,
        _ => r.below(1_000_000_000) as u32,
    };
    (s, n)
}
fn servers(c: &mut Case) {
    // the offset is the program's: start from a known one
    let base = (1_700_000_000i64, 0u32);
    clock::set(base.0, base.1);
    ntp::serve(Some(Box::new(move |_| Ok(((base.0 + SINCE_1900) as u32, 0)))));
    ts::update_global_timestamp("start:123");
    let mut diff: i128 = 0;
    let mut before = base;
    for _ in 0..(1 + c.rng.idx(8)) {
        let local = instant(&mut c.rng);
        clock::set(local.0, local.1);
        // local time shown just before an update may not have gone below the correction in force
        let kind = c.rng.below(6);
        let mut reply = None;
        let what;
        match kind {
            0 => {
                ntp::serve(Some(Box::new(|_| Err(std::io::Error::other("no answer")))));
                what = "no answer".to_string();
                c.event("unreachable");
            }
            1 => {
                // a server that does not know the time: zero, or before 1970
                let s = *c.rng.pick(&[0u32, 0, 1, SINCE_1900 as u32 - 1, 1_000_000_000]);
                ntp::serve(Some(Box::new(move |_| Ok((s, 0)))));
                what = format!("answer {s} s after 1900");
                c.event("before_1970");
            }
            _ => {
                let (s, _) = instant(&mut c.rng);
                let s = s.min(i64::from(u32::MAX) - SINCE_1900);
                let f = c.rng.edgy_u32();
                let sec = (s + SINCE_1900) as u32;
                ntp::serve(Some(Box::new(move |a| if a == "pool:123" { Ok((sec, f)) } else { Err(std::io::Error::other("asked someone else")) })));
                let t = ntp::unix_time::Instant::from(ntp::TimestampFormat { sec, frac: f });
                let t = (t.secs(), t.subsec_nanos() as u32);
                what = format!("answer {t:?}");
                // a fraction that rounds to a whole second is the shim's and the crate's own affair
                if t.1 >= 1_000_000_000 {
                    continue;
                }
                reply = Some(t);
            }
        }
        let Some(()) = c.nopanic("update", || format!("update_global_timestamp at {local:?} with {what}"), || ts::update_global_timestamp("pool:123")) else {
            return;
        };
        if let Some(t) = reply {
            diff = nanos(t) - nanos(local);
            before = local;
            c.event(if diff >= 0 { "ahead" } else { "behind" });
        }
        // later (or earlier, but not before 1970 once corrected)
        let mut now = before;
        for _ in 0..3 {
            if c.rng.chance(1, 2) {
                now = (now.0 + c.rng.below(100_000) as i64, c.rng.below(1_000_000_000) as u32);
                if nanos(now) < nanos(before) {
                    now = before;
                }
            }
            clock::set(now.0, now.1);
            let Some(got) = c.nopanic("now", || format!("the time at {now:?} with correction {diff} ns"), ts::get_timestamp_nanos) else {
                return;
            };
            c.eqd("corrected", &nanos(got), &(nanos(now) + diff), || format!("the time when the local clock shows {now:?}, last heard: {what}"));
            c.check(got.1 < 1_000_000_000, "nanos", || format!("{got:?}"));
            c.eqd("seconds", &ts::get_timestamp(), &got.0, || "get_timestamp".into());
            c.eqd("local", &ts::get_local_timestamp(), &now, || "get_local_timestamp".into());
            // waiting for a moment
            let to = if c.rng.bool() { instant(&mut c.rng) } else { (got.0 + c.rng.below(5) as i64 - 2, c.rng.below(1_000_000_000) as u32) };
            if to.0 >= 0 {
                let want = u64::try_from(nanos(to) - nanos(got)).ok().map(Duration::from_nanos);
                c.eqd("until", &ts::duration_until_timestamp(to.0, to.1), &want, || format!("time to wait from {got:?} to {to:?}"));
                c.eqd("between", &ts::duration_between_timestamps(got, to), &want, || format!("time from {got:?} to {to:?}"));
                c.event(if want.is_some() { "future" } else { "past" });
            }
            c.eval(5);
        }
    }
    clock::real();
    ntp::serve(None);
    c.nontrivial(&(diff, before));
}
fn human(c: &mut Case) {
    let x = match c.rng.below(4) {
        0 => c.rng.below(200),
        1 => c.rng.below(100_000),
        2 => 31_557_600 - 2 + c.rng.below(4),
        _ => c.rng.below(2_600_000),
    };
    let s = ts::seconds_to_human_string(x);
    if x < 2_600_000 {
        let mut sum = 0;
        for t in s.split(' ') {
            let n: u64 = t.chars().take_while(char::is_ascii_digit).collect::<String>().parse().unwrap_or(u64::MAX / 100_000);
            sum += n * match t.trim_start_matches(|d: char| d.is_ascii_digit()) {
                "day" | "days" => 86_400,
                "h" => 3600,
                "m" => 60,
                "s" => 1,
                _ => 0,
            };
        }
        c.eqd("human", &sum, &x, || format!("{x} s shown as {s}"));
        c.event("human");
    }
}
pub fn time(m: &mut Mon) {
    m.rule("exact arithmetic in nanoseconds: corrected time = local time + (last server time that made sense - local time then); waits are exact or None");
    m.assume("the server's answers are as the ntp crate hands them over (its own panic on a fraction before 1970 is out of reach); the local clock is not set back below the moment of the last answer");
    let n = m.n(60_000, 1_000_000);
    m.run("servers", n, servers);
    let n = m.n(20_000, 200_000);
    m.run("human", n, human);
    for e in ["unreachable", "before_1970", "ahead", "behind", "future", "past", "human"] {
        m.require(e, 500);
    }
}

// ---- private files: every way to open a file goes by here
thread_local! {
    static WATCH: RefCell<Option<(Vec<u8>, Vec<(String, u32, i64)>)>> = const { RefCell::new(None) };
}
unsafe fn opened(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
    let fd = libc::syscall(libc::SYS_openat, dir, path, flags, mode) as libc::c_int;
    if fd >= 0 {
        look("open", path, fd);
    } else {
        // errno is set by syscall
    }
    fd
}
unsafe fn look(how: &str, path: *const libc::c_char, fd: libc::c_int) {
    let _ = WATCH.try_with(|w| {
        if let Ok(mut w) = w.try_borrow_mut() {
            if let Some((p, log)) = w.as_mut() {
                if path.is_null() || std::ffi::CStr::from_ptr(path).to_bytes().starts_with(p) {
                    let mut st: libc::stat = std::mem::zeroed();
                    if libc::syscall(libc::SYS_fstat, fd, &mut st) == 0 {
                        log.push((how.to_string(), st.st_mode & 0o7777, st.st_size));
                    }
                }
            }
        }
    });
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
    opened(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
    opened(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
    opened(dir, path, flags, mode)
}
fn private(c: &mut Case, dir: &std::path::Path) {
    let path = dir.join(format!("k{}", c.rng.u64()));
    let mask = *c.rng.pick(&[0u32, 0o002, 0o022, 0o027, 0o077, 0o007]);
    let was = match c.rng.below(3) {
        0 => {
            let m = *c.rng.pick(&[0o644u32, 0o666, 0o600, 0o640, 0o777, 0o606]);
            std::fs::write(&path, b"old contents").unwrap();
            std::fs::set_permissions(&path, std::fs::Permissions::from_mode(m)).unwrap();
            Some(m)
        }
        _ => None,
    };
    let old = unsafe { libc::umask(mask) };
    WATCH.set(Some((path.as_os_str().as_bytes().to_vec(), vec![])));
    let r = witnet_util::files::create_private_file(&path);
    let (_, log) = WATCH.take().unwrap();
    unsafe { libc::umask(old) };
    let f = match r {
        Ok(f) => f,
        Err(e) => {
            c.violate("create", format!("umask {mask:o}, existing {was:?}: {e}"));
            return;
        }
    };
    let mode = f.metadata().unwrap().permissions().mode() & 0o7777;
    let on_disk = std::fs::metadata(&path).map(|m| (m.permissions().mode() & 0o7777, m.len()));
    c.check(mode & 0o077 == 0, "open-to-others", || format!("umask {mask:o}, existing {was:?}: mode {mode:o} when handed over"));
    c.check(mode & 0o600 == 0o600, "closed-to-owner", || format!("umask {mask:o}, existing {was:?}: mode {mode:o}"));
    c.check(on_disk.as_ref().is_ok_and(|d| d.0 & 0o077 == 0 && d.1 == 0), "on-disk", || format!("umask {mask:o}, existing {was:?}: at the path there is {on_disk:?}"));
    c.check(!log.is_empty(), "unseen", || "the file was opened in a way the monitor does not see".into());
    if was.is_none() {
        c.event("new_file");
        for (how, m, _) in &log {
            c.check(m & 0o077 == 0, "window", || format!("umask {mask:o}: right after {how} the new file had mode {m:o}: others could open it and read what is written later"));
        }
    } else {
        c.event("existing_file");
    }
    c.events("opens", log.len() as u64);
    use std::io::Write;
    let mut f = f;
    f.write_all(b"secret").unwrap();
    c.check(std::fs::read(&path).unwrap() == b"secret", "contents", || "what was written is not what is read".into());
    std::fs::remove_file(&path).unwrap();
    c.eval(6);
    c.nontrivial(&(mask, was));
}
pub fn files(m: &mut Mon) {
    m.rule("every open() is watched: from the moment a new private file exists, and when it is handed over, no one but the owner may open it");
    m.assume("a file that was there before, open in someone's hands, is outside what permissions can mend");
    let dir = std::env::temp_dir().join(format!("h_net_files_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let n = m.n(3000, 20_000);
    let d = dir.clone();
    m.run("private", n, |c| private(c, &d));
    let _ = std::fs::remove_dir_all(&dir);
    m.require("new_file", 500);
    m.require("existing_file", 300);
    m.require("opens", 1000);
}
