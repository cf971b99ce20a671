//! The wall clock the nodes read: a base plus the virtual time that has passed (per thread). Real sleeps
//! end at once meanwhile.
use simtokio::time::Instant;
use std::cell::Cell;
thread_local! {
    static BASE: Cell<Option<(i128, Instant)>> = const { Cell::new(None) };
    static SKIP: Cell<bool> = const { Cell::new(false) };
}
/// Call inside the simulation: from now on the clock reads `secs` plus virtual time.
pub fn start(secs: i64, nanos: u32) {
    BASE.set(Some((i128::from(secs) * 1_000_000_000 + i128::from(nanos), Instant::now())));
    SKIP.set(true);
}
/// Back to the real time; real sleeps still end at once.
pub fn freeze() {
    BASE.set(None);
}
pub fn stop() {
    BASE.set(None);
    SKIP.set(false);
}
pub fn now() -> f64 {
    let (b, s) = BASE.get().expect("the clock is started");
    (b + s.elapsed().as_nanos() as i128) as f64 / 1e9
}
/// Moves the wall clock without time passing.
pub fn jump(by_nanos: i128) {
    if let Some((b, s)) = BASE.get() {
        BASE.set(Some((b + by_nanos, s)));
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Ok(Some((b, s))) = BASE.try_with(Cell::get) {
            let n = b + s.elapsed().as_nanos() as i128;
            (*t).tv_sec = n.div_euclid(1_000_000_000) as i64;
            (*t).tv_nsec = n.rem_euclid(1_000_000_000) as i64;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: libc::c_int, t: *const libc::timespec, r: *mut libc::timespec) -> libc::c_int {
    if SKIP.try_with(Cell::get).unwrap_or(false) {
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, id, flags, t, r) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, r: *mut libc::timespec) -> libc::c_int {
    if SKIP.try_with(Cell::get).unwrap_or(false) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, t, r) as libc::c_int
}
pub fn try_now() -> Option<f64> {
    BASE.get().map(|(b, s)| ((b + s.elapsed().as_nanos() as i128) / 1_000_000) as f64 / 1e3)
}
