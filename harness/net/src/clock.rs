//! A wall clock that stands where the harness puts it (per thread), read through the same system call.
use std::cell::Cell;
thread_local! {
    static NOW: Cell<Option<(i64, u32)>> = const { Cell::new(None) };
}
pub fn set(secs: i64, nanos: u32) {
    NOW.set(Some((secs, nanos)));
}
pub fn real() {
    NOW.set(None);
}
/// Interposed: what the standard library and chrono call.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Ok(Some((s, n))) = NOW.try_with(Cell::get) {
            (*t).tv_sec = s;
            (*t).tv_nsec = i64::from(n);
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int
}
