//! A wall clock that can be set while the code under test looks at it.
use std::cell::Cell;
thread_local! {
    static OFFSET: Cell<i64> = const { Cell::new(0) };
    static EACH: Cell<bool> = const { Cell::new(false) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static LOOKED: Cell<u64> = const { Cell::new(0) };
}
/// From its second reading on in this thread, the clock is this many seconds off (once more at every reading if `each`).
pub fn set(seconds: i64, each: bool) {
    OFFSET.set(seconds);
    EACH.set(each);
    LOOKED.set(0);
    ON.set(true);
}
/// How often the clock showed another time than it is.
pub fn reset() -> u64 {
    ON.set(false);
    LOOKED.get().saturating_sub(1)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int;
    if id == libc::CLOCK_REALTIME && r == 0 && ON.try_with(Cell::get).unwrap_or(false) {
        let n = LOOKED.get();
        LOOKED.set(n + 1);
        if n > 0 {
            let by = if EACH.get() { OFFSET.get() * n as i64 } else { OFFSET.get() };
            (*t).tv_sec += by;
        }
    }
    r
}
