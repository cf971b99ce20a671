//! What the nodes draw at random comes from the case when it says so (per thread).
use std::cell::Cell;
thread_local! { static STATE: Cell<Option<u64>> = const { Cell::new(None) }; }
pub fn seed(s: Option<u64>) {
    STATE.set(s)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if let Ok(Some(mut s)) = STATE.try_with(Cell::get) {
        for k in 0..len {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = s;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *buf.cast::<u8>().add(k) = (x >> 56) as u8;
        }
        let _ = STATE.try_with(|c| c.set(Some(s)));
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}
/// Runs `f` on a thread of its own, where all that is random follows from `s`.
pub fn apart<R: Send>(s: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, move || {
                seed(Some(s));
                let r = f();
                seed(None);
                r
            })
            .expect("thread");
        match h.join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}
