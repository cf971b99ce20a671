//! Stand-in for ntp: there is no network, so a server is a function that the harness sets.
use std::cell::RefCell;
use std::io;

#[derive(Clone, Copy, Debug)]
pub struct TimestampFormat {
    /// Since 1900
    pub sec: u32,
    pub frac: u32,
}
#[derive(Clone, Debug)]
pub struct Packet {
    pub receive_timestamp: TimestampFormat,
}
type Server = Box<dyn FnMut(&str) -> io::Result<(u32, u32)>>;
thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}
/// What servers answer to this thread.
pub fn serve(f: Option<Server>) {
    SERVER.with(|s| *s.borrow_mut() = f);
}
pub fn request(addr: &str) -> io::Result<Packet> {
    SERVER.with(|s| match s.borrow_mut().as_mut() {
        Some(f) => f(addr).map(|(sec, frac)| Packet { receive_timestamp: TimestampFormat { sec, frac } }),
        None => Err(io::Error::other("no network")),
    })
}
pub mod unix_time {
    use super::TimestampFormat;
    pub const EPOCH_DELTA: i64 = 2_208_988_800;
    #[derive(Clone, Copy, Debug)]
    pub struct Instant(i64, i32);
    impl From<TimestampFormat> for Instant {
        fn from(t: TimestampFormat) -> Self {
            let secs = i64::from(t.sec) - EPOCH_DELTA;
            let nanos = (f64::from(t.frac) / f64::from(u32::MAX) * 1e9) as i32;
            // like the real one
            if secs < 0 && nanos > 0 {
                panic!("invalid instant: secs was negative but subsec_nanos was positive");
            }
            Instant(secs, nanos)
        }
    }
    impl Instant {
        pub fn secs(&self) -> i64 {
            self.0
        }
        pub fn subsec_nanos(&self) -> i32 {
            self.1
        }
    }
}
