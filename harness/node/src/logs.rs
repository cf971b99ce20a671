//! Keeps what the nodes log, for the details of a violation and for debugging. Nothing is judged by it.
use actix::sim;
use std::cell::RefCell;
use std::collections::VecDeque;
thread_local! { static LINES: RefCell<VecDeque<String>> = const { RefCell::new(VecDeque::new()) }; }
struct L(bool);
impl log::Log for L {
    fn enabled(&self, m: &log::Metadata<'_>) -> bool {
        m.level() <= log::max_level()
    }
    fn log(&self, r: &log::Record<'_>) {
        if !r.target().starts_with("witnet") {
            return;
        }
        let s = format!("[{:?}] n{} {} {}: {}", crate::clock::try_now(), sim::node(), r.level(), r.target(), r.args());
        if self.0 {
            eprintln!("{s}");
        }
        let _ = LINES.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                l.push_back(s);
                if l.len() > 400 {
                    l.pop_front();
                }
            }
        });
    }
    fn flush(&self) {}
}
pub fn install() {
    let lv = std::env::var("NODE_LOG").ok();
    let _ = log::set_boxed_logger(Box::new(L(lv.is_some())));
    log::set_max_level(match lv.as_deref() {
        Some("trace") => log::LevelFilter::Trace,
        Some("debug") => log::LevelFilter::Debug,
        Some("info") => log::LevelFilter::Info,
        _ => log::LevelFilter::Warn,
    });
}
pub fn tail(n: usize) -> String {
    LINES.with(|l| {
        let l = l.borrow();
        l.iter().skip(l.len().saturating_sub(n)).cloned().collect::<Vec<_>>().join("\n    ")
    })
}
