//! What a test needs: one system per run, on virtual time, with a seeded scheduler perturbation.
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::rc::Rc;
use std::time::Duration;

use futures_util::FutureExt;

#[derive(Default)]
pub struct Sys {
    /// one registry per simulated process
    pub(crate) registry: RefCell<HashMap<(u32, TypeId), Box<dyn Any>>>,
    pub stopped: Cell<Option<i32>>,
    /// processes that asked to stop, with the code
    pub stops: RefCell<Vec<(u32, i32)>>,
    /// the process whose code is running
    node: Cell<u32>,
    tasks: RefCell<HashMap<u32, Vec<tokio::task::AbortHandle>>>,
    /// (actor, message) -> handled
    pub handled: RefCell<BTreeMap<(&'static str, &'static str), u64>>,
    /// panics of actors, with the name of the actor
    pub panics: RefCell<Vec<(String, String)>>,
    /// the process each panic happened in
    pub panicked: RefCell<Vec<u32>>,
    /// fingerprint of the order in which messages were handled
    pub order: Cell<u64>,
    rng: Cell<u64>,
    lag_percent: Cell<u32>,
}

thread_local! {
    static CURRENT: RefCell<Option<Rc<Sys>>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&Sys) -> R) -> Option<R> {
    let s = CURRENT.with(|c| c.try_borrow().ok().and_then(|c| c.clone()));
    s.map(|s| f(&s))
}
fn next(s: &Sys) -> u64 {
    let mut x = s.rng.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
    s.rng.set(x);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}
/// How many turns an actor lets pass before it runs (0 or 1: none).
pub(crate) fn lag() -> u32 {
    with(|s| {
        let p = s.lag_percent.get();
        if p == 0 {
            return 1;
        }
        let r = next(s);
        if (r % 100) as u32 >= p { 1 } else { 2 + ((r >> 32) % 4) as u32 }
    })
    .unwrap_or(1)
}
pub(crate) fn count(actor: &'static str, msg: &'static str) {
    with(|s| {
        *s.handled.borrow_mut().entry((actor, msg)).or_insert(0) += 1;
        let mut h = s.order.get() ^ 0xcbf2_9ce4_8422_2325;
        for b in actor.bytes().chain(msg.bytes()) {
            h = (h ^ u64::from(b)).wrapping_mul(0x1000_0000_01b3);
        }
        s.order.set(h);
    });
}

pub fn spawn(f: impl Future<Output = ()> + 'static) {
    spawn_named("task", f)
}
pub fn spawn_named(name: &'static str, f: impl Future<Output = ()> + 'static) {
    let node = node();
    let h = tokio::task::spawn_local(on_node(node, async move {
        if let Err(e) = AssertUnwindSafe(f).catch_unwind().await {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_else(|| "panic".into());
            with(|s| {
                s.panics.borrow_mut().push((name.to_string(), m));
                s.panicked.borrow_mut().push(node);
            });
        }
    }));
    with(|s| {
        let mut t = s.tasks.borrow_mut();
        let v = t.entry(node).or_default();
        if v.len() > 64 && v.len().is_power_of_two() {
            v.retain(|h| !h.is_finished());
        }
        v.push(h.abort_handle());
    });
}

/// The simulated process whose code is running (0 unless told otherwise).
pub fn node() -> u32 {
    with(|s| s.node.get()).unwrap_or(0)
}
struct Back(u32);
impl Drop for Back {
    fn drop(&mut self) {
        with(|s| s.node.set(self.0));
    }
}
/// Runs `f` as code of a simulated process.
pub fn as_node<R>(n: u32, f: impl FnOnce() -> R) -> R {
    let _back = Back(node());
    with(|s| s.node.set(n));
    f()
}
struct OnNode<F>(u32, Option<std::pin::Pin<Box<F>>>);
impl<F: Future> Future for OnNode<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        let n = self.0;
        as_node(n, || self.1.as_mut().expect("polled after the end").as_mut().poll(cx))
    }
}
impl<F> Drop for OnNode<F> {
    fn drop(&mut self) {
        let f = self.1.take();
        as_node(self.0, || drop(f));
    }
}
/// A future whose code belongs to a simulated process.
pub fn on_node<F: Future>(n: u32, f: F) -> impl Future<Output = F::Output> {
    OnNode(n, Some(Box::pin(f)))
}
/// Ends a simulated process where it stands: none of its tasks runs again.
pub fn kill(n: u32) {
    let t = with(|s| s.tasks.borrow_mut().remove(&n)).flatten().unwrap_or_default();
    for h in t {
        h.abort();
    }
    let old: Vec<_> = with(|s| {
        let mut r = s.registry.borrow_mut();
        let k: Vec<_> = r.keys().filter(|(m, _)| *m == n).copied().collect();
        k.into_iter().filter_map(|k| r.remove(&k)).collect()
    })
    .unwrap_or_default();
    drop(old);
}

/// Runs `f` in a fresh system on virtual time. Everything the system started is dropped at the end.
pub fn run<F, Fut, R>(seed: u64, lag_percent: u32, f: F) -> (R, Rc<Sys>)
where
    F: FnOnce() -> Fut,
    Fut: Future<Output = R>,
{
    let sys = Rc::new(Sys::default());
    sys.rng.set(seed);
    sys.lag_percent.set(lag_percent);
    CURRENT.with(|c| *c.borrow_mut() = Some(sys.clone()));
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            let old = CURRENT.with(|c| c.borrow_mut().take());
            if let Some(o) = old {
                let reg = std::mem::take(&mut *o.registry.borrow_mut());
                drop(reg);
            }
        }
    }
    let _reset = Reset;
    let rt = runtime();
    let local = tokio::task::LocalSet::new();
    let out = local.block_on(&rt, async move { f().await });
    drop(local);
    drop(rt);
    (out, sys)
}

/// Lets virtual time pass.
pub async fn advance(d: Duration) {
    tokio::time::sleep(d).await
}
/// Lets everything that can run without time passing run.
pub async fn settle(turns: usize) {
    for _ in 0..turns {
        tokio::task::yield_now().await;
    }
}

thread_local! {
    static INSTALLED: RefCell<Option<(tokio::task::LocalSet, tokio::runtime::Runtime)>> = const { RefCell::new(None) };
}
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime")
}
pub(crate) fn install() {
    CURRENT.with(|c| *c.borrow_mut() = Some(Rc::new(Sys::default())));
    INSTALLED.with(|i| *i.borrow_mut() = Some((tokio::task::LocalSet::new(), runtime())));
}
pub(crate) fn block_on_installed<F: Future>(f: F) -> F::Output {
    let (local, rt) = INSTALLED.with(|i| i.borrow_mut().take()).expect("System::new");
    let out = local.block_on(&rt, f);
    INSTALLED.with(|i| *i.borrow_mut() = Some((local, rt)));
    out
}
pub(crate) fn run_installed() -> i32 {
    let code = block_on_installed(async {
        loop {
            if let Some(Some(c)) = with(|s| s.stopped.get()) {
                return c;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    });
    let i = INSTALLED.with(|i| i.borrow_mut().take());
    drop(i);
    let old = CURRENT.with(|c| c.borrow_mut().take());
    if let Some(o) = old {
        let reg = std::mem::take(&mut *o.registry.borrow_mut());
        drop(reg);
    }
    code
}
