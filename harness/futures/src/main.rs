//! C17: flattening one level of nested results of a future, observed poll by poll.
use futures::task::{waker, ArcWake};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use vmon::Mon;
use witnet_futures_utils::TryFutureExt2;

fn main() {
    vmon::main(&[("C17", c17)])
}

struct W(AtomicU64);
impl ArcWake for W {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// A value whose life is recorded.
#[derive(Debug)]
struct Tok(u64, Arc<Mutex<Vec<(u64, &'static str)>>>);
impl Drop for Tok {
    fn drop(&mut self) {
        self.1.lock().unwrap().push((self.0, "drop"));
    }
}

#[derive(Debug)]
struct E1(Tok);
#[derive(Debug)]
struct E2(Tok);
#[derive(Debug)]
enum E {
    One(E1, u64),
    Two(E2, u64),
}
static CONV: AtomicU64 = AtomicU64::new(0);
impl From<E1> for E {
    fn from(e: E1) -> E {
        E::One(e, CONV.fetch_add(1, Ordering::SeqCst))
    }
}
impl From<E2> for E {
    fn from(e: E2) -> E {
        E::Two(e, CONV.fetch_add(1, Ordering::SeqCst))
    }
}

enum Step {
    Pending(bool),
    Ready,
    Panic,
}

struct Scripted<T> {
    steps: std::vec::IntoIter<Step>,
    out: Option<T>,
    log: Arc<Mutex<Vec<(u64, &'static str)>>>,
}
impl<T: Unpin> Future for Scripted<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        self.log.lock().unwrap().push((0, "poll"));
        match self.steps.next() {
            Some(Step::Pending(w)) => {
                if w {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
            Some(Step::Ready) => Poll::Ready(self.out.take().expect("polled after completion")),
            Some(Step::Panic) => panic!("scripted panic"),
            None => panic!("polled after completion"),
        }
    }
}

fn c17(m: &mut Mon) {
    m.rule("Scripted futures (0..12 pending polls, spurious polls, waking or not, ending in one of the three outcomes, panicking, or dropped midway) are wrapped; every poll, wake, conversion and drop is logged. Non-trivial: a completed script with distinct (outcome, poll pattern).");
    for k in ["ok", "inner error", "outer error", "dropped midway", "panic passed on", "two levels"] {
        m.require(k, 20);
    }
    let n = m.n(200_000, 6_000_000);
    m.run("scripts", n, |c| {
        let log: Arc<Mutex<Vec<(u64, &'static str)>>> = Default::default();
        let pend = c.rng.below(12) as usize;
        let wakes: Vec<bool> = (0..pend).map(|_| c.rng.bool()).collect();
        let id = c.rng.u64() | 1;
        let kind = c.rng.below(3);
        let tok = Tok(id, log.clone());
        let panics = c.rng.chance(1, 10);
        let steps: Vec<Step> = wakes.iter().map(|w| Step::Pending(*w)).chain([if panics { Step::Panic } else { Step::Ready }]).collect();
        let two = c.rng.chance(1, 4);
        let drop_at = if c.rng.chance(1, 6) { Some(c.rng.below(pend as u64 + 1) as usize) } else { None };
        let w = Arc::new(W(AtomicU64::new(0)));
        let wk = waker(w.clone());
        let mut cx = Context::from_waker(&wk);
        type R = Result<Result<Tok, E1>, E2>;
        type R3 = Result<Result<Result<Tok, E1>, E2>, E2>;
        let val: R = match kind {
            0 => Ok(Ok(tok)),
            1 => Ok(Err(E1(tok))),
            _ => Err(E2(tok)),
        };
        let mut fut: Pin<Box<dyn Future<Output = Result<Tok, E>>>> = if two {
            c.event("two levels");
            let val3: R3 = match val {
                Err(e) => Err(e),
                Ok(x) => Ok(Ok(x)),
            };
            let s = Scripted { steps: steps.into_iter(), out: Some(val3), log: log.clone() };
            // E2 both times outside, so that the type of the middle layer is Result<Result<Tok,E1>,E>.
            Box::pin(TryFutureExt2::flatten_err::<Result<Tok, E1>, E2, E2, E2>(s).flatten_err::<Tok, E1, E2, E>())
        } else {
            let s = Scripted { steps: steps.into_iter(), out: Some(val), log: log.clone() };
            Box::pin(s.flatten_err::<Tok, E1, E2, E>())
        };
        let before = CONV.load(Ordering::SeqCst);
        let mut done = None;
        for p in 0..=pend {
            if drop_at == Some(p) {
                break;
            }
            let r = c.guard(|| fut.as_mut().poll(&mut cx));
            let want_wakes = wakes[..(p + 1).min(pend)].iter().filter(|x| **x).count() as u64;
            let got_w = w.0.load(Ordering::SeqCst);
            c.check(got_w == want_wakes, "wakes", || format!("poll {p}: {got_w} wakes, expected {want_wakes}"));
            let polls = log.lock().unwrap().iter().filter(|x| x.1 == "poll").count();
            c.check(polls == p + 1, "one inner poll per poll", || format!("{polls} inner polls after {} polls", p + 1));
            match r {
                Err(e) => {
                    c.check(panics && p == pend && e.contains("scripted"), "panic", || format!("poll {p} panicked: {e}"));
                    c.event("panic passed on");
                    done = Some(None);
                    break;
                }
                Ok(Poll::Pending) => {
                    c.check(p < pend, "pending too long", || format!("pending at poll {p} of {pend}"));
                }
                Ok(Poll::Ready(v)) => {
                    c.check(p == pend && !panics, "ready too early", || format!("ready at poll {p} of {pend}"));
                    done = Some(Some(v));
                    break;
                }
            }
        }
        let drops = |l: &Arc<Mutex<Vec<(u64, &'static str)>>>| l.lock().unwrap().iter().filter(|x| x.0 == id && x.1 == "drop").count();
        match done {
            None => {
                c.check(drop_at.is_some(), "never completes", || format!("{pend} pending polls, then nothing"));
                c.check(drops(&log) == 0, "value lost", || "the value was dropped before the future".into());
                drop(fut);
                c.check(drops(&log) == 1, "value leaked", || format!("{} drops", drops(&log)));
                c.event("dropped midway");
            }
            Some(None) => {
                drop(fut);
                c.check(drops(&log) == 1, "value leaked", || format!("{} drops after panic", drops(&log)));
            }
            Some(Some(v)) => {
                c.check(drops(&log) == 0, "value lost", || "dropped before use".into());
                let conv = CONV.load(Ordering::SeqCst) - before;
                let (ok, evn, want_conv) = match (&v, kind) {
                    (Ok(t), 0) => (t.0 == id, "ok", 0),
                    (Err(E::One(E1(t), _)), 1) => (t.0 == id, "inner error", 1),
                    (Err(E::Two(E2(t), _)), 2) => (t.0 == id, "outer error", 1),
                    _ => (false, "mismatch", conv),
                };
                c.event(evn);
                c.check(ok, "outcome", || format!("outcome kind {kind} came out as {v:?}"));
                c.check(conv == want_conv, "conversions", || format!("{conv} conversions, expected {want_conv}"));
                drop(v);
                drop(fut);
                c.check(drops(&log) == 1, "value duplicated or leaked", || format!("{} drops", drops(&log)));
                c.nontrivial(&(kind, two, &wakes));
                c.sample(|| format!("outcome {kind}, wakes {wakes:?}, two levels {two}"));
            }
        }
    });
}
