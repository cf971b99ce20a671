use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context as Cx, Poll};

use crate::actor::{Actor, ActorContext, AsyncContext, Running};
use crate::address::{Addr, Mailbox};
use crate::fut::ActorFuture;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct SpawnHandle(usize);

type Item<A> = Pin<Box<dyn ActorFuture<A, Output = ()>>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    New,
    Running,
    Stopping,
    Stopped,
}

pub struct Context<A: Actor> {
    mb: Arc<Mailbox<A>>,
    state: St,
    handle: usize,
    wait: Vec<Item<A>>,
    items: Vec<(SpawnHandle, Item<A>)>,
    cancelled: Vec<SpawnHandle>,
}

impl<A: Actor<Context = Context<A>>> Default for Context<A> {
    fn default() -> Self {
        Self::new()
    }
}
impl<A: Actor<Context = Context<A>>> Context<A> {
    pub fn new() -> Self {
        Self { mb: Mailbox::new(), state: St::New, handle: 0, wait: vec![], items: vec![], cancelled: vec![] }
    }
    pub fn run(self, act: A) -> Addr<A> {
        let addr = Addr::of(&self.mb);
        let name = std::any::type_name::<A>();
        crate::sim::spawn_named(name, Runner { ctx: self, act, wait: vec![], items: vec![], lag: 0 });
        addr
    }
    pub fn handle(&self) -> SpawnHandle {
        SpawnHandle(self.handle)
    }
}
impl<A: Actor> ActorContext for Context<A> {
    fn stop(&mut self) {
        if self.state != St::Stopped {
            self.state = St::Stopping;
        }
    }
    fn terminate(&mut self) {
        self.state = St::Stopped;
    }
}
impl<A: Actor<Context = Context<A>>> AsyncContext<A> for Context<A> {
    fn address(&self) -> Addr<A> {
        Addr::of(&self.mb)
    }
    fn spawn<F>(&mut self, fut: F) -> SpawnHandle
    where
        F: ActorFuture<A, Output = ()> + 'static,
    {
        self.handle += 1;
        let h = SpawnHandle(self.handle);
        self.items.push((h, Box::pin(fut)));
        h
    }
    fn wait<F>(&mut self, fut: F)
    where
        F: ActorFuture<A, Output = ()> + 'static,
    {
        self.wait.push(Box::pin(fut));
    }
    fn waiting(&self) -> bool {
        !self.wait.is_empty() || matches!(self.state, St::Stopping | St::Stopped)
    }
    fn cancel_future(&mut self, handle: SpawnHandle) -> bool {
        self.cancelled.push(handle);
        true
    }
}

/// Sends an actor future to the context.
pub trait ContextFutureSpawner<A>
where
    A: Actor,
    A::Context: AsyncContext<A>,
{
    fn spawn(self, ctx: &mut A::Context);
    fn wait(self, ctx: &mut A::Context);
}
impl<A, T> ContextFutureSpawner<A> for T
where
    A: Actor,
    A::Context: AsyncContext<A>,
    T: ActorFuture<A, Output = ()> + 'static,
{
    fn spawn(self, ctx: &mut A::Context) {
        let _ = ctx.spawn(self);
    }
    fn wait(self, ctx: &mut A::Context) {
        ctx.wait(self);
    }
}

struct Runner<A: Actor<Context = Context<A>>> {
    ctx: Context<A>,
    act: A,
    wait: Vec<Item<A>>,
    items: Vec<(SpawnHandle, Item<A>)>,
    lag: u32,
}
impl<A: Actor<Context = Context<A>>> Unpin for Runner<A> {}
impl<A: Actor<Context = Context<A>>> Runner<A> {
    fn merge(&mut self) -> bool {
        let mut m = false;
        if !self.ctx.wait.is_empty() {
            let w = std::mem::take(&mut self.ctx.wait);
            self.wait.extend(w);
            m = true;
        }
        if !self.ctx.items.is_empty() {
            let w = std::mem::take(&mut self.ctx.items);
            self.items.extend(w);
            m = true;
        }
        if !self.ctx.cancelled.is_empty() {
            let c = std::mem::take(&mut self.ctx.cancelled);
            self.items.retain(|(h, _)| !c.contains(h));
        }
        m
    }
    fn stopping(&self) -> bool {
        matches!(self.ctx.state, St::Stopping | St::Stopped)
    }
    fn alive(&self) -> bool {
        if self.ctx.state == St::Stopped {
            return false;
        }
        let s = self.ctx.mb.0.lock().unwrap();
        s.senders > 0 || !s.queue.is_empty() || !self.items.is_empty() || !self.wait.is_empty()
    }
}
impl<A: Actor<Context = Context<A>>> Future for Runner<A> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        let me = self.get_mut();
        // perturbation: another actor may run first
        if me.lag == 0 {
            me.lag = crate::sim::lag();
        }
        if me.lag > 1 {
            me.lag -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        me.lag = 0;
        if me.ctx.state == St::New {
            me.ctx.state = St::Running;
            me.act.started(&mut me.ctx);
            me.merge();
        }
        'outer: loop {
            me.merge();
            while !me.wait.is_empty() && !me.stopping() {
                let mut it = me.wait.pop().expect("not empty");
                let at = me.wait.len();
                match it.as_mut().poll(&mut me.act, &mut me.ctx, cx) {
                    Poll::Ready(()) => {}
                    Poll::Pending => {
                        me.wait.insert(at, it);
                        // what was waited for meanwhile goes on top
                        if !me.ctx.wait.is_empty() {
                            me.merge();
                            continue;
                        }
                        me.merge();
                        return Poll::Pending;
                    }
                }
                me.merge();
            }
            // mailbox
            let mut n = 0;
            while !me.ctx.waiting() {
                {
                    let mut s = me.ctx.mb.0.lock().unwrap();
                    s.waker = Some(cx.waker().clone());
                }
                match me.ctx.mb.pop() {
                    Some(e) => e(&mut me.act, &mut me.ctx),
                    None => break,
                }
                n += 1;
                if n >= 256 {
                    cx.waker().wake_by_ref();
                    break;
                }
            }
            me.merge();
            if !me.wait.is_empty() && !me.stopping() {
                continue;
            }
            // spawned futures
            let mut i = 0;
            while i < me.items.len() && !me.stopping() {
                let (h, mut it) = me.items.swap_remove(i);
                let r = it.as_mut().poll(&mut me.act, &mut me.ctx, cx);
                match r {
                    Poll::Pending => {
                        // back to its place
                        me.items.push((h, it));
                        let last = me.items.len() - 1;
                        me.items.swap(i, last);
                        if me.ctx.waiting() && !me.stopping() {
                            me.merge();
                            continue 'outer;
                        }
                        i += 1;
                    }
                    Poll::Ready(()) => {
                        if me.ctx.waiting() && !me.stopping() {
                            me.merge();
                            continue 'outer;
                        }
                    }
                }
            }
            if me.merge() && !me.stopping() {
                continue;
            }
            match me.ctx.state {
                St::Running | St::New => {
                    if !me.alive() {
                        me.ctx.state = St::Stopping;
                        if me.act.stopping(&mut me.ctx) == Running::Stop {
                            me.ctx.state = St::Stopped;
                            me.ctx.mb.close();
                            me.act.stopped(&mut me.ctx);
                            return Poll::Ready(());
                        }
                        me.ctx.state = St::Running;
                    }
                    return Poll::Pending;
                }
                St::Stopping => {
                    if me.act.stopping(&mut me.ctx) == Running::Stop {
                        me.ctx.state = St::Stopped;
                        me.ctx.mb.close();
                        me.act.stopped(&mut me.ctx);
                        return Poll::Ready(());
                    }
                    me.ctx.state = St::Running;
                    continue;
                }
                St::Stopped => {
                    me.ctx.mb.close();
                    me.act.stopped(&mut me.ctx);
                    return Poll::Ready(());
                }
            }
        }
    }
}
impl<A: Actor<Context = Context<A>>> Drop for Runner<A> {
    fn drop(&mut self) {
        self.ctx.mb.close();
    }
}

/// Context of actors that handle one message after another, to completion.
pub struct SyncContext<A: Actor> {
    mb: Arc<Mailbox<A>>,
    stopped: bool,
}
impl<A: Actor> ActorContext for SyncContext<A> {
    fn stop(&mut self) {
        self.stopped = true;
    }
    fn terminate(&mut self) {
        self.stopped = true;
    }
}
struct SyncRunner<A: Actor<Context = SyncContext<A>>> {
    ctx: SyncContext<A>,
    act: A,
    started: bool,
    lag: u32,
}
impl<A: Actor<Context = SyncContext<A>>> Unpin for SyncRunner<A> {}
impl<A: Actor<Context = SyncContext<A>>> Future for SyncRunner<A> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
        let me = self.get_mut();
        if !me.started {
            me.started = true;
            me.act.started(&mut me.ctx);
        }
        if me.lag == 0 {
            me.lag = crate::sim::lag();
        }
        if me.lag > 1 {
            me.lag -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        me.lag = 0;
        loop {
            {
                let mut s = me.ctx.mb.0.lock().unwrap();
                s.waker = Some(cx.waker().clone());
            }
            match me.ctx.mb.pop() {
                Some(e) => {
                    e(&mut me.act, &mut me.ctx);
                    // one message per turn, so that others may run in between
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                None => {
                    let s = me.ctx.mb.0.lock().unwrap();
                    if s.senders == 0 || me.ctx.stopped {
                        drop(s);
                        me.ctx.mb.close();
                        return Poll::Ready(());
                    }
                    return Poll::Pending;
                }
            }
        }
    }
}
impl<A: Actor<Context = SyncContext<A>>> Drop for SyncRunner<A> {
    fn drop(&mut self) {
        self.ctx.mb.close();
    }
}
pub struct SyncArbiter;
impl SyncArbiter {
    pub fn start<A, F>(_threads: usize, factory: F) -> Addr<A>
    where
        A: Actor<Context = SyncContext<A>>,
        F: Fn() -> A + Send + Sync + 'static,
    {
        let mb = Mailbox::new();
        let addr = Addr::of(&mb);
        crate::sim::spawn_named(
            std::any::type_name::<A>(),
            SyncRunner { ctx: SyncContext { mb, stopped: false }, act: factory(), started: false, lag: 0 },
        );
        addr
    }
}
