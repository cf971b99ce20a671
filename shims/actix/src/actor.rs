use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;

use futures_core::Stream;

use crate::address::Addr;
use crate::context::{Context, SpawnHandle};
use crate::fut::{ActorFuture, ActorFutureExt};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Running {
    Stop,
    Continue,
}

pub trait Actor: Sized + Unpin + 'static {
    type Context: ActorContext;

    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn stopping(&mut self, _ctx: &mut Self::Context) -> Running {
        Running::Stop
    }
    fn stopped(&mut self, _ctx: &mut Self::Context) {}

    fn start(self) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
    {
        Context::new().run(self)
    }
    fn start_default() -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>> + Default,
    {
        Self::default().start()
    }
    fn create<F>(f: F) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
        F: FnOnce(&mut Context<Self>) -> Self,
    {
        let mut ctx = Context::new();
        let act = f(&mut ctx);
        ctx.run(act)
    }
}

pub trait Supervised: Actor {
    fn restarting(&mut self, _ctx: &mut Self::Context) {}
}

pub trait ActorContext: Sized {
    fn stop(&mut self);
    fn terminate(&mut self);
}

pub trait Message {
    type Result: 'static;
}
impl<M: Message> Message for Box<M> {
    type Result = M::Result;
}

pub trait Handler<M>
where
    Self: Actor,
    M: Message,
{
    type Result: MessageResponse<Self, M>;
    fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
}

pub type OneshotSender<T> = tokio::sync::oneshot::Sender<T>;

pub trait MessageResponse<A: Actor, M: Message> {
    fn handle(self, ctx: &mut A::Context, tx: Option<OneshotSender<M::Result>>);
}

/// Marks the contexts that can receive messages.
pub trait ToEnvelope<A: Actor, M: Message> {}
impl<A, M> ToEnvelope<A, M> for Context<A>
where
    A: Actor<Context = Context<A>> + Handler<M>,
    M: Message,
{
}
impl<A, M> ToEnvelope<A, M> for crate::context::SyncContext<A>
where
    A: Actor<Context = crate::context::SyncContext<A>> + Handler<M>,
    M: Message,
{
}

pub(crate) fn reply<T>(tx: Option<OneshotSender<T>>, v: T) {
    if let Some(tx) = tx {
        let _ = tx.send(v);
    }
}

pub struct MessageResult<M: Message>(pub M::Result);
impl<A: Actor, M: Message> MessageResponse<A, M> for MessageResult<M> {
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<M::Result>>) {
        reply(tx, self.0)
    }
}

pub type ResponseFuture<I> = Pin<Box<dyn Future<Output = I>>>;
pub type ResponseActFuture<A, I> = Pin<Box<dyn ActorFuture<A, Output = I>>>;

impl<A, M, I> MessageResponse<A, M> for Pin<Box<dyn Future<Output = I>>>
where
    A: Actor,
    M: Message<Result = I>,
    I: 'static,
{
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<I>>) {
        crate::sim::spawn(async move { reply(tx, self.await) });
    }
}

impl<A, M, I> MessageResponse<A, M> for Pin<Box<dyn ActorFuture<A, Output = I>>>
where
    A: Actor,
    A::Context: AsyncContext<A>,
    M: Message<Result = I>,
    I: 'static,
{
    fn handle(self, ctx: &mut A::Context, tx: Option<OneshotSender<I>>) {
        ctx.spawn(self.map(move |r, _, _| reply(tx, r)));
    }
}

impl<A, M, I, E> MessageResponse<A, M> for Result<I, E>
where
    A: Actor,
    M: Message<Result = Self>,
    I: 'static,
    E: 'static,
{
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<Self>>) {
        reply(tx, self)
    }
}
impl<A, M, I> MessageResponse<A, M> for Option<I>
where
    A: Actor,
    M: Message<Result = Self>,
    I: 'static,
{
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<Self>>) {
        reply(tx, self)
    }
}
impl<A, M, I> MessageResponse<A, M> for Vec<I>
where
    A: Actor,
    M: Message<Result = Self>,
    I: 'static,
{
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<Self>>) {
        reply(tx, self)
    }
}
impl<A, M, B> MessageResponse<A, M> for Addr<B>
where
    A: Actor,
    B: Actor,
    M: Message<Result = Self>,
{
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<Self>>) {
        reply(tx, self)
    }
}
impl<A, M, B> MessageResponse<A, M> for std::sync::Arc<B>
where
    A: Actor,
    B: 'static,
    M: Message<Result = Self>,
{
    fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<Self>>) {
        reply(tx, self)
    }
}
macro_rules! plain {
    ($($t:ty),*) => { $(
        impl<A: Actor, M: Message<Result = $t>> MessageResponse<A, M> for $t {
            fn handle(self, _: &mut A::Context, tx: Option<OneshotSender<$t>>) { reply(tx, self) }
        }
    )* };
}
plain!((), u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, bool, String);

/// Handles the items of a stream added to an actor.
pub trait StreamHandler<I>
where
    Self: Actor,
{
    fn handle(&mut self, item: I, ctx: &mut Self::Context);
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn finished(&mut self, ctx: &mut Self::Context) {
        ctx.stop()
    }
    fn add_stream<S>(fut: S, ctx: &mut Self::Context) -> SpawnHandle
    where
        S: Stream<Item = I> + 'static,
        I: 'static,
        Self::Context: AsyncContext<Self>,
    {
        ctx.spawn(StreamRunner { stream: Box::pin(fut), started: false })
    }
}

struct StreamRunner<S> {
    stream: Pin<Box<S>>,
    started: bool,
}
impl<A, S> ActorFuture<A> for StreamRunner<S>
where
    S: Stream,
    A: Actor + StreamHandler<S::Item>,
    A::Context: AsyncContext<A>,
{
    type Output = ();
    fn poll(
        self: Pin<&mut Self>,
        act: &mut A,
        ctx: &mut A::Context,
        cx: &mut std::task::Context<'_>,
    ) -> Poll<()> {
        let me = self.get_mut();
        if !me.started {
            me.started = true;
            <A as StreamHandler<S::Item>>::started(act, ctx);
        }
        let mut polled = 0;
        loop {
            match me.stream.as_mut().poll_next(cx) {
                Poll::Ready(Some(m)) => {
                    A::handle(act, m, ctx);
                    polled += 1;
                    if ctx.waiting() {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    if polled == 16 {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
                Poll::Ready(None) => {
                    A::finished(act, ctx);
                    return Poll::Ready(());
                }
                Poll::Pending => return Poll::Pending,
            }
        }
    }
}

pub trait AsyncContext<A>: ActorContext
where
    A: Actor<Context = Self>,
{
    fn address(&self) -> Addr<A>;
    fn spawn<F>(&mut self, fut: F) -> SpawnHandle
    where
        F: ActorFuture<A, Output = ()> + 'static;
    fn wait<F>(&mut self, fut: F)
    where
        F: ActorFuture<A, Output = ()> + 'static;
    fn waiting(&self) -> bool;
    fn cancel_future(&mut self, handle: SpawnHandle) -> bool;

    fn add_stream<S>(&mut self, fut: S) -> SpawnHandle
    where
        S: Stream + 'static,
        A: StreamHandler<S::Item>,
    {
        <A as StreamHandler<S::Item>>::add_stream(fut, self)
    }
    fn add_message_stream<S>(&mut self, fut: S)
    where
        S: Stream + 'static,
        S::Item: Message + 'static,
        A: Handler<S::Item>,
    {
        self.spawn(MessageStream { stream: Box::pin(fut) });
    }
    fn notify<M>(&mut self, msg: M)
    where
        A: Handler<M>,
        M: Message + 'static,
    {
        let mut msg = Some(msg);
        self.spawn(crate::fut::poll_fn_act(move |act: &mut A, ctx: &mut Self, _| {
            if let Some(m) = msg.take() {
                act.handle(m, ctx).handle(ctx, None);
            }
            Poll::Ready(())
        }));
    }
    fn notify_later<M>(&mut self, msg: M, after: Duration) -> SpawnHandle
    where
        A: Handler<M>,
        M: Message + 'static,
    {
        self.run_later(after, move |act, ctx| act.handle(msg, ctx).handle(ctx, None))
    }
    fn run_later<F>(&mut self, dur: Duration, f: F) -> SpawnHandle
    where
        F: FnOnce(&mut A, &mut A::Context) + 'static,
    {
        let mut f = Some(f);
        let mut sleep: Option<Pin<Box<tokio::time::Sleep>>> = Some(Box::pin(tokio::time::sleep(dur)));
        self.spawn(crate::fut::poll_fn_act(move |act: &mut A, ctx: &mut Self, cx| {
            if let Some(s) = sleep.as_mut() {
                match s.as_mut().poll(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(()) => sleep = None,
                }
            }
            if let Some(f) = f.take() {
                f(act, ctx)
            }
            Poll::Ready(())
        }))
    }
    fn run_interval<F>(&mut self, dur: Duration, mut f: F) -> SpawnHandle
    where
        F: FnMut(&mut A, &mut A::Context) + 'static,
    {
        let mut sleep = Box::pin(tokio::time::sleep(dur));
        self.spawn(crate::fut::poll_fn_act(move |act: &mut A, ctx: &mut Self, cx| loop {
            match sleep.as_mut().poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(()) => {
                    f(act, ctx);
                    sleep = Box::pin(tokio::time::sleep(dur));
                }
            }
        }))
    }
}

struct MessageStream<S> {
    stream: Pin<Box<S>>,
}
impl<A, S> ActorFuture<A> for MessageStream<S>
where
    S: Stream,
    S::Item: Message + 'static,
    A: Actor + Handler<S::Item>,
    A::Context: AsyncContext<A>,
{
    type Output = ();
    fn poll(
        self: Pin<&mut Self>,
        act: &mut A,
        ctx: &mut A::Context,
        cx: &mut std::task::Context<'_>,
    ) -> Poll<()> {
        let me = self.get_mut();
        loop {
            match me.stream.as_mut().poll_next(cx) {
                Poll::Ready(Some(m)) => {
                    act.handle(m, ctx).handle(ctx, None);
                    if ctx.waiting() {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
                Poll::Ready(None) => return Poll::Ready(()),
                Poll::Pending => return Poll::Pending,
            }
        }
    }
}

