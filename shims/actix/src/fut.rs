use std::future::Future;
use std::pin::Pin;
use std::task::{Context as Cx, Poll};
use std::time::Duration;

use futures_core::Stream;
pub use futures_util::future::{err, ok, ready, Either, Ready};

use crate::actor::Actor;

/// A future already known, from a `Result`.
pub fn result<T, E>(r: Result<T, E>) -> Ready<Result<T, E>> {
    ready(r)
}

pub trait ActorFuture<A: Actor> {
    type Output;
    fn poll(self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Self::Output>;
}

impl<F, A> ActorFuture<A> for Box<F>
where
    F: ActorFuture<A> + Unpin + ?Sized,
    A: Actor,
{
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        Pin::new(&mut **self).poll(act, ctx, cx)
    }
}
impl<P, A> ActorFuture<A> for Pin<P>
where
    P: Unpin + std::ops::DerefMut,
    P::Target: ActorFuture<A>,
    A: Actor,
{
    type Output = <<P as std::ops::Deref>::Target as ActorFuture<A>>::Output;
    fn poll(self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        self.get_mut().as_mut().poll(act, ctx, cx)
    }
}
impl<T, A: Actor> ActorFuture<A> for Ready<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, cx: &mut Cx<'_>) -> Poll<T> {
        Future::poll(self, cx)
    }
}
impl<A, B, Act> ActorFuture<Act> for Either<A, B>
where
    A: ActorFuture<Act>,
    B: ActorFuture<Act, Output = A::Output>,
    Act: Actor,
{
    type Output = A::Output;
    fn poll(self: Pin<&mut Self>, act: &mut Act, ctx: &mut Act::Context, cx: &mut Cx<'_>) -> Poll<A::Output> {
        match self.as_pin_mut() {
            Either::Left(a) => a.poll(act, ctx, cx),
            Either::Right(b) => b.poll(act, ctx, cx),
        }
    }
}

pub struct FutureWrap<F, A> {
    fut: Pin<Box<F>>,
    _p: std::marker::PhantomData<fn(A)>,
}
impl<F, A> Unpin for FutureWrap<F, A> {}
impl<F: Future, A: Actor> ActorFuture<A> for FutureWrap<F, A> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, cx: &mut Cx<'_>) -> Poll<F::Output> {
        self.fut.as_mut().poll(cx)
    }
}
pub fn wrap_future<F, A>(f: F) -> FutureWrap<F, A>
where
    F: Future,
    A: Actor,
{
    FutureWrap { fut: Box::pin(f), _p: std::marker::PhantomData }
}
pub trait WrapFuture<A: Actor> {
    type Future: ActorFuture<A>;
    fn into_actor(self, a: &A) -> Self::Future;
}
impl<F: Future, A: Actor> WrapFuture<A> for F {
    type Future = FutureWrap<F, A>;
    fn into_actor(self, _: &A) -> FutureWrap<F, A> {
        FutureWrap { fut: Box::pin(self), _p: std::marker::PhantomData }
    }
}

struct PollFn<F>(F);
impl<F> Unpin for PollFn<F> {}
impl<F, A, T> ActorFuture<A> for PollFn<F>
where
    A: Actor,
    F: FnMut(&mut A, &mut A::Context, &mut Cx<'_>) -> Poll<T>,
{
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<T> {
        (self.0)(act, ctx, cx)
    }
}
pub(crate) fn poll_fn_act<F, A, T>(f: F) -> impl ActorFuture<A, Output = T> + use<F, A, T>
where
    A: Actor,
    F: FnMut(&mut A, &mut A::Context, &mut Cx<'_>) -> Poll<T>,
{
    PollFn(f)
}

pub struct Map<Fut, F> {
    fut: Pin<Box<Fut>>,
    f: Option<F>,
}
impl<Fut, F> Unpin for Map<Fut, F> {}
impl<Fut, F, A, U> ActorFuture<A> for Map<Fut, F>
where
    A: Actor,
    Fut: ActorFuture<A>,
    F: FnOnce(Fut::Output, &mut A, &mut A::Context) -> U,
{
    type Output = U;
    fn poll(self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<U> {
        let me = self.get_mut();
        match me.fut.as_mut().poll(act, ctx, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(v) => Poll::Ready((me.f.take().expect("polled after completion"))(v, act, ctx)),
        }
    }
}

pub enum Then<A, B, F> {
    First(Pin<Box<A>>, Option<F>),
    Second(Pin<Box<B>>),
}
impl<A, B, F> Unpin for Then<A, B, F> {}
impl<A, B, F, Act> ActorFuture<Act> for Then<A, B, F>
where
    Act: Actor,
    A: ActorFuture<Act>,
    B: ActorFuture<Act>,
    F: FnOnce(A::Output, &mut Act, &mut Act::Context) -> B,
{
    type Output = B::Output;
    fn poll(self: Pin<&mut Self>, act: &mut Act, ctx: &mut Act::Context, cx: &mut Cx<'_>) -> Poll<B::Output> {
        let me = self.get_mut();
        loop {
            match me {
                Then::First(a, f) => match a.as_mut().poll(act, ctx, cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(v) => {
                        let b = (f.take().expect("polled after completion"))(v, act, ctx);
                        *me = Then::Second(Box::pin(b));
                    }
                },
                Then::Second(b) => return b.as_mut().poll(act, ctx, cx),
            }
        }
    }
}

pub struct Timeout<F> {
    fut: Pin<Box<F>>,
    sleep: Pin<Box<tokio::time::Sleep>>,
}
impl<F> Unpin for Timeout<F> {}
impl<F: ActorFuture<A>, A: Actor> ActorFuture<A> for Timeout<F> {
    type Output = Result<F::Output, ()>;
    fn poll(self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let me = self.get_mut();
        match me.fut.as_mut().poll(act, ctx, cx) {
            Poll::Ready(v) => Poll::Ready(Ok(v)),
            Poll::Pending => match me.sleep.as_mut().poll(cx) {
                Poll::Ready(()) => Poll::Ready(Err(())),
                Poll::Pending => Poll::Pending,
            },
        }
    }
}

pub trait ActorFutureExt<A: Actor>: ActorFuture<A> {
    fn map<F, U>(self, f: F) -> Map<Self, F>
    where
        F: FnOnce(Self::Output, &mut A, &mut A::Context) -> U,
        Self: Sized,
    {
        Map { fut: Box::pin(self), f: Some(f) }
    }
    fn then<F, Fut>(self, f: F) -> Then<Self, Fut, F>
    where
        F: FnOnce(Self::Output, &mut A, &mut A::Context) -> Fut,
        Fut: ActorFuture<A>,
        Self: Sized,
    {
        Then::First(Box::pin(self), Some(f))
    }
    fn timeout(self, d: Duration) -> Timeout<Self>
    where
        Self: Sized,
    {
        Timeout { fut: Box::pin(self), sleep: Box::pin(tokio::time::sleep(d)) }
    }
    fn boxed_local(self) -> Pin<Box<dyn ActorFuture<A, Output = Self::Output>>>
    where
        Self: Sized + 'static,
    {
        Box::pin(self)
    }
}
impl<F: ActorFuture<A> + ?Sized, A: Actor> ActorFutureExt<A> for F {}

pub trait ActorTryFuture<A: Actor>: ActorFuture<A, Output = Result<Self::Ok, Self::Error>> {
    type Ok;
    type Error;
}
impl<F, A, T, E> ActorTryFuture<A> for F
where
    F: ActorFuture<A, Output = Result<T, E>> + ?Sized,
    A: Actor,
{
    type Ok = T;
    type Error = E;
}

pub struct MapOk<Fut, F>(Pin<Box<Fut>>, Option<F>);
impl<Fut, F> Unpin for MapOk<Fut, F> {}
impl<Fut, F, A, T, E, U> ActorFuture<A> for MapOk<Fut, F>
where
    A: Actor,
    Fut: ActorFuture<A, Output = Result<T, E>>,
    F: FnOnce(T, &mut A, &mut A::Context) -> U,
{
    type Output = Result<U, E>;
    fn poll(self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let me = self.get_mut();
        match me.0.as_mut().poll(act, ctx, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(v)) => Poll::Ready(Ok((me.1.take().expect("polled after completion"))(v, act, ctx))),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        }
    }
}
pub struct MapErr<Fut, F>(Pin<Box<Fut>>, Option<F>);
impl<Fut, F> Unpin for MapErr<Fut, F> {}
impl<Fut, F, A, T, E, U> ActorFuture<A> for MapErr<Fut, F>
where
    A: Actor,
    Fut: ActorFuture<A, Output = Result<T, E>>,
    F: FnOnce(E, &mut A, &mut A::Context) -> U,
{
    type Output = Result<T, U>;
    fn poll(self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let me = self.get_mut();
        match me.0.as_mut().poll(act, ctx, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(v)) => Poll::Ready(Err((me.1.take().expect("polled after completion"))(v, act, ctx))),
            Poll::Ready(Ok(e)) => Poll::Ready(Ok(e)),
        }
    }
}
pub enum AndThen<A, B, F> {
    First(Pin<Box<A>>, Option<F>),
    Second(Pin<Box<B>>),
}
impl<A, B, F> Unpin for AndThen<A, B, F> {}
impl<A, B, F, Act, T, U, E> ActorFuture<Act> for AndThen<A, B, F>
where
    Act: Actor,
    A: ActorFuture<Act, Output = Result<T, E>>,
    B: ActorFuture<Act, Output = Result<U, E>>,
    F: FnOnce(T, &mut Act, &mut Act::Context) -> B,
{
    type Output = Result<U, E>;
    fn poll(self: Pin<&mut Self>, act: &mut Act, ctx: &mut Act::Context, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let me = self.get_mut();
        loop {
            match me {
                AndThen::First(a, f) => match a.as_mut().poll(act, ctx, cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Ready(Ok(v)) => {
                        let b = (f.take().expect("polled after completion"))(v, act, ctx);
                        *me = AndThen::Second(Box::pin(b));
                    }
                },
                AndThen::Second(b) => return b.as_mut().poll(act, ctx, cx),
            }
        }
    }
}
pub trait ActorTryFutureExt<A: Actor>: ActorTryFuture<A> {
    fn map_ok<T, F>(self, f: F) -> MapOk<Self, F>
    where
        F: FnOnce(Self::Ok, &mut A, &mut A::Context) -> T,
        Self: Sized,
    {
        MapOk(Box::pin(self), Some(f))
    }
    fn map_err<T, F>(self, f: F) -> MapErr<Self, F>
    where
        F: FnOnce(Self::Error, &mut A, &mut A::Context) -> T,
        Self: Sized,
    {
        MapErr(Box::pin(self), Some(f))
    }
    fn and_then<Fut, F>(self, f: F) -> AndThen<Self, Fut, F>
    where
        F: FnOnce(Self::Ok, &mut A, &mut A::Context) -> Fut,
        Fut: ActorTryFuture<A, Error = Self::Error>,
        Self: Sized,
    {
        AndThen::First(Box::pin(self), Some(f))
    }
}
impl<F: ActorTryFuture<A> + ?Sized, A: Actor> ActorTryFutureExt<A> for F {}

// ---- streams ----
pub trait ActorStream<A: Actor> {
    type Item;
    fn poll_next(
        self: Pin<&mut Self>,
        act: &mut A,
        ctx: &mut A::Context,
        cx: &mut Cx<'_>,
    ) -> Poll<Option<Self::Item>>;
}
pub struct StreamWrap<S, A>(Pin<Box<S>>, std::marker::PhantomData<fn(A)>);
impl<S: Stream, A: Actor> ActorStream<A> for StreamWrap<S, A> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut A, _: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Option<S::Item>> {
        self.0.as_mut().poll_next(cx)
    }
}
pub fn wrap_stream<S, A>(s: S) -> StreamWrap<S, A>
where
    S: Stream,
    A: Actor,
{
    StreamWrap(Box::pin(s), std::marker::PhantomData)
}
pub trait WrapStream<A: Actor> {
    type Stream: ActorStream<A>;
    fn into_actor(self, a: &A) -> Self::Stream;
}
impl<S: Stream, A: Actor> WrapStream<A> for S {
    type Stream = StreamWrap<S, A>;
    fn into_actor(self, _: &A) -> StreamWrap<S, A> {
        StreamWrap(Box::pin(self), std::marker::PhantomData)
    }
}
pub struct StreamThen<S, F, Fut> {
    s: Pin<Box<S>>,
    f: F,
    cur: Option<Pin<Box<Fut>>>,
}
impl<S, F, Fut> Unpin for StreamThen<S, F, Fut> {}
impl<S, F, Fut, A> ActorStream<A> for StreamThen<S, F, Fut>
where
    A: Actor,
    S: ActorStream<A>,
    F: FnMut(S::Item, &mut A, &mut A::Context) -> Fut,
    Fut: ActorFuture<A>,
{
    type Item = Fut::Output;
    fn poll_next(
        self: Pin<&mut Self>,
        act: &mut A,
        ctx: &mut A::Context,
        cx: &mut Cx<'_>,
    ) -> Poll<Option<Fut::Output>> {
        let me = self.get_mut();
        loop {
            if let Some(c) = me.cur.as_mut() {
                return match c.as_mut().poll(act, ctx, cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(v) => {
                        me.cur = None;
                        Poll::Ready(Some(v))
                    }
                };
            }
            match me.s.as_mut().poll_next(act, ctx, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(None),
                Poll::Ready(Some(i)) => me.cur = Some(Box::pin((me.f)(i, act, ctx))),
            }
        }
    }
}
pub struct Finish<S>(Pin<Box<S>>);
impl<S> Unpin for Finish<S> {}
impl<S: ActorStream<A>, A: Actor> ActorFuture<A> for Finish<S> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, act: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<()> {
        loop {
            match self.0.as_mut().poll_next(act, ctx, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(()),
                Poll::Ready(Some(_)) => {}
            }
        }
    }
}
pub trait ActorStreamExt<A: Actor>: ActorStream<A> {
    fn then<F, Fut>(self, f: F) -> StreamThen<Self, F, Fut>
    where
        F: FnMut(Self::Item, &mut A, &mut A::Context) -> Fut,
        Fut: ActorFuture<A>,
        Self: Sized,
    {
        StreamThen { s: Box::pin(self), f, cur: None }
    }
    fn finish(self) -> Finish<Self>
    where
        Self: Sized,
    {
        Finish(Box::pin(self))
    }
}
impl<S: ActorStream<A> + ?Sized, A: Actor> ActorStreamExt<A> for S {}
