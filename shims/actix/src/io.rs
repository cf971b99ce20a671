use std::cell::RefCell;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Poll, Waker};

use bytes::BytesMut;
use tokio::io::AsyncWrite;
use tokio_util::codec::Encoder;

use crate::actor::{Actor, ActorContext, AsyncContext, Running};

pub trait WriteHandler<E>
where
    Self: Actor,
    Self::Context: ActorContext,
{
    fn error(&mut self, _err: E, _ctx: &mut Self::Context) -> Running {
        Running::Stop
    }
    fn finished(&mut self, ctx: &mut Self::Context) {
        ctx.stop()
    }
}

struct Inner {
    buf: BytesMut,
    waker: Option<Waker>,
    closing: bool,
    dead: bool,
}

pub struct FramedWrite<I, T, U> {
    enc: U,
    inner: Rc<RefCell<Inner>>,
    _p: std::marker::PhantomData<(I, T)>,
}
impl<I, T, U> FramedWrite<I, T, U>
where
    T: AsyncWrite + Unpin + 'static,
    U: Encoder<I>,
    U::Error: From<io::Error> + 'static,
{
    pub fn new<A, C>(io: T, enc: U, ctx: &mut C) -> Self
    where
        A: Actor<Context = C> + WriteHandler<U::Error>,
        C: AsyncContext<A>,
    {
        let inner = Rc::new(RefCell::new(Inner { buf: BytesMut::new(), waker: None, closing: false, dead: false }));
        let i2 = inner.clone();
        let mut io = io;
        ctx.spawn(crate::fut::poll_fn_act(move |act: &mut A, ctx: &mut C, cx| {
            let mut i = i2.borrow_mut();
            i.waker = Some(cx.waker().clone());
            while !i.buf.is_empty() {
                let r = Pin::new(&mut io).poll_write(cx, &i.buf);
                match r {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Ok(0)) => {
                        i.dead = true;
                        drop(i);
                        if act.error(io::Error::new(io::ErrorKind::WriteZero, "closed").into(), ctx) == Running::Stop {
                            act.finished(ctx);
                        }
                        return Poll::Ready(());
                    }
                    Poll::Ready(Ok(n)) => {
                        let _ = i.buf.split_to(n);
                    }
                    Poll::Ready(Err(e)) => {
                        i.dead = true;
                        drop(i);
                        if act.error(e.into(), ctx) == Running::Stop {
                            act.finished(ctx);
                        }
                        return Poll::Ready(());
                    }
                }
            }
            let _ = Pin::new(&mut io).poll_flush(cx);
            if i.closing {
                let _ = Pin::new(&mut io).poll_shutdown(cx);
                drop(i);
                act.finished(ctx);
                return Poll::Ready(());
            }
            Poll::Pending
        }));
        Self { enc, inner, _p: std::marker::PhantomData }
    }
    pub fn write(&mut self, item: I) {
        let mut i = self.inner.borrow_mut();
        if i.dead {
            return;
        }
        let _ = self.enc.encode(item, &mut i.buf);
        if let Some(w) = i.waker.take() {
            w.wake();
        }
    }
    pub fn close(&mut self) {
        let mut i = self.inner.borrow_mut();
        i.closing = true;
        if let Some(w) = i.waker.take() {
            w.wake();
        }
    }
    pub fn closing(&self) -> bool {
        self.inner.borrow().closing
    }
}
