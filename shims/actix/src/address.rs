use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Waker};

use tokio::sync::oneshot;

use crate::actor::{Actor, Handler, Message, MessageResponse, ToEnvelope};

pub(crate) type Envelope<A> = Box<dyn FnOnce(&mut A, &mut <A as Actor>::Context) + Send>;

pub(crate) struct State<A: Actor> {
    pub queue: VecDeque<Envelope<A>>,
    pub waker: Option<Waker>,
    pub closed: bool,
    pub senders: usize,
}
pub(crate) struct Mailbox<A: Actor>(pub Mutex<State<A>>);
impl<A: Actor> Mailbox<A> {
    pub fn new() -> Arc<Self> {
        Arc::new(Self(Mutex::new(State { queue: VecDeque::new(), waker: None, closed: false, senders: 0 })))
    }
    pub fn pop(&self) -> Option<Envelope<A>> {
        self.0.lock().unwrap().queue.pop_front()
    }
    pub fn close(&self) {
        let drained = {
            let mut s = self.0.lock().unwrap();
            s.closed = true;
            std::mem::take(&mut s.queue)
        };
        drop(drained);
    }
    fn push(&self, e: Envelope<A>) -> bool {
        let mut s = self.0.lock().unwrap();
        if s.closed {
            drop(s);
            drop(e);
            return false;
        }
        s.queue.push_back(e);
        let w = s.waker.take();
        drop(s);
        if let Some(w) = w {
            w.wake();
        }
        true
    }
}

pub struct Addr<A: Actor> {
    pub(crate) mb: Arc<Mailbox<A>>,
}
unsafe impl<A: Actor> Send for Addr<A> {}
unsafe impl<A: Actor> Sync for Addr<A> {}
impl<A: Actor> Addr<A> {
    pub(crate) fn of(mb: &Arc<Mailbox<A>>) -> Self {
        mb.0.lock().unwrap().senders += 1;
        Self { mb: mb.clone() }
    }
    pub fn connected(&self) -> bool {
        !self.mb.0.lock().unwrap().closed
    }
    fn envelope<M>(msg: M, tx: Option<oneshot::Sender<M::Result>>) -> Envelope<A>
    where
        M: Message + Send + 'static,
        M::Result: Send,
        A: Handler<M>,
    {
        Box::new(move |act, ctx| {
            // a requester that went away is not answered, and its request is dropped, as in actix
            if let Some(t) = &tx {
                if t.is_closed() {
                    return;
                }
            }
            crate::sim::count(std::any::type_name::<A>(), std::any::type_name::<M>());
            let r = act.handle(msg, ctx);
            r.handle(ctx, tx)
        })
    }
    pub fn do_send<M>(&self, msg: M)
    where
        M: Message + Send + 'static,
        M::Result: Send,
        A: Handler<M>,
        A::Context: ToEnvelope<A, M>,
    {
        self.mb.push(Self::envelope(msg, None));
    }
    pub fn try_send<M>(&self, msg: M) -> Result<(), SendError<()>>
    where
        M: Message + Send + 'static,
        M::Result: Send,
        A: Handler<M>,
        A::Context: ToEnvelope<A, M>,
    {
        if self.mb.push(Self::envelope(msg, None)) {
            Ok(())
        } else {
            Err(SendError::Closed(()))
        }
    }
    pub fn send<M>(&self, msg: M) -> Request<A, M>
    where
        M: Message + Send + 'static,
        M::Result: Send,
        A: Handler<M>,
        A::Context: ToEnvelope<A, M>,
    {
        let (tx, rx) = oneshot::channel();
        let ok = self.mb.push(Self::envelope(msg, Some(tx)));
        Request { rx: if ok { Some(rx) } else { None }, _p: std::marker::PhantomData }
    }
    pub fn recipient<M>(self) -> Recipient<M>
    where
        A: Handler<M>,
        A::Context: ToEnvelope<A, M>,
        M: Message + Send + 'static,
        M::Result: Send,
    {
        Recipient { tx: Arc::new(self) }
    }
}
impl<A: Actor> Clone for Addr<A> {
    fn clone(&self) -> Self {
        Self::of(&self.mb)
    }
}
impl<A: Actor> Drop for Addr<A> {
    fn drop(&mut self) {
        let w = match self.mb.0.lock() {
            Ok(mut s) => {
                s.senders -= 1;
                if s.senders == 0 {
                    s.waker.take()
                } else {
                    None
                }
            }
            Err(_) => None,
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<A: Actor> PartialEq for Addr<A> {
    fn eq(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.mb, &o.mb)
    }
}
impl<A: Actor> Eq for Addr<A> {}
impl<A: Actor> Hash for Addr<A> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (Arc::as_ptr(&self.mb) as *const u8 as usize).hash(h)
    }
}
impl<A: Actor> fmt::Debug for Addr<A> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Addr<{}>", std::any::type_name::<A>())
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum MailboxError {
    Closed,
    Timeout,
}
impl fmt::Debug for MailboxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "MailboxError({self})")
    }
}
impl fmt::Display for MailboxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            MailboxError::Closed => "Mailbox has closed",
            MailboxError::Timeout => "Message delivery timed out",
        })
    }
}
impl std::error::Error for MailboxError {}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum SendError<T> {
    Full(T),
    Closed(T),
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            SendError::Full(_) => "SendError::Full(..)",
            SendError::Closed(_) => "SendError::Closed(..)",
        })
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("send failed")
    }
}
impl<T> std::error::Error for SendError<T> {}

/// The answer to a message.
pub struct Request<A: Actor, M: Message> {
    rx: Option<oneshot::Receiver<M::Result>>,
    _p: std::marker::PhantomData<fn(A)>,
}
impl<A: Actor, M: Message> Unpin for Request<A, M> {}
impl<A: Actor, M: Message> Future for Request<A, M> {
    type Output = Result<M::Result, MailboxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        match self.rx.as_mut() {
            None => Poll::Ready(Err(MailboxError::Closed)),
            Some(rx) => Pin::new(rx).poll(cx).map_err(|_| MailboxError::Closed),
        }
    }
}

trait Sender<M: Message>: Send + Sync {
    fn do_send(&self, m: M);
    fn connected(&self) -> bool;
}
impl<A, M> Sender<M> for Addr<A>
where
    A: Actor + Handler<M>,
    A::Context: ToEnvelope<A, M>,
    M: Message + Send + 'static,
    M::Result: Send,
{
    fn do_send(&self, m: M) {
        Addr::do_send(self, m)
    }
    fn connected(&self) -> bool {
        Addr::connected(self)
    }
}
pub struct Recipient<M: Message> {
    tx: Arc<dyn Sender<M>>,
}
impl<M: Message + Send> Recipient<M>
where
    M::Result: Send,
{
    pub fn do_send(&self, m: M) {
        self.tx.do_send(m)
    }
    pub fn connected(&self) -> bool {
        self.tx.connected()
    }
}
impl<M: Message> Clone for Recipient<M> {
    fn clone(&self) -> Self {
        Self { tx: self.tx.clone() }
    }
}
