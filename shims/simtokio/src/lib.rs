//! tokio with `net` replaced by an in-process network, so that sessions run on virtual time.
pub use tokio::*;
pub mod net {
    use std::cell::RefCell;
    use std::collections::HashMap;
    use std::io;
    use std::net::{IpAddr, SocketAddr};
    use tokio::sync::mpsc;

    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::{Arc, Mutex};
    use std::task::Waker;

    /// What both ends of a connection share: it can be cut from outside.
    #[derive(Default)]
    pub(crate) struct Wire {
        cut: AtomicBool,
        wakers: Mutex<Vec<Waker>>,
    }
    impl Wire {
        fn is_cut(&self, w: &Waker) -> bool {
            if self.cut.load(Ordering::Relaxed) {
                return true;
            }
            let mut ws = self.wakers.lock().unwrap();
            if !ws.iter().any(|x| x.will_wake(w)) {
                if ws.len() > 16 {
                    ws.clear();
                }
                ws.push(w.clone());
            }
            false
        }
        fn cut(&self) {
            self.cut.store(true, Ordering::Relaxed);
            for w in self.wakers.lock().unwrap().drain(..) {
                w.wake();
            }
        }
    }

    pub mod tcp {
        use super::Wire;
        use std::pin::Pin;
        use std::sync::Arc;
        use std::task::{Context, Poll};
        use tokio::io::{AsyncRead, AsyncWrite, DuplexStream, ReadBuf};
        /// Reading end of a connection.
        pub struct OwnedReadHalf(pub(crate) DuplexStream, pub(crate) Arc<Wire>);
        /// Writing end of a connection; dropping it ends the peer's reading.
        pub struct OwnedWriteHalf(pub(crate) DuplexStream, pub(crate) Arc<Wire>);
        impl AsyncRead for OwnedReadHalf {
            fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
                if self.1.is_cut(cx.waker()) {
                    return Poll::Ready(Ok(()));
                }
                Pin::new(&mut self.0).poll_read(cx, b)
            }
        }
        impl AsyncWrite for OwnedWriteHalf {
            fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
                if self.1.is_cut(cx.waker()) {
                    return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
                }
                Pin::new(&mut self.0).poll_write(cx, b)
            }
            fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
                Pin::new(&mut self.0).poll_flush(cx)
            }
            fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
                Pin::new(&mut self.0).poll_shutdown(cx)
            }
        }
    }

    pub struct TcpStream {
        r: tcp::OwnedReadHalf,
        w: tcp::OwnedWriteHalf,
        local: SocketAddr,
        peer: SocketAddr,
    }
    impl std::fmt::Debug for TcpStream {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "TcpStream({} -> {})", self.local, self.peer)
        }
    }
    /// Two connected ends: (end at `a`, end at `b`).
    pub fn pair(a: SocketAddr, b: SocketAddr, capacity: usize) -> (TcpStream, TcpStream) {
        let (aw, br) = tokio::io::duplex(capacity);
        let (bw, ar) = tokio::io::duplex(capacity);
        let wire = Arc::new(Wire::default());
        NET.with(|n| {
            let mut n = n.borrow_mut();
            n.wires.retain(|(_, _, w)| w.strong_count() > 0);
            n.wires.push((a.ip(), b.ip(), Arc::downgrade(&wire)));
        });
        (
            TcpStream { r: tcp::OwnedReadHalf(ar, wire.clone()), w: tcp::OwnedWriteHalf(aw, wire.clone()), local: a, peer: b },
            TcpStream { r: tcp::OwnedReadHalf(br, wire.clone()), w: tcp::OwnedWriteHalf(bw, wire), local: b, peer: a },
        )
    }
    /// Sets which pairs of hosts can reach each other; connections between the others are cut.
    pub fn reachable(f: impl Fn(IpAddr, IpAddr) -> bool + 'static) {
        let cut: Vec<_> = NET.with(|n| {
            let mut n = n.borrow_mut();
            let c = n.wires.iter().filter(|(a, b, _)| !f(*a, *b)).filter_map(|(_, _, w)| w.upgrade()).collect();
            n.reach = Some(Box::new(f));
            c
        });
        for w in cut {
            w.cut();
        }
    }
    #[derive(Default)]
    struct Network {
        listening: HashMap<SocketAddr, mpsc::UnboundedSender<TcpStream>>,
        next_port: u16,
        /// connections asked for
        dialled: Vec<SocketAddr>,
        /// the address this process dials from
        from: Option<SocketAddr>,
        /// where the running code dials from, when several hosts are simulated
        origin: Option<fn() -> Option<IpAddr>>,
        wires: Vec<(IpAddr, IpAddr, std::sync::Weak<Wire>)>,
        reach: Option<Box<dyn Fn(IpAddr, IpAddr) -> bool>>,
    }
    thread_local! {
        static NET: RefCell<Network> = RefCell::new(Network::default());
    }
    /// Forgets every listener.
    pub fn reset() {
        NET.with(|n| *n.borrow_mut() = Network::default());
    }
    pub fn dialled() -> Vec<SocketAddr> {
        NET.with(|n| n.borrow().dialled.clone())
    }
    pub fn dial_from(a: SocketAddr) {
        NET.with(|n| n.borrow_mut().from = Some(a));
    }
    pub fn origin(f: fn() -> Option<IpAddr>) {
        NET.with(|n| n.borrow_mut().origin = Some(f));
    }
    /// A connection made from outside, if someone listens at `to`.
    pub fn connect_from(from: SocketAddr, to: SocketAddr) -> Option<TcpStream> {
        if NET.with(|n| n.borrow().reach.as_ref().is_some_and(|r| !r(from.ip(), to.ip()))) {
            return None;
        }
        let (ours, theirs) = pair(from, to, 1 << 20);
        NET.with(|n| n.borrow().listening.get(&to).and_then(|l| l.send(theirs).ok())).map(|()| ours)
    }
    impl TcpStream {
        pub async fn connect(to: SocketAddr) -> io::Result<TcpStream> {
            let from = NET.with(|n| {
                let mut n = n.borrow_mut();
                n.dialled.push(to);
                n.next_port = n.next_port.wrapping_add(1);
                let p = 40_000 + n.next_port % 20_000;
                let ip = n.origin.and_then(|f| f()).or_else(|| n.from.map(|a| a.ip())).unwrap_or_else(|| std::net::IpAddr::from([127, 0, 0, 1]));
                SocketAddr::new(ip, p)
            });
            connect_from(from, to).ok_or_else(|| io::Error::new(io::ErrorKind::ConnectionRefused, "connection refused"))
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.local)
        }
        pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
            (self.r, self.w)
        }
    }
    pub struct TcpListener {
        rx: tokio::sync::Mutex<mpsc::UnboundedReceiver<TcpStream>>,
    }
    impl TcpListener {
        pub async fn bind(at: &SocketAddr) -> io::Result<TcpListener> {
            let (tx, rx) = mpsc::unbounded_channel();
            let taken = NET.with(|n| n.borrow_mut().listening.insert(*at, tx).is_some_and(|o| !o.is_closed()));
            if taken {
                return Err(io::Error::new(io::ErrorKind::AddrInUse, "address in use"));
            }
            Ok(TcpListener { rx: tokio::sync::Mutex::new(rx) })
        }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            match self.rx.lock().await.recv().await {
                Some(s) => {
                    let p = s.peer;
                    Ok((s, p))
                }
                None => std::future::pending().await,
            }
        }
    }
}
