//! `tokio` as the broker sees it in the simulator: the real one, except that tasks, the network, the
//! interrupt signal and the runtime belong to the simulator.
pub use tokio_real::*;

pub use simcore::sched::spawn_broker as spawn;

pub mod task {
    pub use simcore::sched::spawn_broker as spawn;
    pub use tokio_real::task::*;

    /// Runs at once: there is only one thread
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        simcore::sched::spawn_broker(async move { f() })
    }
    pub fn block_in_place<F, R>(f: F) -> R
    where
        F: FnOnce() -> R,
    {
        f()
    }

    /// The real set, of tasks that the simulator schedules
    pub struct JoinSet<T>(tokio_real::task::JoinSet<T>);

    impl<T> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(tokio_real::task::JoinSet::new())
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn spawn<F>(&mut self, task: F) -> AbortHandle
        where
            F: std::future::Future<Output = T> + Send + 'static,
            T: Send,
        {
            self.0.spawn(simcore::sched::broker_gate(task))
        }
        pub fn spawn_on<F>(&mut self, task: F, _: &crate::runtime::Handle) -> AbortHandle
        where
            F: std::future::Future<Output = T> + Send + 'static,
            T: Send,
        {
            self.spawn(task)
        }
        pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send,
        {
            self.spawn(async move { f() })
        }
    }
    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> std::fmt::Debug for JoinSet<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T> std::ops::Deref for JoinSet<T> {
        type Target = tokio_real::task::JoinSet<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> std::ops::DerefMut for JoinSet<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<T, F> FromIterator<F> for JoinSet<T>
    where
        F: std::future::Future<Output = T> + Send + 'static,
        T: Send + 'static,
    {
        fn from_iter<I: IntoIterator<Item = F>>(iter: I) -> Self {
            let mut set = Self::new();
            for f in iter {
                set.spawn(f);
            }
            set
        }
    }
}

pub mod runtime {
    pub use tokio_real::runtime::*;
    use std::future::Future;

    pub struct Builder(());

    impl Builder {
        pub fn new_multi_thread() -> Self {
            Builder(())
        }
        pub fn new_current_thread() -> Self {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn global_queue_interval(&mut self, _: u32) -> &mut Self {
            self
        }
        pub fn event_interval(&mut self, _: u32) -> &mut Self {
            self
        }
        pub fn thread_keep_alive(&mut self, _: std::time::Duration) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        /// The simulator takes over: this returns once per run, in a process of its own
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            simcore::orch::take_over();
            Ok(Runtime(()))
        }
    }

    pub struct Runtime(());

    impl Runtime {
        pub fn new() -> std::io::Result<Self> {
            Builder(()).build()
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            simcore::orch::run_main(f)
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            Handle(()).spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            crate::task::spawn_blocking(f)
        }
        pub fn handle(&self) -> &Handle {
            &Handle(())
        }
        pub fn enter(&self) -> EnterGuard {
            EnterGuard(())
        }
        pub fn shutdown_timeout(self, _: std::time::Duration) {}
        pub fn shutdown_background(self) {}
    }

    pub struct EnterGuard(());

    #[derive(Clone, Debug)]
    pub struct Handle(());

    impl Handle {
        pub fn current() -> Self {
            Handle(())
        }
        pub fn try_current() -> Result<Self, TryCurrentError> {
            Ok(Handle(()))
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            simcore::sched::spawn_broker(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            crate::task::spawn_blocking(f)
        }
        pub fn enter(&self) -> EnterGuard {
            EnterGuard(())
        }
    }
}

pub mod sync {
    pub use tokio_real::sync::*;

    pub mod mpsc {
        pub use tokio_real::sync::mpsc::*;
        use std::task::{Context, Poll};

        /// The real receiver, which now and then has nothing to give yet although it could
        #[derive(Debug)]
        pub struct Receiver<T>(tokio_real::sync::mpsc::Receiver<T>);

        pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
            let (tx, rx) = tokio_real::sync::mpsc::channel(n);
            (tx, Receiver(rx))
        }

        impl<T> Receiver<T> {
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                if simcore::sched::io_yield(cx) {
                    return Poll::Pending;
                }
                self.0.poll_recv(cx)
            }
            pub async fn recv_many(&mut self, buffer: &mut Vec<T>, limit: usize) -> usize {
                self.0.recv_many(buffer, limit).await
            }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                self.0.try_recv()
            }
            pub fn close(&mut self) {
                self.0.close()
            }
        }
        impl<T> std::ops::Deref for Receiver<T> {
            type Target = tokio_real::sync::mpsc::Receiver<T>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<T> std::ops::DerefMut for Receiver<T> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
    }
}

pub mod signal {
    pub use tokio_real::signal::*;

    pub async fn ctrl_c() -> std::io::Result<()> {
        let mut seen = simcore::net::sig_subscribe();
        std::future::poll_fn(|cx| simcore::net::poll_signal(&mut seen, cx)).await;
        Ok(())
    }

    pub mod unix {
        pub use tokio_real::signal::unix::SignalKind;
        use std::task::{Context, Poll};

        #[derive(Debug)]
        pub struct Signal {
            seen: u64,
            interrupt: bool,
        }
        pub fn signal(kind: SignalKind) -> std::io::Result<Signal> {
            let interrupt = kind == SignalKind::interrupt();
            let seen = if interrupt { simcore::net::sig_subscribe() } else { 0 };
            Ok(Signal { seen, interrupt })
        }
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
                if !self.interrupt {
                    return Poll::Pending;
                }
                simcore::net::poll_signal(&mut self.seen, cx).map(Some)
            }
        }
    }
}

pub mod net {
    pub use tokio_real::net::*;
    use simcore::net::{Listener, Stream};
    use std::{
        io,
        net::SocketAddr,
        pin::Pin,
        sync::Arc,
        task::{Context, Poll},
    };
    use tokio_real::io::{AsyncRead, AsyncWrite, Interest, ReadBuf, Ready};

    #[derive(Debug)]
    pub struct TcpStream(Arc<Stream>);

    pub struct TcpListener(Listener);

    impl std::fmt::Debug for TcpListener {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "TcpListener({})", self.0.local_addr())
        }
    }

    /// A socket before it listens
    #[derive(Debug)]
    pub struct TcpSocket(std::cell::Cell<Option<SocketAddr>>);

    impl TcpSocket {
        pub fn new_v4() -> io::Result<Self> {
            Ok(TcpSocket(std::cell::Cell::new(None)))
        }
        pub fn new_v6() -> io::Result<Self> {
            Self::new_v4()
        }
        pub fn set_reuseaddr(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn set_reuseport(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn set_keepalive(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn set_send_buffer_size(&self, _: u32) -> io::Result<()> {
            Ok(())
        }
        pub fn set_recv_buffer_size(&self, _: u32) -> io::Result<()> {
            Ok(())
        }
        pub fn bind(&self, addr: SocketAddr) -> io::Result<()> {
            self.0.set(Some(addr));
            Ok(())
        }
        pub fn listen(self, _: u32) -> io::Result<TcpListener> {
            let addr = self.0.get().ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
            Ok(TcpListener(Listener::bind(addr)?))
        }
    }

    impl TcpListener {
        pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
            let mut addrs = tokio_real::net::lookup_host(addr).await?;
            let addr = addrs.next().ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
            Ok(TcpListener(Listener::bind(addr)?))
        }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            std::future::poll_fn(|cx| self.poll_accept(cx)).await
        }
        pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
            self.0.poll_accept(cx).map_ok(|(s, a)| (TcpStream(Arc::new(s)), a))
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.0.local_addr())
        }
        pub fn ttl(&self) -> io::Result<u32> {
            Ok(64)
        }
        pub fn set_ttl(&self, _: u32) -> io::Result<()> {
            Ok(())
        }
    }

    impl TcpStream {
        pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
            (tcp::OwnedReadHalf(self.0.clone()), tcp::OwnedWriteHalf(self.0, true))
        }
        pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
            (tcp::ReadHalf(&self.0), tcp::WriteHalf(&self.0))
        }
    }

    macro_rules! methods {
        ($t:ty) => {
            impl $t {
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    self.0.peer_addr()
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    Ok(SocketAddr::from(([127, 0, 0, 1], 1883)))
                }
                pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
                    Ok(())
                }
                pub fn nodelay(&self) -> io::Result<bool> {
                    Ok(true)
                }
                pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
                    Ok(())
                }
                pub fn set_ttl(&self, _: u32) -> io::Result<()> {
                    Ok(())
                }
                pub fn take_error(&self) -> io::Result<Option<io::Error>> {
                    Ok(None)
                }
                pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
                    let mut b = ReadBuf::new(buf);
                    std::future::poll_fn(|cx| self.0.poll_read_shared(cx, &mut b, true)).await?;
                    Ok(b.filled().len())
                }
                pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                    let w = std::task::Waker::noop();
                    let mut b = ReadBuf::new(buf);
                    match self.0.poll_read_shared(&mut Context::from_waker(w), &mut b, false) {
                        Poll::Ready(r) => r.map(|()| b.filled().len()),
                        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
                    }
                }
                pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
                    let w = std::task::Waker::noop();
                    match self.0.poll_write_shared(&mut Context::from_waker(w), buf) {
                        Poll::Ready(r) => r,
                        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
                    }
                }
                pub async fn readable(&self) -> io::Result<()> {
                    let mut one = [0u8; 1];
                    let mut b = ReadBuf::new(&mut one);
                    let _ = std::future::poll_fn(|cx| self.0.poll_read_shared(cx, &mut b, true)).await;
                    Ok(())
                }
                pub async fn writable(&self) -> io::Result<()> {
                    std::future::poll_fn(|cx| self.0.poll_writable(cx)).await;
                    Ok(())
                }
                pub async fn ready(&self, interest: Interest) -> io::Result<Ready> {
                    if interest.is_readable() {
                        self.readable().await?;
                        Ok(Ready::READABLE)
                    } else {
                        self.writable().await?;
                        Ok(Ready::WRITABLE)
                    }
                }
            }
        };
    }
    methods!(TcpStream);

    macro_rules! reads {
        ($t:ty) => {
            impl AsyncRead for $t {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                    self.0.poll_read_shared(cx, out, false)
                }
            }
        };
    }
    macro_rules! writes {
        ($t:ty) => {
            impl AsyncWrite for $t {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
                    self.0.poll_write_shared(cx, data)
                }
                fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    Poll::Ready(Ok(()))
                }
                fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    Poll::Ready(self.0.shutdown_shared())
                }
            }
        };
    }
    reads!(TcpStream);
    writes!(TcpStream);

    pub mod tcp {
        use super::*;

        #[derive(Debug)]
        pub struct OwnedReadHalf(pub(super) Arc<Stream>);
        #[derive(Debug)]
        pub struct OwnedWriteHalf(pub(super) Arc<Stream>, pub(super) bool);
        #[derive(Debug)]
        pub struct ReadHalf<'a>(pub(super) &'a Arc<Stream>);
        #[derive(Debug)]
        pub struct WriteHalf<'a>(pub(super) &'a Arc<Stream>);
        reads!(OwnedReadHalf);
        writes!(OwnedWriteHalf);
        reads!(ReadHalf<'_>);
        writes!(WriteHalf<'_>);
        methods!(OwnedReadHalf);
        methods!(OwnedWriteHalf);
        methods!(ReadHalf<'_>);
        methods!(WriteHalf<'_>);

        impl OwnedWriteHalf {
            pub fn forget(mut self) {
                self.1 = false;
            }
        }
        impl OwnedReadHalf {
            pub fn reunite(self, other: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
                if Arc::ptr_eq(&self.0, &other.0) {
                    other.forget();
                    Ok(TcpStream(self.0))
                } else {
                    Err(ReuniteError(self, other))
                }
            }
        }
        #[derive(Debug)]
        pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
        impl Drop for OwnedWriteHalf {
            fn drop(&mut self) {
                if self.1 {
                    let _ = self.0.shutdown_shared();
                }
            }
        }
    }
}
