//! Stand-in for the part of futures that linkspace-common names: the local spawn traits, a
//! single-threaded pool, and an unbounded channel.
pub use std::future::Future;
pub use stream::{Stream, StreamExt};

pub mod future {
    use std::{
        future::Future,
        pin::Pin,
        task::{Context, Poll},
    };
    pub type BoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
    pub type LocalBoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
    pub struct LocalFutureObj<'a, T>(pub(crate) LocalBoxFuture<'a, T>);
    impl<'a, T> From<Box<dyn Future<Output = T> + 'a>> for LocalFutureObj<'a, T> {
        fn from(v: Box<dyn Future<Output = T> + 'a>) -> Self {
            LocalFutureObj(v.into())
        }
    }
    impl<'a, T> Future for LocalFutureObj<'a, T> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
            self.0.as_mut().poll(cx)
        }
    }
}
pub mod stream {
    use std::{
        future::Future,
        pin::Pin,
        task::{Context, Poll},
    };
    pub trait Stream {
        type Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
    }
    pub struct Next<'a, S: ?Sized>(&'a mut S);
    impl<'a, S: Stream + Unpin + ?Sized> Future for Next<'a, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut *self.0).poll_next(cx)
        }
    }
    pub trait StreamExt: Stream {
        fn next(&mut self) -> Next<'_, Self>
        where
            Self: Unpin,
        {
            Next(self)
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}
pub mod task {
    use crate::future::LocalFutureObj;
    use std::future::Future;
    #[derive(Debug)]
    pub struct SpawnError(());
    impl SpawnError {
        pub fn shutdown() -> Self {
            SpawnError(())
        }
    }
    impl std::fmt::Display for SpawnError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Executor is shutdown")
        }
    }
    impl std::error::Error for SpawnError {}
    pub trait LocalSpawn {
        fn spawn_local_obj(&self, future: LocalFutureObj<'static, ()>) -> Result<(), SpawnError>;
        fn status_local(&self) -> Result<(), SpawnError> {
            Ok(())
        }
    }
    pub trait LocalSpawnExt: LocalSpawn {
        fn spawn_local<F: Future<Output = ()> + 'static>(&self, f: F) -> Result<(), SpawnError> {
            self.spawn_local_obj(LocalFutureObj(Box::pin(f)))
        }
    }
    impl<S: LocalSpawn + ?Sized> LocalSpawnExt for S {}
}
pub mod executor {
    use crate::{
        future::LocalFutureObj,
        task::{LocalSpawn, SpawnError},
    };
    use std::{
        cell::RefCell,
        future::Future,
        pin::pin,
        rc::{Rc, Weak},
        sync::{
            atomic::{AtomicBool, Ordering},
            Arc,
        },
        task::{Context, Poll, Wake, Waker},
    };
    struct Flag(AtomicBool, std::thread::Thread);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Ordering::SeqCst);
            self.1.unpark()
        }
    }
    fn flag() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(true), std::thread::current()))
    }
    type Incoming = RefCell<Vec<LocalFutureObj<'static, ()>>>;
    pub struct LocalPool {
        tasks: Vec<(Arc<Flag>, LocalFutureObj<'static, ()>)>,
        incoming: Rc<Incoming>,
    }
    #[derive(Clone)]
    pub struct LocalSpawner(Weak<Incoming>);
    impl LocalSpawn for LocalSpawner {
        fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
            self.0.upgrade().ok_or_else(SpawnError::shutdown)?.borrow_mut().push(f);
            Ok(())
        }
        fn status_local(&self) -> Result<(), SpawnError> {
            self.0.upgrade().map(|_| ()).ok_or_else(SpawnError::shutdown)
        }
    }
    impl Default for LocalPool {
        fn default() -> Self {
            Self::new()
        }
    }
    impl LocalPool {
        pub fn new() -> LocalPool {
            LocalPool { tasks: vec![], incoming: Default::default() }
        }
        pub fn spawner(&self) -> LocalSpawner {
            LocalSpawner(Rc::downgrade(&self.incoming))
        }
        /// Polls what was woken once; whether anything was.
        fn step(&mut self) -> bool {
            let new: Vec<_> = self.incoming.borrow_mut().drain(..).collect();
            self.tasks.extend(new.into_iter().map(|f| (flag(), f)));
            let mut any = false;
            let mut i = 0;
            while i < self.tasks.len() {
                let (fl, fut) = &mut self.tasks[i];
                if !fl.0.swap(false, Ordering::SeqCst) {
                    i += 1;
                    continue;
                }
                any = true;
                let w = Waker::from(fl.clone());
                match std::pin::Pin::new(fut).poll(&mut Context::from_waker(&w)) {
                    Poll::Ready(()) => {
                        let _ = self.tasks.remove(i);
                    }
                    Poll::Pending => i += 1,
                }
            }
            any || !self.incoming.borrow().is_empty()
        }
        pub fn run_until<F: Future>(&mut self, f: F) -> F::Output {
            let mut f = pin!(f);
            let fl = flag();
            let w = Waker::from(fl.clone());
            loop {
                if fl.0.swap(false, Ordering::SeqCst) {
                    if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                        return v;
                    }
                }
                if !self.step() && !fl.0.load(Ordering::SeqCst) {
                    std::thread::park()
                }
            }
        }
        pub fn run_until_stalled(&mut self) {
            while self.step() {}
        }
    }
}
pub mod channel {
    pub mod mpsc {
        use std::{
            collections::VecDeque,
            pin::Pin,
            sync::{Arc, Mutex},
            task::{Context, Poll, Waker},
        };
        struct Ch<T> {
            q: VecDeque<T>,
            senders: usize,
            receiver: bool,
            waker: Option<Waker>,
        }
        pub struct UnboundedSender<T>(Arc<Mutex<Ch<T>>>);
        pub struct UnboundedReceiver<T>(Arc<Mutex<Ch<T>>>);
        pub struct TrySendError<T>(pub T);
        impl<T> std::fmt::Debug for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("TrySendError")
            }
        }
        impl<T> std::fmt::Display for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("send failed because receiver is gone")
            }
        }
        impl<T> std::error::Error for TrySendError<T> {}
        pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let c = Arc::new(Mutex::new(Ch { q: VecDeque::new(), senders: 1, receiver: true, waker: None }));
            (UnboundedSender(c.clone()), UnboundedReceiver(c))
        }
        impl<T> UnboundedSender<T> {
            pub fn unbounded_send(&self, v: T) -> Result<(), TrySendError<T>> {
                let mut c = self.0.lock().unwrap();
                if !c.receiver {
                    return Err(TrySendError(v));
                }
                c.q.push_back(v);
                if let Some(w) = c.waker.take() {
                    w.wake()
                }
                Ok(())
            }
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                self.0.lock().unwrap().senders += 1;
                UnboundedSender(self.0.clone())
            }
        }
        impl<T> Drop for UnboundedSender<T> {
            fn drop(&mut self) {
                let mut c = self.0.lock().unwrap();
                c.senders -= 1;
                if let Some(w) = c.waker.take() {
                    w.wake()
                }
            }
        }
        impl<T> Drop for UnboundedReceiver<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().receiver = false;
            }
        }
        impl<T> crate::Stream for UnboundedReceiver<T> {
            type Item = T;
            fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
                let mut c = self.0.lock().unwrap();
                match c.q.pop_front() {
                    Some(v) => Poll::Ready(Some(v)),
                    None if c.senders == 0 => Poll::Ready(None),
                    None => {
                        c.waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
        }
    }
}
