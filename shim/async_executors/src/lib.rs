//! Stand-in for async_executors: the timer trait linkspace-common names.
pub trait Timer {
    fn sleep(&self, dur: std::time::Duration) -> futures::future::BoxFuture<'static, ()>;
}
pub trait TimerExt: Timer {}
impl<T: Timer + ?Sized> TimerExt for T {}
impl Timer for futures::executor::LocalSpawner {
    fn sleep(&self, dur: std::time::Duration) -> futures::future::BoxFuture<'static, ()> {
        let until = std::time::Instant::now() + dur;
        Box::pin(std::future::poll_fn(move |cx| {
            if std::time::Instant::now() >= until {
                return std::task::Poll::Ready(());
            }
            let w = cx.waker().clone();
            std::thread::spawn(move || {
                std::thread::sleep(until.saturating_duration_since(std::time::Instant::now()));
                w.wake()
            });
            std::task::Poll::Pending
        }))
    }
}
