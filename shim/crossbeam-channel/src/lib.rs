//! Stand-in for crossbeam-channel over the channels of the standard library.
use std::sync::mpsc;
pub use mpsc::{RecvTimeoutError, SendError};
pub struct Sender<T>(mpsc::SyncSender<T>);
pub struct Receiver<T>(mpsc::Receiver<T>);
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let (a, b) = mpsc::sync_channel(n);
    (Sender(a), Receiver(b))
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t)
    }
}
impl<T> Receiver<T> {
    pub fn recv_deadline(&self, d: std::time::Instant) -> Result<T, RecvTimeoutError> {
        self.0.recv_timeout(d.saturating_duration_since(std::time::Instant::now()))
    }
}
