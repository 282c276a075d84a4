//! Stand-in for the crate of this name: a channel for one value, which blocks the receiver (only what chainstate uses).
use std::sync::mpsc;
pub struct Sender<T>(mpsc::SyncSender<T>);
pub struct Receiver<T>(mpsc::Receiver<T>);
pub struct SendError<T>(pub T);
impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RecvError;
impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("receiving on a closed channel") } }
impl std::error::Error for RecvError {}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let (a, b) = mpsc::sync_channel(1); (Sender(a), Receiver(b)) }
impl<T> Sender<T> { pub fn send(self, v: T) -> Result<(), SendError<T>> { self.0.send(v).map_err(|e| SendError(e.0)) } }
impl<T> Receiver<T> { pub fn recv(self) -> Result<T, RecvError> { self.0.recv().map_err(|_| RecvError) } }
