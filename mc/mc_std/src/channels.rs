//! std::sync::mpsc on top of the stand-in locks.
use rstd::collections::VecDeque;
use rstd::sync::Arc;
use crate::locks::{Mutex, Condvar};
pub use rstd::sync::mpsc::{RecvError, SendError, TryRecvError, TrySendError};

struct Q<T> { q: VecDeque<T>, senders: usize, receiver: bool, cap: Option<usize>, taken: u64 }
struct Ch<T> { m: Mutex<Q<T>>, c: Condvar }
pub struct Sender<T>(Arc<Ch<T>>);
pub struct SyncSender<T>(Arc<Ch<T>>);
pub struct Receiver<T>(Arc<Ch<T>>);
unsafe impl<T: Send> Send for Receiver<T> {}

fn new<T>(cap: Option<usize>) -> Arc<Ch<T>> { Arc::new(Ch { m: Mutex::new(Q { q: VecDeque::new(), senders: 1, receiver: true, cap, taken: 0 }), c: Condvar::new() }) }
pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = new(None); (Sender(c.clone()), Receiver(c)) }
pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) { let c = new(Some(bound)); (SyncSender(c.clone()), Receiver(c)) }

impl<T> Ch<T> {
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.m.lock().unwrap();
        loop {
            if !g.receiver { return Err(SendError(t)) }
            if g.cap.map_or(true, |c| g.q.len() < c.max(1)) { break }
            g = self.c.wait(g).unwrap();
        }
        let rendezvous = g.cap == Some(0);
        let mine = g.taken + g.q.len() as u64 + 1;
        g.q.push_back(t);
        self.c.notify_all();
        while rendezvous && g.receiver && g.taken < mine { g = self.c.wait(g).unwrap(); }
        Ok(())
    }
}
impl<T> Sender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) } }
impl<T> SyncSender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) } }
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.m.lock().unwrap().senders += 1; Sender(self.0.clone()) } }
impl<T> Clone for SyncSender<T> { fn clone(&self) -> Self { self.0.m.lock().unwrap().senders += 1; SyncSender(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.m.lock().unwrap().senders -= 1; self.0.c.notify_all(); } }
impl<T> Drop for SyncSender<T> { fn drop(&mut self) { self.0.m.lock().unwrap().senders -= 1; self.0.c.notify_all(); } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.m.lock().unwrap().receiver = false; self.0.c.notify_all(); } }
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() { g.taken += 1; self.0.c.notify_all(); return Ok(t) }
            if g.senders == 0 { return Err(RecvError) }
            g = self.0.c.wait(g).unwrap();
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        match g.q.pop_front() { Some(t) => { g.taken += 1; self.0.c.notify_all(); Ok(t) } None if g.senders == 0 => Err(TryRecvError::Disconnected), None => Err(TryRecvError::Empty) }
    }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
