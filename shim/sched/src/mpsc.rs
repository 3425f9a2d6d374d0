//! `std::sync::mpsc` rebuilt on the scheduled Mutex and Condvar.
use crate::sync::{Condvar, Mutex};
use std::collections::VecDeque;
use std::sync::Arc;
pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use std::time::Duration;

struct Q<T> {
    q: VecDeque<T>,
    senders: usize,
    recv_alive: bool,
    cap: Option<usize>,
    taken: u64,
}
struct Chan<T> {
    m: Mutex<Q<T>>,
    not_empty: Condvar,
    not_full: Condvar,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn chan<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        m: Mutex::new(Q { q: VecDeque::new(), senders: 1, recv_alive: true, cap, taken: 0 }),
        not_empty: Condvar::new(),
        not_full: Condvar::new(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = chan(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = chan(Some(n));
    (SyncSender(c.clone()), Receiver(c))
}
impl<T> Chan<T> {
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.m.lock().unwrap();
        loop {
            if !g.recv_alive {
                return Err(SendError(t));
            }
            match g.cap {
                Some(c) if g.q.len() >= c.max(1) => g = self.not_full.wait(g).unwrap(),
                _ => break,
            }
        }
        g.q.push_back(t);
        let rendezvous = g.cap == Some(0);
        let target = g.taken + g.q.len() as u64;
        drop(g);
        self.not_empty.notify_one();
        if rendezvous {
            let mut g = self.m.lock().unwrap();
            while g.taken < target && g.recv_alive {
                g = self.not_full.wait(g).unwrap();
            }
        }
        Ok(())
    }
    fn add(&self) {
        self.m.lock().unwrap().senders += 1;
    }
    fn del(&self) {
        let mut g = match self.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        g.senders -= 1;
        let last = g.senders == 0;
        drop(g);
        if last {
            self.not_empty.notify_all();
        }
    }
}
macro_rules! snd {
    ($S:ident) => {
        impl<T> $S<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t)
            }
        }
        impl<T> Clone for $S<T> {
            fn clone(&self) -> Self {
                self.0.add();
                $S(self.0.clone())
            }
        }
        impl<T> Drop for $S<T> {
            fn drop(&mut self) {
                self.0.del()
            }
        }
        impl<T> std::fmt::Debug for $S<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($S))
            }
        }
    };
}
snd!(Sender);
snd!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        if !g.recv_alive {
            return Err(TrySendError::Disconnected(t));
        }
        if g.cap.is_some_and(|c| g.q.len() >= c.max(1)) {
            return Err(TrySendError::Full(t));
        }
        g.q.push_back(t);
        drop(g);
        self.0.not_empty.notify_one();
        Ok(())
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                drop(g);
                self.0.not_full.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g = self.0.not_empty.wait(g).unwrap();
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        if let Some(t) = g.q.pop_front() {
            g.taken += 1;
            drop(g);
            self.0.not_full.notify_all();
            return Ok(t);
        }
        if g.senders == 0 {
            return Err(TryRecvError::Disconnected);
        }
        Err(TryRecvError::Empty)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let start = crate::time::Instant::now();
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                drop(g);
                self.0.not_full.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            let left = match d.checked_sub(start.elapsed()) {
                Some(l) if !l.is_zero() => l,
                _ => return Err(RecvTimeoutError::Timeout),
            };
            g = self.0.not_empty.wait_timeout(g, left).unwrap().0;
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let mut g = match self.0.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        g.recv_alive = false;
        let q = std::mem::take(&mut g.q);
        drop(g);
        drop(q);
        self.0.not_full.notify_all();
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Receiver")
    }
}
