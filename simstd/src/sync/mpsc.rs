use crate::rt;
use ::std::collections::VecDeque;
use ::std::sync::{Arc, Mutex};
pub use ::std::sync::mpsc::{
    RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
};

struct State<T> {
    q: VecDeque<T>,
    senders: usize,
    alive: bool,
}
struct Chan<T> {
    st: Mutex<State<T>>,
}
impl<T> Chan<T> {
    fn lock(&self) -> ::std::sync::MutexGuard<'_, State<T>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn key(&self) -> usize {
        self as *const Chan<T> as *const u8 as usize
    }
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
pub type SyncSender<T> = Sender<T>;

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        st: Mutex::new(State {
            q: VecDeque::new(),
            senders: 1,
            alive: true,
        }),
    });
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(_: usize) -> (SyncSender<T>, Receiver<T>) {
    channel()
}

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        rt::seam("send");
        let mut g = self.0.lock();
        if !g.alive {
            return Err(SendError(t));
        }
        g.q.push_back(t);
        drop(g);
        rt::wake(self.0.key());
        rt::seam("sent");
        Ok(())
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.lock().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.lock().senders -= 1;
        rt::wake(self.0.key());
    }
}
impl<T> ::std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Sender")
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        rt::seam("recv");
        loop {
            {
                let mut g = self.0.lock();
                if let Some(v) = g.q.pop_front() {
                    return Ok(v);
                }
                if g.senders == 0 {
                    return Err(RecvError);
                }
            }
            rt::block(self.0.key(), "recv");
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::seam("try_recv");
        let mut g = self.0.lock();
        match g.q.pop_front() {
            Some(v) => Ok(v),
            None if g.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: ::std::time::Duration) -> Result<T, RecvTimeoutError> {
        let end = rt::now() + d.as_nanos() as u64;
        loop {
            match self.try_recv() {
                Ok(v) => return Ok(v),
                Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => {}
            }
            if rt::now() >= end {
                return Err(RecvTimeoutError::Timeout);
            }
            rt::sleep(1_000_000);
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let mut g = self.0.lock();
        g.alive = false;
        let q = ::std::mem::take(&mut g.q);
        drop(g);
        drop(q);
    }
}
impl<T> ::std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Receiver")
    }
}
