use crate::rt;
use ::std::io;
use ::std::sync::Arc;
pub use ::std::thread::*;

pub struct JoinHandle<T> {
    slot: Arc<rt::ThreadSlot<T>>,
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        let key = Arc::as_ptr(&self.slot) as *const u8 as usize;
        loop {
            rt::seam("join");
            if let Some(r) = self
                .slot
                .result
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .take()
            {
                return r;
            }
            rt::block(key, "join");
        }
    }
    pub fn is_finished(&self) -> bool {
        rt::seam("is_finished");
        self.slot
            .result
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .is_some()
    }
}

#[derive(Default, Debug)]
pub struct Builder {
    name: Option<String>,
}

impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let (sim, _) = rt::me().expect("thread started outside the simulation");
        let (_, slot) = rt::spawn_in(&sim, self.name.unwrap_or_else(|| "worker".into()), f);
        rt::seam("spawn");
        Ok(JoinHandle { slot })
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("spawn")
}

pub fn sleep(d: ::std::time::Duration) {
    rt::sleep(d.as_nanos() as u64);
}

pub fn yield_now() {
    rt::seam("yield");
}
