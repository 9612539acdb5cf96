pub use ::std::sync::*;
pub mod atomic;
pub mod lock;
pub mod mpsc;
pub use lock::{Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
