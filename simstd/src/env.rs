use crate::rt;
use ::std::io;
use ::std::path::PathBuf;
pub use ::std::env::*;

pub fn current_exe() -> io::Result<PathBuf> {
    rt::seam("current_exe");
    rt::with(|i| {
        let n = i.env_fault_num;
        if n > 0 && i.ctx.chance(n, 8) {
            i.fault("current-exe-error");
            return Err(io::Error::from_raw_os_error(2));
        }
        Ok(i.root.join("modloader"))
    })
}

pub fn temp_dir() -> PathBuf {
    rt::try_with(|i| i.root.join("tmp")).unwrap_or_else(::std::env::temp_dir)
}
