//! The user's directories lie in the run's scratch directory.
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct BaseDirs {
    home: PathBuf,
    local: PathBuf,
}
impl BaseDirs {
    pub fn new() -> Option<BaseDirs> {
        simstd::rt::seam("base_dirs");
        simstd::rt::with(|i| {
            i.base_dirs.then(|| BaseDirs {
                home: i.root.join("home"),
                local: i.root.join("local"),
            })
        })
    }
    pub fn home_dir(&self) -> &Path {
        &self.home
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.local
    }
    pub fn data_dir(&self) -> &Path {
        &self.local
    }
    pub fn config_dir(&self) -> &Path {
        &self.local
    }
    pub fn cache_dir(&self) -> &Path {
        &self.local
    }
}
