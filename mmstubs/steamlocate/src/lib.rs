use std::path::PathBuf;
#[derive(Clone, Debug)]
pub struct SteamDir {
    pub path: PathBuf,
}
#[derive(Clone, Debug)]
pub struct SteamApp {
    pub appid: u32,
    pub path: PathBuf,
}
impl SteamDir {
    pub fn locate() -> Option<SteamDir> {
        simstd::rt::with(|i| Some(SteamDir { path: i.root.join("steam") }))
    }
    pub fn app(&mut self, id: &u32) -> Option<&SteamApp> {
        let a = SteamApp { appid: *id, path: self.path.join("steamapps/common/game") };
        Some(Box::leak(Box::new(a)))
    }
}
