//! What the simulated machine starts with: mods, servers, game files.
use crate::refpak::{self, Foreign};
use serde_json::{json, Value};
use simcore::Ctx;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

pub const GAME: &str = "SimGame";

/// Scratch directory of one run.
pub struct Scratch(pub PathBuf);
static COUNT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let d = simcore::driver::scratch_root().join(format!(
            "mm-{:010}-{:010}",
            std::process::id(),
            COUNT.fetch_add(1, Ordering::Relaxed)
        ));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dep {
    pub id: String,
    pub req: String,
    pub url: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub id: String,
    pub version: String,
    pub name: String,
    pub author: Option<String>,
    pub description: Option<String>,
    pub build: Option<String>,
    pub sync: Option<&'static str>,
    pub homepage: Option<String>,
    pub index_url: Option<String>,
    pub deps: Vec<Dep>,
    pub integrator: Vec<(String, Value)>,
    pub dlls: Vec<String>,
    pub priority: u32,
    /// further files in the pak
    pub files: Vec<(String, Vec<u8>)>,
    pub v1: bool,
}

impl Spec {
    pub fn new(id: &str, version: &str) -> Spec {
        Spec {
            id: id.into(),
            version: version.into(),
            name: format!("{id} Mod"),
            author: None,
            description: None,
            build: None,
            sync: None,
            homepage: None,
            index_url: None,
            deps: vec![],
            integrator: vec![],
            dlls: vec![],
            priority: 1,
            files: vec![],
            v1: false,
        }
    }
    pub fn file_name(&self) -> String {
        format!("{:03}-{}-{}_P.pak", self.priority, self.id, self.version)
    }
    pub fn metadata(&self) -> Value {
        let mut m = json!({
            "name": self.name,
            "mod_id": self.id,
            "version": self.version,
        });
        if !self.v1 {
            m["schema_version"] = json!(2);
        }
        for (k, v) in [
            ("author", &self.author),
            ("description", &self.description),
            ("game_build", &self.build),
            ("homepage", &self.homepage),
        ] {
            if let Some(v) = v {
                m[k] = json!(v);
            }
        }
        if let Some(s) = self.sync {
            m["sync"] = json!(s);
        }
        if let Some(u) = &self.index_url {
            m["download"] = json!({"type": "index_file", "url": u});
        }
        if self.v1 {
            for (k, v) in &self.integrator {
                m[k] = v.clone();
            }
            return m;
        }
        if !self.deps.is_empty() {
            let mut d = serde_json::Map::new();
            for x in &self.deps {
                d.insert(
                    x.id.clone(),
                    match &x.url {
                        None => json!(x.req),
                        Some(u) => json!({"version": x.req, "download": {"type": "index_file", "url": u}}),
                    },
                );
            }
            m["dependencies"] = Value::Object(d);
        }
        if !self.integrator.is_empty() {
            m["integrator"] = Value::Object(self.integrator.iter().cloned().collect());
        }
        if !self.dlls.is_empty() {
            m["cpp_loader_dlls"] = json!(self.dlls);
        }
        m
    }
    pub fn pak(&self) -> Vec<u8> {
        let mut files = vec![(
            "metadata.json".to_string(),
            serde_json::to_vec(&self.metadata()).unwrap(),
        )];
        files.extend(self.files.iter().cloned());
        pak(8, &files)
    }
}

pub fn pak(version: u32, files: &[(String, Vec<u8>)]) -> Vec<u8> {
    refpak::encode(&Foreign {
        base: 0,
        version,
        mount: "../../../".into(),
        block_size: 65536,
        files: files.iter().map(|(n, d)| (n.clone(), d.clone(), d.len() > 64, 0)).collect(),
        wide: 0,
        with_path_hash: true,
        slot: 0,
        legacy_method: 0,
    })
}

pub fn data(ctx: &mut Ctx, max: u64) -> Vec<u8> {
    let n = ctx.range(0, max) as usize;
    let mut p = ctx.sub_prng();
    (0..n).map(|_| (p.next() & 0x3f) as u8 + 32).collect()
}

pub fn put(p: &Path, d: &[u8]) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, d).unwrap();
}

/// A sim-error found by looking at a real directory (no faults, no seams).
pub fn listing(p: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    let mut out = std::collections::BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            let d = std::fs::read(e.path()).unwrap_or_default();
            out.insert(n, d);
        }
    }
    out
}
