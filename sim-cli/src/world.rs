use simcore::{Ctx, Violation};
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub type Tree = BTreeMap<String, Vec<u8>>;

static N: AtomicU64 = AtomicU64::new(0);

/// A scratch world: one directory all file-system effects stay in.
pub struct World {
    pub base: PathBuf,
    pub root: PathBuf,
    pub dirseed: u64,
}

pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub ops: Vec<(String, String)>,
    pub fired: Vec<String>,
    pub escapes: Vec<String>,
    pub stderr: String,
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
}

impl World {
    pub fn new() -> World {
        let base = simcore::driver::scratch_root().join(format!(
            "w{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        let root = base.join("root");
        std::fs::create_dir_all(&root).expect("scratch world");
        World {
            base,
            root,
            dirseed: 0,
        }
    }
    pub fn cli(&self, cwd: &Path, args: &[String], plan: &str) -> Run {
        let dir = simcore::driver::verif_dir();
        let log = self.base.join("log");
        let mut c = Command::new(dir.join("gen/target/debug/unreal_pak_cli"));
        c.args(args)
            .current_dir(cwd)
            .env_clear()
            .env("LD_PRELOAD", dir.join("gen/fsshim.so"))
            .env("SIM_ROOT", &self.root)
            .env("SIM_LOG", &log)
            .env("SIM_PLAN", plan)
            .env("SIM_DIRSEED", self.dirseed.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped());
        unsafe {
            c.pre_exec(|| {
                // RLIMIT_CPU 20 s, RLIMIT_AS 3 GiB, no core files
                setrlimit(0, &RLimit { cur: 20, max: 25 });
                setrlimit(9, &RLimit { cur: 3 << 30, max: 3 << 30 });
                setrlimit(4, &RLimit { cur: 0, max: 0 });
                Ok(())
            });
        }
        let out = c.output().expect("run unreal_pak_cli");
        let raw = std::fs::read(&log).unwrap_or_default();
        let mut r = Run {
            code: out.status.code(),
            signal: out.status.signal(),
            ops: vec![],
            fired: vec![],
            escapes: vec![],
            stderr: String::from_utf8_lossy(&out.stderr).chars().take(300).collect(),
        };
        assert!(raw.len() > 8, "fault shim produced no log");
        let len = u32::from_le_bytes(raw[..4].try_into().unwrap()) as usize;
        let text = String::from_utf8_lossy(&raw[8..8 + len]).into_owned();
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("op ") {
                let mut it = x.splitn(3, ' ');
                it.next();
                let w = it.next().unwrap_or("").to_string();
                r.ops.push((w, it.next().unwrap_or("").to_string()));
            } else if let Some(x) = l.strip_prefix("FIRED ") {
                r.fired.push(x.to_string());
            } else if let Some(x) = l.strip_prefix("ESCAPE ") {
                r.escapes.push(x.to_string());
            }
        }
        r
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.base);
    }
}

pub fn note(ctx: &mut Ctx, what: &str, r: &Run) {
    for f in &r.fired {
        let name = match &f[..1] {
            "e" => "eio",
            "a" => "eacces",
            "m" => "emfile",
            "n" => "enospc",
            "s" => "short",
            "i" => "eintr",
            "c" => "crash",
            "z" => "early-eof",
            _ => "other",
        };
        ctx.fault(&format!("{name}-{}", &f[2..]));
    }
    ctx.event(format!(
        "{what}: exit={:?} signal={:?} calls={} fired={:?} escapes={}",
        r.code,
        r.signal,
        r.ops.len(),
        r.fired,
        r.escapes.len()
    ));
    ctx.sim_us += r.ops.len() as u64;
}

pub fn read_tree(dir: &Path) -> Tree {
    fn walk(base: &Path, d: &Path, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd {
            let e = e.unwrap();
            let p = e.path();
            if e.file_type().unwrap().is_dir() {
                walk(base, &p, t);
            } else {
                let n = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                t.insert(n, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut t = Tree::new();
    walk(dir, dir, &mut t);
    t
}

pub fn write_tree(dir: &Path, t: &Tree) {
    std::fs::create_dir_all(dir).unwrap();
    for (n, d) in t {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, d).unwrap();
    }
}

pub fn no_signal(r: &Run, what: &str) -> Result<(), Violation> {
    if let Some(s) = r.signal {
        return Err(Violation::new(
            format!("killed:{what}"),
            format!("{what} ended by signal {s}: {}", r.stderr),
        ));
    }
    Ok(())
}
