//! The whole mod manager: GUI thread, background thread, download threads,
//! servers, disk and a simulated user, over several process lives.
use crate::integ::{self, Baked, Conf, HErr, HandlerKind};
use crate::refpak;
use crate::world::*;
use serde_json::{json, Value};
use sha2::Digest;
use simcore::{Ctx, Outcome, Violation};
use simstd::gui::{self, Input, Kind, Widget};
use simstd::rt::{self, Dead, Inner, Resource};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use unreal_mod_manager::config::{GameConfig, IconData, InstallManager};
use unreal_mod_manager::error::{ModLoaderError, ModLoaderWarning};
use unreal_mod_manager::update_info::UpdateInfo;
use unreal_mod_manager::version::GameBuild;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Config,
    Settings,
    Robust,
    Installed,
    Downloads,
    Deps,
    Import,
    Launch,
}

pub const INTEGRATOR_PAK: &str = "900-ModIntegrator_P.pak";

// ------------------------------------------------------------------ machine

#[derive(Clone)]
pub struct Universe {
    pub specs: Vec<Spec>,
    pub healthy: bool,
    pub has_deps: bool,
    pub baked: Vec<Baked>,
    pub resources: BTreeMap<String, Resource>,
    pub good_drops: Vec<PathBuf>,
    pub bad_drops: Vec<PathBuf>,
    pub platforms: Vec<Platform>,
    pub update: bool,
    pub update_fails: bool,
    pub launch_fails: bool,
}

#[derive(Clone, Debug)]
pub struct Platform {
    pub name: &'static str,
    pub install: Option<PathBuf>,
    pub paks: Option<PathBuf>,
    pub build: Option<(usize, usize, usize, usize)>,
}

/// State the disk hook needs; lives in `Inner::world`.
pub struct Hook {
    pub focus: Focus,
    pub mods: PathBuf,
    pub root: PathBuf,
    pub initial_config: Option<Vec<u8>>,
    pub config_valid: bool,
    /// settings at the start of this life, and whether the user touched anything since
    pub saved: Option<Value>,
    pub touched: BTreeSet<&'static str>,
    /// complete contents a mod file may have
    pub known: BTreeMap<String, Vec<Arc<Vec<u8>>>>,
    pub trusted: BTreeSet<Vec<u8>>,
    /// what was installed, at rest, when the user trusted it
    pub trusted_exactly: BTreeSet<Vec<u8>>,
    pub baked: BTreeSet<String>,
    pub launches: u64,
    pub paks: BTreeMap<String, PathBuf>,
}

fn hook_of(i: &mut Inner) -> &mut Hook {
    i.world.as_mut().unwrap().downcast_mut::<Hook>().unwrap()
}

fn violate(i: &mut Inner, class: &str, detail: String) {
    if i.violation.is_none() {
        i.violation = Some(Violation::new(class, detail));
    }
    i.kill_all(Dead::Exit);
}

fn valid_config(b: &[u8]) -> Option<Value> {
    let v: Value = serde_json::from_slice(b).ok()?;
    if v.get("refuse_mismatched_connections")?.is_boolean() && v.get("current")?.get("mods")?.is_object() {
        Some(v)
    } else {
        None
    }
}

fn on_disk_change(i: &mut Inner, op: &'static str, path: &Path) {
    let name = path.file_name().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
    let h = hook_of(i);
    let focus = h.focus;
    let in_mods = path.parent() == Some(h.mods.as_path());
    if focus == Focus::Config && in_mods && name == "modconfig.json" {
        let content = std::fs::read(path).ok();
        match content {
            Some(c) => match valid_config(&c) {
                Some(v) => {
                    h.config_valid = true;
                    if let Some(s) = &h.saved {
                        let s = s.clone();
                        for k in ["refuse_mismatched_connections", "profiles", "trusted_mods", "selected_game_platform"] {
                            let missing = s.get(k).is_none_or(|x| x.is_null());
                            if !missing && !h.touched.contains(k) && s[k] != v[k] {
                                let d = format!("{k}: {} became {} although the user did not change it", s[k], v[k]);
                                return violate(i, "settings-replaced", d);
                            }
                        }
                    }
                }
                None => {
                    if h.initial_config.as_ref() != Some(&c) {
                        let d = format!("after {op}: {} bytes that are not a complete configuration", c.len());
                        return violate(i, "config-torn", d);
                    }
                }
            },
            None => {
                if h.config_valid {
                    return violate(i, "config-lost", format!("after {op}: a complete configuration was removed"));
                }
            }
        }
    }
    if focus == Focus::Downloads {
        let inside = h.mods == *path || path.starts_with(&h.mods) || h.paks.values().any(|p| path.starts_with(p));
        let n = rt::normalise(path);
        let inside = inside && (n.starts_with(&h.mods) || h.paks.values().any(|p| n.starts_with(p)));
        if !inside {
            let d = format!("{op} of {}", n.strip_prefix(&h.root).unwrap_or(&n).display());
            return violate(i, "write-outside-of-its-directories", d);
        }
        if in_mods && name.ends_with("_P.pak") {
            if let Ok(c) = std::fs::read(path) {
                let ok = h.known.get(&name).is_some_and(|v| v.iter().any(|k| **k == c));
                if !ok {
                    let d = format!("after {op}: {name} has {} bytes and is not what any source provides under this name", c.len());
                    return violate(i, "incomplete-mod-file", d);
                }
            }
        }
    }
}

#[derive(Debug)]
struct Manager {
    p: Platform,
    fails: bool,
}

impl InstallManager for Manager {
    fn get_game_install_path(&self) -> Option<PathBuf> {
        self.p.install.clone()
    }
    fn get_paks_path(&self) -> Option<PathBuf> {
        self.p.paks.clone()
    }
    fn get_game_build(&self) -> Option<GameBuild> {
        self.p.build.map(|b| GameBuild::new(b.0, b.1, b.2, b.3))
    }
    fn launch_game(&self) -> Result<(), ModLoaderWarning> {
        rt::seam("launch");
        let dir = self.p.paks.clone();
        let name = self.p.name;
        rt::with(|i| {
            i.ctx.event(format!("launch {name}"));
            i.ctx.probe("game launched");
            let files = dir.map(|d| listing(&d)).unwrap_or_default();
            let h = hook_of(i);
            h.launches += 1;
            if h.focus != Focus::Launch {
                return;
            }
            let mut mods = vec![];
            for (n, d) in &files {
                if n == INTEGRATOR_PAK {
                    continue;
                }
                let Ok(p) = refpak::parse(d) else {
                    let n = n.clone();
                    return violate(i, "launched-with-damaged-mod", n);
                };
                let meta: Value = p.entries.get("metadata.json").and_then(|m| serde_json::from_slice(m).ok()).unwrap_or(Value::Null);
                if meta["cpp_loader_dlls"].as_array().is_some_and(|a| !a.is_empty()) {
                    let hash = sha2::Sha256::digest(d).to_vec();
                    if !h.trusted.contains(&hash) {
                        let n = n.clone();
                        return violate(i, "launched-with-untrusted-mod", n);
                    }
                }
                if !h.baked.contains(n) {
                    mods.push(meta["mod_id"].as_str().unwrap_or("?").to_string());
                }
            }
            if !mods.is_empty() {
                let ok = files.get(INTEGRATOR_PAK).is_some_and(|d| refpak::parse(d).is_ok());
                if !ok {
                    violate(i, "launched-without-integration", format!("mods {mods:?} are installed, but there is no complete integrator pak"));
                }
            }
        });
        if self.fails {
            return Err(ModLoaderWarning::other("could not start".into()));
        }
        Ok(())
    }
}

struct Game {
    conf: Conf,
    u: Universe,
}

impl GameConfig<'static, Conf, (), HErr> for Game {
    fn get_integrator_config(&self) -> &Conf {
        &self.conf
    }
    fn get_game_build(&self, _p: &Path) -> Option<GameBuild> {
        None
    }
    fn get_install_managers(&self) -> BTreeMap<&'static str, Box<dyn InstallManager>> {
        let mut m: BTreeMap<&'static str, Box<dyn InstallManager>> = BTreeMap::new();
        for p in &self.u.platforms {
            m.insert(p.name, Box::new(Manager { p: p.clone(), fails: self.u.launch_fails }));
        }
        m
    }
    fn get_newer_update(&self) -> Result<Option<UpdateInfo>, ModLoaderError> {
        Ok(if self.u.update { Some(UpdateInfo::new("9.9.9".into(), "# changes".into())) } else { None })
    }
    fn update_modloader(&self, progress: Box<dyn Fn(f32)>) -> Result<(), ModLoaderError> {
        rt::seam("update");
        progress(0.5);
        if self.u.update_fails {
            return Err(ModLoaderError::other("update failed".into()));
        }
        progress(1.0);
        Ok(())
    }
    fn get_icon(&self) -> Option<IconData> {
        None
    }
    const WINDOW_TITLE: &'static str = "Sim";
    const CONFIG_DIR: &'static str = "SimModLoader";
    const CRATE_VERSION: &'static str = "0.0.1";
    const ABOUT_TEXT: &'static str = "about";
}

// ------------------------------------------------------------------ user

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub id: String,
    pub enabled: bool,
    pub sel: String,
}

impl Row {
    pub fn version(&self) -> Option<String> {
        let s = self.sel.trim_start_matches("Latest (").trim_end_matches(')').trim_end_matches('*');
        if s == "None" {
            None
        } else {
            Some(s.to_string())
        }
    }
    pub fn is_latest(&self) -> bool {
        self.sel.starts_with("Latest") || self.sel.ends_with('*')
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub rows: Vec<Row>,
    pub refuse: bool,
    pub platform: String,
    pub play: bool,
    pub working: bool,
    pub critical: bool,
    pub warnings: Vec<String>,
    pub profiles: Vec<String>,
    pub untrusted: Vec<String>,
    pub selected: Option<String>,
}

pub fn snap(shown: &[Widget]) -> Snap {
    let mut s = Snap::default();
    let mut k = 0;
    while k < shown.len() {
        let w = &shown[k];
        match (&w.kind, w.window.as_deref()) {
            (Kind::Row, None) => {
                let mut r = Row { id: String::new(), enabled: false, sel: String::new() };
                let mut cells = 0;
                let mut j = k + 1;
                while j < shown.len() && shown[j].kind != Kind::Row && cells < 4 {
                    match (&shown[j].kind, cells) {
                        (Kind::Cell, _) => cells += 1,
                        (Kind::Checkbox(b), 1) => r.enabled = *b,
                        (Kind::Label, 2) => r.id = shown[j].label.trim_end_matches(" Mod").to_string(),
                        (Kind::Combo, 3) => r.sel = shown[j].label.clone(),
                        _ => {}
                    }
                    j += 1;
                }
                s.rows.push(r);
            }
            (Kind::Checkbox(b), None) if w.label.starts_with("Refuse") => s.refuse = *b,
            (Kind::Label, None) if w.label.starts_with("Platform: ") => s.platform = w.label[10..].to_string(),
            (Kind::Label, None) if w.label.starts_with("Mod Id: ") => s.selected = Some(w.label[8..].to_string()),
            (Kind::Label, None) if w.label.starts_with("Mods (") => s.working = w.label.ends_with("Working..."),
            (Kind::Button, None) if w.label == "Play" => s.play = true,
            (Kind::Window, None) if w.label == "Critical Error" => s.critical = true,
            (Kind::Label, Some("Warning")) if !w.label.is_empty() && !w.label.starts_with("See modloader_log") => s.warnings.push(w.label.clone()),
            (Kind::Text(t), Some("Profiles")) => s.profiles.push(t.clone()),
            (Kind::Label, Some("Untrusted Mods")) if w.label.contains(" version ") => s.untrusted.push(w.label.split(" version ").next().unwrap().to_string()),
            _ => {}
        }
        k += 1;
    }
    s
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Act,
    Calm,
    Toggle(u8),
    Wait(u8),
    Profiles,
    Play,
    PlayWait,
    Close,
    Closing,
}

/// mods directory and paks directory of the selected platform
#[derive(Default, Clone)]
pub struct Disk {
    pub mods: BTreeMap<String, Vec<u8>>,
    pub paks: BTreeMap<String, Vec<u8>>,
}

#[derive(Default)]
pub struct Log {
    pub warnings: BTreeSet<String>,
    pub critical: bool,
    pub actions: Vec<String>,
    /// state when everything the user asked for is done, before the extra triggers
    pub calm: Option<Snap>,
    /// state after the extra triggers, with the warnings since the last one
    pub settled: Option<Snap>,
    pub fin: Option<Snap>,
    pub acted_before_calm: bool,
    /// whether there was a warning before the extra triggers
    pub calm_warned: bool,
    pub calm_disk: Disk,
    pub settled_disk: Disk,
    pub dropped: Vec<(String, Arc<Vec<u8>>)>,
    pub removed: Vec<String>,
    pub order: Vec<(bool, String)>,
    pub updated: bool,
    pub launches_wanted: u64,
    pub play_wait: Option<(bool, u64)>,
    /// the game was started, trust was asked for, something is not trusted
    pub play_result: (bool, bool, bool),
    pub violation: Option<Violation>,
}

struct Monkey {
    u: Universe,
    log: Arc<Mutex<Log>>,
    phase: Phase,
    left: u64,
    frames: u64,
    quiet: u64,
    busy: u64,
    last: Snap,
    since_trigger: Vec<String>,
    mods: PathBuf,
    drop_now: Vec<PathBuf>,
    delete_now: Option<String>,
    keyed: bool,
    snap_profiles: bool,
    try_play: bool,
    /// the faults go on until everything came to rest
    linger: bool,
}

fn end_faults() {
    rt::with(|i| {
        i.fs_fault_den = 0;
        i.net_fault_num = 0;
        i.env_fault_num = 0;
        i.sticky = None;
        i.disk_full = false;
        i.ctx.event("faults end");
    });
}

fn draw(n: u64) -> u64 {
    rt::with(|i| i.ctx.draw(n))
}

fn button(shown: &[Widget], window: &str, label: &str) -> Option<(usize, String)> {
    shown
        .iter()
        .position(|w| w.kind == Kind::Button && w.window.as_deref() == Some(window) && w.label == label)
        .map(|k| (k, label.to_string()))
}

impl Monkey {
    /// dismiss whatever window is open
    fn dismiss(&self, shown: &[Widget]) -> Option<(usize, String)> {
        button(shown, "Warning", "Ok")
            .or_else(|| button(shown, "Profiles", "Close"))
            .or_else(|| button(shown, "About", "Close"))
            .or_else(|| button(shown, "Untrusted Mods", "Cancel"))
            .or_else(|| button(shown, "A new update is available", "Cancel"))
    }
    fn disk(&self, s: &Snap) -> Disk {
        let paks = self.u.platforms.iter().find(|p| p.name == s.platform).and_then(|p| p.paks.as_ref());
        Disk { mods: listing(&self.mods), paks: paks.map(|p| listing(p)).unwrap_or_default() }
    }
    fn fail(&self, class: &str, detail: String) {
        let mut l = self.log.lock().unwrap();
        if l.violation.is_none() {
            l.violation = Some(Violation::new(class, detail));
        }
        drop(l);
        rt::with(|i| i.kill_all(Dead::Exit));
    }
    fn act(&mut self, shown: &[Widget]) -> Input {
        let mut inp = Input::default();
        let s = &self.last;
        match draw(14) {
            0..=6 => {
                // click something
                let c: Vec<usize> = shown
                    .iter()
                    .enumerate()
                    .filter(|(_, w)| matches!(w.kind, Kind::Button | Kind::Checkbox(_) | Kind::Select(_)) && w.label != "Quit")
                    .map(|(k, _)| k)
                    .collect();
                if !c.is_empty() {
                    let k = c[draw(c.len() as u64) as usize];
                    inp.click = Some((k, shown[k].label.clone()));
                }
            }
            7 | 8 => {
                // enable or disable a mod
                let c: Vec<usize> = shown
                    .iter()
                    .enumerate()
                    .filter(|(_, w)| matches!(w.kind, Kind::Checkbox(_)) && w.window.is_none())
                    .map(|(k, _)| k)
                    .collect();
                if !c.is_empty() {
                    let k = c[draw(c.len() as u64) as usize];
                    inp.click = Some((k, shown[k].label.clone()));
                }
            }
            9 | 10 => {
                let n = 1 + draw(2);
                for _ in 0..n {
                    let bad = !self.u.bad_drops.is_empty() && draw(6) == 5;
                    let pool = if bad { &self.u.bad_drops } else { &self.u.good_drops };
                    if !pool.is_empty() {
                        let p = pool[draw(pool.len() as u64) as usize].clone();
                        if !inp.dropped.contains(&p) {
                            inp.dropped.push(p);
                        }
                    }
                }
                self.drop_now = inp.dropped.clone();
            }
            11 => {
                if s.selected.is_some() {
                    inp.keys.push("Delete".into());
                    self.delete_now = s.selected.clone();
                } else if let Some(k) = shown.iter().position(|w| w.label == "More Info") {
                    let all: Vec<usize> = shown.iter().enumerate().filter(|(_, w)| w.label == "More Info").map(|(k, _)| k).collect();
                    let _ = k;
                    let k = all[draw(all.len() as u64) as usize];
                    inp.click = Some((k, "More Info".into()));
                }
            }
            12 => {
                if let Some(k) = shown.iter().position(|w| matches!(w.kind, Kind::Text(_))) {
                    let t = ["Mine", "", "Ünï\n\"x\"", "New Profile"][draw(4) as usize];
                    inp.text = Some((k, t.into()));
                } else if let Some(k) = shown.iter().position(|w| w.label == "Profiles" && w.kind == Kind::Button) {
                    inp.click = Some((k, "Profiles".into()));
                }
            }
            _ => inp.keys.push("Escape".into()),
        }
        inp.pause_ms = [0u64, 0, 5, 100, 3000][draw(5) as usize];
        inp
    }
}

impl gui::User for Monkey {
    fn acted(&mut self, w: &Widget) {
        let key = match w.window.as_deref() {
            Some("Profiles") => Some("profiles"),
            Some("Platform Selector") => Some("selected_game_platform"),
            Some("Untrusted Mods") => Some("trusted_mods"),
            None if w.label.starts_with("Refuse") => Some("refuse_mismatched_connections"),
            _ => None,
        };
        if let Some(k) = key {
            rt::with(|i| hook_of(i).touched.insert(k));
        }
        let mut l = self.log.lock().unwrap();
        let a = format!("{:?} {} in {:?}", w.kind, w.label, w.window);
        rt::with(|i| i.ctx.event(format!("user: {a}")));
        if w.label == "Trust" {
            // everything of these mods is trusted from now on
            let ids = self.last.untrusted.clone();
            if rt::others_idle() {
                for d in self.disk(&self.last).paks.into_values() {
                    let hash = sha2::Sha256::digest(&d).to_vec();
                    rt::with(|i| {
                        hook_of(i).trusted_exactly.insert(hash);
                    });
                }
            }
            for (n, d) in listing(&self.mods) {
                if ids.iter().any(|id| n.contains(&format!("-{id}-"))) {
                    let hash = sha2::Sha256::digest(&d).to_vec();
                    rt::with(|i| {
                        hook_of(i).trusted.insert(hash);
                    });
                }
            }
        }
        if w.label == "Download" {
            l.updated = true;
        }
        l.actions.push(a);
    }

    fn next(&mut self, shown: &[Widget]) -> Input {
        self.frames += 1;
        let s = snap(shown);
        if !s.warnings.is_empty() {
            let mut l = self.log.lock().unwrap();
            for w in &s.warnings {
                if l.warnings.insert(w.clone()) {
                    let root = rt::with(|i| i.root.display().to_string());
                    rt::with(|i| i.ctx.event(format!("warning: {}", w.replace(&root, "~"))));
                }
                if !self.since_trigger.contains(w) {
                    self.since_trigger.push(w.clone());
                }
            }
        }
        if s.critical {
            self.log.lock().unwrap().critical = true;
        }
        // deliveries of the frame that was just shown
        if !self.drop_now.is_empty() {
            let mut l = self.log.lock().unwrap();
            for p in std::mem::take(&mut self.drop_now) {
                let n = p.file_name().unwrap().to_string_lossy().into_owned();
                rt::with(|i| i.ctx.event(format!("user: drop {n}")));
                if let Some(id) = n.split('-').nth(1) {
                    l.order.push((true, id.to_string()));
                }
                if p.starts_with(&self.mods) {
                    // what is there when it is imported depends on earlier imports
                    continue;
                }
                l.dropped.push((n, Arc::new(std::fs::read(&p).unwrap_or_default())));
            }
        }
        if let Some(d) = self.delete_now.take() {
            rt::with(|i| i.ctx.event(format!("user: remove {d}")));
            let mut l = self.log.lock().unwrap();
            l.order.push((false, d.clone()));
            l.removed.push(d);
        }
        let mut s = s;
        if std::mem::take(&mut self.keyed) {
            // the key took effect after the frame was drawn
            s.selected = None;
        }
        self.last = s.clone();
        let idle = rt::others_idle() && !s.working;
        self.quiet = if idle { self.quiet + 1 } else { 0 };
        self.busy = if idle { 0 } else { self.busy + 1 };
        let mut inp = Input { pause_ms: 40, ..Default::default() };
        if s.critical && !matches!(self.phase, Phase::Close | Phase::Closing) {
            self.phase = Phase::Close;
        }
        if self.log.lock().unwrap().updated && rt::others_done() && self.phase != Phase::Closing {
            self.phase = Phase::Closing;
        }
        if self.busy > 4000 && self.phase != Phase::Closing {
            self.fail("never-settles", format!("still busy after {} frames", self.busy));
            return inp;
        }
        match self.phase {
            Phase::Act => {
                if self.left == 0 {
                    self.phase = Phase::Calm;
                    if !self.linger {
                        end_faults();
                    }
                    self.quiet = 0;
                    return inp;
                }
                if draw(3) != 0 {
                    inp.pause_ms = [0u64, 10, 200][draw(3) as usize];
                    return inp;
                }
                self.left -= 1;
                let inp = self.act(shown);
                self.keyed = !inp.keys.is_empty();
                inp
            }
            Phase::Calm => {
                if let Some(c) = self.dismiss(shown) {
                    inp.click = Some(c);
                    self.quiet = 0;
                } else if self.quiet >= 3 {
                    end_faults();
                    let disk = self.disk(&s);
                    let mut l = self.log.lock().unwrap();
                    l.calm_disk = disk;
                    l.calm = Some(s);
                    l.acted_before_calm = !l.actions.is_empty();
                    l.calm_warned = !l.warnings.is_empty();
                    drop(l);
                    self.phase = Phase::Toggle(1);
                }
                inp
            }
            Phase::Toggle(n) => {
                if let Some(k) = shown.iter().position(|w| w.label.starts_with("Refuse")) {
                    inp.click = Some((k, shown[k].label.clone()));
                }
                self.since_trigger.clear();
                self.quiet = 0;
                self.phase = Phase::Wait(n);
                inp
            }
            Phase::Wait(n) => {
                if let Some(c) = self.dismiss(shown) {
                    inp.click = Some(c);
                    self.quiet = 0;
                } else if self.quiet >= 3 {
                    if n < 3 {
                        self.phase = Phase::Toggle(n + 1);
                    } else {
                        let mut fin = s.clone();
                        fin.warnings = self.since_trigger.clone();
                        let disk = self.disk(&s);
                        let mut l = self.log.lock().unwrap();
                        l.settled_disk = disk;
                        l.settled = Some(fin);
                        drop(l);
                        self.phase = if self.snap_profiles { Phase::Profiles } else { Phase::Play };
                    }
                }
                inp
            }
            Phase::Profiles => {
                if shown.iter().any(|w| w.kind == Kind::Window && w.label == "Profiles") {
                    let mut l = self.log.lock().unwrap();
                    if let Some(f) = &mut l.settled {
                        f.profiles = s.profiles.clone();
                        f.profiles.push("(shown)".into());
                    }
                    drop(l);
                    self.phase = Phase::Play;
                    inp.click = button(shown, "Profiles", "Close");
                } else if let Some(k) = shown.iter().position(|w| w.label == "Profiles" && w.kind == Kind::Button) {
                    inp.click = Some((k, "Profiles".into()));
                }
                inp
            }
            Phase::Play => {
                self.phase = Phase::Close;
                if self.try_play && s.play && !shown.iter().any(|w| w.kind == Kind::Window) {
                    if let Some(k) = shown.iter().position(|w| w.label == "Play") {
                        inp.click = Some((k, "Play".into()));
                        let n = rt::with(|i| hook_of(i).launches);
                        self.log.lock().unwrap().play_wait = Some((false, n));
                        self.quiet = 0;
                        self.since_trigger.clear();
                        self.phase = Phase::PlayWait;
                    }
                } else if shown.iter().any(|w| w.kind == Kind::Window && w.label == "Profiles") {
                    inp.click = button(shown, "Profiles", "Close");
                    self.phase = Phase::Play;
                }
                inp
            }
            Phase::PlayWait => {
                if self.quiet >= 3 {
                    let n = rt::with(|i| hook_of(i).launches);
                    let mut l = self.log.lock().unwrap();
                    let asked = shown.iter().any(|w| w.kind == Kind::Window && w.label == "Untrusted Mods");
                    if let Some((done, before)) = &mut l.play_wait {
                        let started = n > *before;
                        *done = started || asked || !self.since_trigger.is_empty();
                        let known = rt::with(|i| hook_of(i).trusted_exactly.clone());
                        let open = self.disk(&s).paks.values().any(|d| {
                            let dlls = meta_of(d).is_some_and(|m| m["cpp_loader_dlls"].as_array().is_some_and(|a| !a.is_empty()));
                            dlls && !known.contains(&sha2::Sha256::digest(d).to_vec())
                        });
                        l.play_result = (started, asked, open);
                    }
                    drop(l);
                    if asked && draw(2) == 0 {
                        inp.click = button(shown, "Untrusted Mods", "Trust");
                    }
                    self.phase = Phase::Close;
                }
                inp
            }
            Phase::Close => {
                if let Some(c) = self.dismiss(shown) {
                    if !s.critical {
                        inp.click = Some(c);
                        return inp;
                    }
                }
                self.log.lock().unwrap().fin = Some(s);
                rt::with(|i| {
                    i.fs_fault_den = 0;
                    i.net_fault_num = 0;
                    i.env_fault_num = 0;
                    i.sticky = None;
                    i.disk_full = false;
                    i.ctx.event("close");
                });
                inp.close = true;
                self.busy = 0;
                self.frames = 0;
                self.phase = Phase::Closing;
                inp
            }
            Phase::Closing => {
                if self.frames > 4000 {
                    self.fail("never-closes", "the window is still open 4000 frames after closing it".into());
                }
                inp
            }
        }
    }
}

// ------------------------------------------------------------------ generator

const IDS: [&str; 5] = ["Alpha", "Beta.auth", "Gamma9", "Delta", "Eps.x.y"];
const LIBS: [&str; 2] = ["Lib.one", "Lib2"];
const VERS: [&str; 4] = ["0.5.0", "1.0.0", "1.1.0", "2.0.0"];

fn index_url(id: &str) -> String {
    format!("http://index.example/{id}.json")
}
fn dl_url(f: &str) -> String {
    format!("http://dl.example/{f}")
}

fn mirror_url(id: &str) -> String {
    format!("http://mirror.example/{id}.json")
}
fn lib_dep(ctx: &mut Ctx, id: &str) -> Dep {
    let req = ctx.pick(&["*", "^1.0.0", ">=1.0.0", "=1.0.0", "<2.0.0", ">=0.5.0, <1.1.0", ">=1.1.0"]).to_string();
    let url = match ctx.draw(8) {
        0 => None,
        1..=4 => Some(index_url(id)),
        _ => Some(mirror_url(id)),
    };
    Dep { id: id.into(), req, url }
}

pub fn gen(ctx: &mut Ctx, focus: Focus, root: &Path) -> (Universe, BTreeMap<String, Vec<Arc<Vec<u8>>>>) {
    let mods_dir = root.join("local").join(GAME).join("Saved").join("Mods");
    let mut u = Universe {
        specs: vec![],
        healthy: true,
        has_deps: false,
        baked: vec![],
        resources: BTreeMap::new(),
        good_drops: vec![],
        bad_drops: vec![],
        platforms: vec![],
        update: ctx.chance(1, 24),
        update_fails: ctx.chance(1, 3),
        launch_fails: ctx.chance(1, 8),
    };
    let mut known: BTreeMap<String, Vec<Arc<Vec<u8>>>> = BTreeMap::new();
    let sick = ctx.chance(2, 5);
    for (id, core) in [("CoreMod", true), ("Shared.lib", false)] {
        if ctx.chance(1, 2) {
            let mut s = Spec::new(id, "1.0.0");
            s.priority = 800;
            u.baked.push(Baked::new(s, core));
        }
    }
    let n = ctx.range(1, 4) as usize;
    let deps_on = focus == Focus::Deps || ctx.chance(1, 2);
    // libraries which only servers have, each in two index files
    let libs = if deps_on { ctx.range(0, 2) as usize } else { 0 };
    for k in 0..n {
        let id = IDS[k];
        let indexed = ctx.chance(1, 2);
        let nv = ctx.range(1, 3) as usize;
        let first = ctx.draw(VERS.len() as u64 - nv as u64 + 1) as usize;
        let prio = ctx.range(0, 2) as u32;
        let mut listed = serde_json::Map::new();
        let mut latest = String::new();
        for v in &VERS[first..first + nv] {
            let mut s = Spec::new(id, v);
            s.priority = prio;
            if indexed {
                s.index_url = Some(index_url(id));
            }
            let launch = focus == Focus::Launch;
            if ctx.chance(1, if launch { 2 } else { 6 }) {
                s.dlls = vec!["x.dll".into()];
            }
            if ctx.chance(1, 3) {
                s.author = Some("Someone".into());
            }
            if ctx.chance(1, 4) {
                s.build = Some(ctx.pick(&["1.2.3.4", "bad"]).to_string());
            }
            s.sync = *ctx.pick(&[None, Some("server"), Some("client")]);
            let d = data(ctx, 9000);
            s.files.push((format!("SimGame/Content/{id}.txt"), d));
            if deps_on && k > 0 && ctx.chance(1, 2) {
                let t = ctx.draw(k as u64) as usize;
                let req = ctx.pick(&["*", "^1.0.0", ">=1.0.0", "=1.0.0", "<2.0.0", ">=0.5.0, <1.1.0"]).to_string();
                let url = if ctx.chance(3, 4) { Some(index_url(IDS[t])) } else { None };
                s.deps.push(Dep { id: IDS[t].into(), req, url });
                u.has_deps = true;
            }
            if deps_on && ctx.chance(1, 6) {
                s.deps.push(Dep { id: "Shared.lib".into(), req: ctx.pick(&["*", "^1.0.0"]).to_string(), url: None });
                u.has_deps = true;
            }
            for id in LIBS.iter().take(libs) {
                if ctx.chance(1, 3) {
                    let d = lib_dep(ctx, id);
                    s.deps.push(d);
                    u.has_deps = true;
                }
            }
            if sick && ctx.chance(1, 6) {
                u.healthy = false;
                u.has_deps = true;
                // cycles, itself, nothing, something unknown
                let t = *ctx.pick(&[id, IDS[(k + 1) % 5], "Nobody", IDS[0]]);
                let url = Some(index_url(t));
                let req = ctx.pick(&["*", "=9.9.9", ">2.0.0", "^1.0.0"]).to_string();
                s.deps.retain(|d| d.id != t);
                s.deps.push(Dep { id: t.into(), req, url });
            }
            let f = s.file_name();
            let p = Arc::new(s.pak());
            u.resources.insert(dl_url(&f), Resource { status: 200, body: p.clone() });
            known.entry(f.clone()).or_default().push(p.clone());
            listed.insert(v.to_string(), json!({"download_url": dl_url(&f), "filename": f}));
            latest = v.to_string();
            // where is it now?
            match ctx.draw(4) {
                0 | 1 => put(&mods_dir.join(&f), &p),
                2 => {
                    let d = root.join("drop").join(&f);
                    put(&d, &p);
                    u.good_drops.push(d);
                }
                _ => {}
            }
            if ctx.chance(1, if launch { 3 } else { 8 }) {
                // another build of the same version
                let mut s2 = s.clone();
                s2.files.push(("SimGame/Content/patched.txt".into(), b"patched".to_vec()));
                let p2 = Arc::new(s2.pak());
                known.entry(f.clone()).or_default().push(p2.clone());
                let d = root.join("drop2").join(&f);
                put(&d, &p2);
                u.good_drops.push(d);
            }
            u.specs.push(s);
        }
        let mut idx = json!({"mods": {id: {"latest_version": latest, "versions": listed}}});
        let mut status = 200;
        let mut raw = None;
        if sick && ctx.chance(1, 3) {
            u.healthy = false;
            let f0 = u.specs.last().unwrap().file_name();
            match ctx.draw(12) {
                0 => raw = Some(b"{ not json".to_vec()),
                1 => idx["mods"] = json!({"Else": idx["mods"][id]}),
                2 => idx["mods"][id]["latest_version"] = json!("newest"),
                3 => idx["mods"][id]["latest_version"] = json!("7.7.7"),
                4 => idx["mods"][id]["versions"]["1.x"] = json!({"download_url": dl_url("a"), "filename": "a"}),
                5 => {
                    let name = ctx.pick(&["../../../evil_P.pak", "../evil.pak", "001-alpha-3.0.0_P.pak", "whatever.exe", "", "/abs/001-X-1.0.0_P.pak", "xyz-Alpha-3.0.0_P.pak"]).to_string();
                    let url = dl_url("evil");
                    let p = u.resources[&dl_url(&f0)].body.clone();
                    u.resources.insert(url.clone(), Resource { status: 200, body: p.clone() });
                    known.entry(Path::new(&name).file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default()).or_default().push(p);
                    idx["mods"][id]["versions"]["3.0.0"] = json!({"download_url": url, "filename": name});
                    if ctx.chance(1, 2) {
                        idx["mods"][id]["latest_version"] = json!("3.0.0");
                    }
                }
                6 => status = *ctx.pick(&[404u16, 500]),
                7 => {
                    // the download is some other mod
                    let other = Arc::new(Spec::new("Other", "1.0.0").pak());
                    known.entry(f0.clone()).or_default().push(other.clone());
                    u.resources.insert(dl_url(&f0), Resource { status: 200, body: other });
                }
                8 => {
                    let bad = Arc::new(b"<html>moved</html>".to_vec());
                    u.resources.insert(dl_url(&f0), Resource { status: *ctx.pick(&[200u16, 404]), body: bad });
                }
                9 => {
                    let v = u.specs.last().unwrap().version.clone();
                    idx["mods"][id]["versions"][&v]["download_url"] = json!(ctx.pick(&["not a url", "", "ftp://x/y"]).to_string());
                }
                10 => raw = Some(vec![0xff, 0xfe, 0x80]),
                _ => {
                    u.resources.remove(&dl_url(&f0));
                }
            }
        }
        let body = raw.unwrap_or_else(|| serde_json::to_vec(&idx).unwrap());
        u.resources.insert(index_url(id), Resource { status, body: Arc::new(body) });
    }
    for k in 0..libs {
        let id = LIBS[k];
        let nv = ctx.range(1, 3) as usize;
        let first = ctx.draw(VERS.len() as u64 - nv as u64 + 1) as usize;
        let indexed = ctx.chance(1, 2);
        let mut lists = [serde_json::Map::new(), serde_json::Map::new()];
        for v in &VERS[first..first + nv] {
            let mut s = Spec::new(id, v);
            s.priority = 700;
            if indexed {
                s.index_url = Some(index_url(id));
            }
            let d = data(ctx, 200);
            s.files.push((format!("SimGame/Content/{id}.txt"), d));
            if k > 0 && ctx.chance(1, 2) {
                let d = lib_dep(ctx, LIBS[0]);
                s.deps.push(d);
            }
            let f = s.file_name();
            let p = Arc::new(s.pak());
            u.resources.insert(dl_url(&f), Resource { status: 200, body: p.clone() });
            known.entry(f.clone()).or_default().push(p);
            let at = ctx.range(1, 3);
            for (b, l) in lists.iter_mut().enumerate() {
                if at & (1 << b) != 0 {
                    l.insert(v.to_string(), json!({"download_url": dl_url(&f), "filename": f}));
                }
            }
            u.specs.push(s);
        }
        for b in 0..2 {
            if lists[b].is_empty() {
                lists[b] = lists[1 - b].clone();
            }
        }
        for (b, l) in lists.into_iter().enumerate() {
            let latest = l.keys().last().cloned().unwrap();
            let idx = json!({"mods": {id: {"latest_version": latest, "versions": l}}});
            let url = if b == 0 { index_url(id) } else { mirror_url(id) };
            u.resources.insert(url, Resource { status: 200, body: Arc::new(serde_json::to_vec(&idx).unwrap()) });
        }
    }
    // junk in the mods directory and bad files to drop
    std::fs::create_dir_all(&mods_dir).unwrap();
    if sick {
        for _ in 0..ctx.range(0, 2) {
            u.healthy = false;
            let s = Spec::new("Junk", "1.0.0");
            let (name, bytes) = match ctx.draw(9) {
                0 => ("001-Junk-1.0.0_P.pak".to_string(), integ::gen_bad_pak(ctx, &s)),
                1 => ("notes_P.pak".to_string(), b"hello".to_vec()),
                2 => ("001-junk-1.0.0_P.pak".to_string(), {
                    let mut s = s.clone();
                    s.id = "junk".into();
                    s.pak()
                }),
                3 => ("001-Junk-1x0y0_P.pak".to_string(), {
                    let mut s = s.clone();
                    s.version = "1x0y0".into();
                    s.pak()
                }),
                4 => ("001-Junk-01.0.0_P.pak".to_string(), {
                    let mut s = s.clone();
                    s.version = "01.0.0".into();
                    s.pak()
                }),
                5 => ("001-Junk-2.0.0_P.pak".to_string(), s.pak()),
                6 => ("001-Other-1.0.0_P.pak".to_string(), s.pak()),
                7 => ("001-Junk-99999999999999999999999.0.0_P.pak".to_string(), {
                    let mut s = s.clone();
                    s.version = "99999999999999999999999.0.0".into();
                    s.pak()
                }),
                _ => ("readme.txt".to_string(), b"x".to_vec()),
            };
            let bytes = Arc::new(bytes);
            known.entry(name.clone()).or_default().push(bytes.clone());
            if ctx.chance(1, 2) {
                put(&mods_dir.join(&name), &bytes);
            } else {
                let d = root.join("drop3").join(&name);
                put(&d, &bytes);
                u.bad_drops.push(d);
            }
        }
        if ctx.chance(1, 6) {
            u.bad_drops.push(root.join("drop3").join("001-Missing-1.0.0_P.pak"));
        }
        if ctx.chance(1, 6) {
            // an installed file dropped onto the window
            if let Some(n) = listing(&mods_dir).keys().find(|n| n.ends_with("_P.pak")) {
                u.bad_drops.push(mods_dir.join(n));
            }
        }
        if ctx.chance(1, 10) {
            std::fs::create_dir_all(root.join("drop4").join("001-Folder-1.0.0_P.pak")).unwrap();
            u.bad_drops.push(root.join("drop4").join("001-Folder-1.0.0_P.pak"));
        }
    }
    // platforms
    let names: &[&'static str] = match ctx.draw(3) {
        0 => &["Steam"],
        1 => &["Other", "Steam"],
        _ => &["Epic", "Other"],
    };
    for (k, name) in names.iter().enumerate() {
        let missing = sick && ctx.chance(1, 6);
        if missing {
            u.healthy = false;
        }
        let install = root.join("install").join(name);
        if !missing {
            let d = data(ctx, 500);
            put(&install.join(GAME).join("Content").join("Paks").join("SimGame-WindowsNoEditor.pak"), &pak(8, &[("SimGame/Content/Base.txt".into(), d)]));
        }
        u.platforms.push(Platform {
            name,
            install: if missing { None } else { Some(install) },
            paks: if missing && ctx.chance(1, 2) { None } else { Some(root.join("paks").join(name)) },
            build: if k == 0 { Some((1, 2, 3, 4)) } else { None },
        });
    }
    // configuration left by an earlier version
    let eager = focus == Focus::Deps && ctx.chance(1, 2);
    if eager || ctx.chance(1, 2) {
        let mut mods = serde_json::Map::new();
        for id in IDS.iter().take(n) {
            if ctx.chance(2, 3) {
                let sick_v = sick && ctx.chance(1, 4);
                let v = if sick_v { *ctx.pick(&["8.8.8", "x", ""]) } else { *ctx.pick(&VERS) };
                let latest = eager || ctx.chance(1, 2);
                let have = u.specs.iter().any(|s| s.id == *id && s.version == v);
                if !latest && !have {
                    u.healthy = false;
                }
                mods.insert(id.to_string(), json!({"force_latest": latest, "priority": 0, "enabled": eager || ctx.chance(2, 3), "version": v}));
            }
        }
        let profiles = match ctx.draw(3) {
            0 => json!([]),
            1 => json!([{"name": "P1", "mods": {"Alpha": {"force_latest": true, "priority": 0, "version": "1.0.0"}}}]),
            _ => json!({"Old": {"mods": {"Alpha": {"force_latest": true, "enabled": true, "priority": 0, "version": "1.0.0"}}}}),
        };
        let mut c = json!({"selected_game_platform": Value::Null, "refuse_mismatched_connections": ctx.chance(1, 2), "current": {"mods": mods}, "trusted_mods": [], "profiles": profiles});
        match ctx.draw(4) {
            0 => {}
            1 | 2 => c["selected_game_platform"] = json!(names[0]),
            _ => {
                if sick {
                    c["selected_game_platform"] = json!("GOG");
                    u.healthy = false;
                }
            }
        }
        let mut text = serde_json::to_vec(&c).unwrap();
        if sick && ctx.chance(1, 5) {
            let n = text.len() as u64;
            text.truncate(ctx.draw(n) as usize);
            u.healthy = false;
        }
        put(&mods_dir.join("modconfig.json"), &text);
    }
    (u, known)
}

// ------------------------------------------------------------------ run

/// Process-wide lazy state (compiled regular expressions) is initialised before
/// the first run: doing it inside a run would shift that run's hash keys.
fn warm_up() {
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
            for seed in 0..6 {
                let mut ctx = Ctx::new(simcore::Choices::seeded(seed), false);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| simulate(&mut ctx, Focus::Robust)));
            }
        });
        let _ = t.unwrap().join();
    });
}

pub fn run(ctx: &mut Ctx, focus: Focus) -> Outcome {
    warm_up();
    simulate(ctx, focus)
}

fn simulate(ctx: &mut Ctx, focus: Focus) -> Outcome {
    let scratch = Scratch::new();
    let root = scratch.0.clone();
    let mods = root.join("local").join(GAME).join("Saved").join("Mods");
    let (u, known) = gen(ctx, focus, &root);
    let lives = ctx.range(1, 3);
    let mut trusted: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut trusted_exactly: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut before: Option<Snap> = None;
    let faulty_run = ctx.chance(1, 2);
    for life in 0..lives {
        let last = life + 1 == lives;
        let crash = if !last && ctx.chance(1, 2) { Some(ctx.draw(1500)) } else { None };
        let faults = faulty_run && ctx.chance(1, 2);
        let fs_den = if faults { *ctx.pick(&[0u64, 30, 200, 1000]) } else { 0 };
        let fs_left = ctx.range(1, 4);
        let net = if faults { *ctx.pick(&[0u64, 2, 6]) } else { 0 };
        let env = if faults { ctx.draw(3) } else { 0 };
        let no_base = faults && ctx.chance(1, 30);
        let full = faults && ctx.chance(1, 20);
        let sticky = faults && ctx.chance(1, 8);
        let idle = focus == Focus::Settings && life > 0 && ctx.chance(1, 2);
        let actions = if idle { 0 } else { ctx.range(0, 14) };
        let snap_profiles = ctx.chance(1, if focus == Focus::Settings { 1 } else { 4 });
        let try_play = ctx.chance(1, 2);
        let linger = faults && ctx.chance(1, 2);
        let log: Arc<Mutex<Log>> = Default::default();
        let cfg_bytes = std::fs::read(mods.join("modconfig.json")).ok();
        let saved = cfg_bytes.as_ref().and_then(|b| valid_config(b)).filter(|v| v["profiles"].is_array() && u.platforms.iter().any(|p| v["selected_game_platform"] == p.name));
        let hook = Hook {
            focus,
            mods: mods.clone(),
            root: root.clone(),
            config_valid: cfg_bytes.as_ref().is_some_and(|b| valid_config(b).is_some()),
            initial_config: cfg_bytes,
            saved,
            touched: BTreeSet::new(),
            known: known.clone(),
            trusted: trusted.clone(),
            trusted_exactly: std::mem::take(&mut trusted_exactly),
            baked: u.baked.iter().map(|b| b.filename.to_string()).collect(),
            launches: 0,
            paks: u.platforms.iter().filter_map(|p| p.paks.clone().map(|d| (p.name.to_string(), d))).collect(),
        };
        ctx.event(format!("life {life} crash {} faults {faults}", crash.is_some()));
        let (u2, l2, m2, res) = (u.clone(), log.clone(), mods.clone(), u.resources.clone());
        let (_, mut inner) = rt::run(
            ctx,
            rt::Config { root: root.clone(), max_steps: 3_000_000, crash_in: crash },
            |i| {
                i.fs_fault_den = fs_den;
                i.fs_faults_left = fs_left;
                i.net_fault_num = net;
                i.env_fault_num = env;
                i.base_dirs = !no_base;
                i.disk_full = full;
                if sticky {
                    let op = *i.ctx.pick(&["write", "open", "create", "read", "remove"]);
                    let frag = i.ctx.pick(&["modconfig", "_P.pak", "900-", "Mods/0", "paks"]).to_string();
                    i.sticky = Some((op, frag));
                }
                i.resources = res;
                i.on_disk_change = Some(on_disk_change);
                i.world = Some(Box::new(hook));
            },
            move || {
                gui::set_user(Box::new(Monkey {
                    u: u2.clone(),
                    log: l2,
                    phase: Phase::Act,
                    left: actions,
                    frames: 0,
                    quiet: 0,
                    busy: 0,
                    last: Snap::default(),
                    since_trigger: vec![],
                    mods: m2,
                    drop_now: vec![],
                    delete_now: None,
                    keyed: false,
                    snap_profiles,
                    try_play,
                    linger,
                }));
                let conf = Conf { baked: u2.baked.clone(), handler: HandlerKind::None };
                unreal_mod_manager::run::<Game, Conf, (), HErr>(Game { conf, u: u2 });
            },
        );
        ctx.event(format!("steps {} requests {}", inner.steps, inner.requests.len()));
        let hook = inner.world.take().unwrap().downcast::<Hook>().unwrap();
        trusted = hook.trusted.clone();
        let log = std::mem::take(&mut *log.lock().unwrap());
        let fired = inner.fired > 0 || no_base;
        ctx.checks += 1;
        if !inner.panics.is_empty() || matches!(inner.dead, Some(Dead::Deadlock(_) | Dead::StepLimit)) {
            if focus == Focus::Robust {
                crate::end_checks(&inner, "mod manager")?;
            }
            return Ok(());
        }
        if let Some(v) = &inner.violation {
            return Err(v.clone());
        }
        if let Some(v) = log.violation {
            return if focus == Focus::Robust { Err(v) } else { Ok(()) };
        }
        if focus == Focus::Downloads {
            if let Some(e) = inner.escapes.first() {
                return Err(Violation::new("escape", format!("{} of {}", e.op, e.path.display())));
            }
        }
        let crashed = inner.dead == Some(Dead::Crash);
        if crashed {
            before = None;
            ctx.probe("crashed");
            continue;
        }
        if log.critical {
            ctx.probe("critical error");
            before = None;
            continue;
        }
        ctx.probe("regular end");
        let Some(settled) = log.settled.clone() else {
            before = None;
            continue;
        };
        // ---- the list was named completely
        let named = settled.rows.iter().all(|r| !r.id.is_empty());
        match focus {
            Focus::Settings => {
                if let Some(b) = &before {
                    if !fired && !log.acted_before_calm && log.dropped.is_empty() && log.removed.is_empty() {
                        compare_restart(ctx, &u, b, log.calm.as_ref().unwrap(), &settled)?;
                    }
                }
            }
            Focus::Installed => {
                if let Some(calm) = &log.calm {
                    if !log.calm_warned && !u.update && calm.rows.iter().all(|r| !r.id.is_empty()) {
                        ctx.probe("calm state judged");
                        installed(ctx, &u, &log.calm_disk, calm, "before")?;
                    }
                }
                if named && settled.warnings.is_empty() && settled.play {
                    ctx.probe("settled state judged");
                    installed(ctx, &u, &log.settled_disk, &settled, "after")?;
                }
                if named && u.healthy && deps_ok(&u, &settled, &log.settled_disk).is_ok() && !fired && log.warnings.is_empty() && life == 0 {
                    if !settled.warnings.is_empty() || !settled.play {
                        return Err(Violation::new("integration-fails-without-cause", format!("{:?} play={}", settled.warnings, settled.play)));
                    }
                }
            }
            Focus::Deps => {
                if let Some(calm) = &log.calm {
                    if !log.calm_warned && !u.update && calm.rows.iter().all(|r| !r.id.is_empty()) && platform_ok(&u, calm) {
                        ctx.probe("calm state judged");
                        deps_ok(&u, calm, &log.calm_disk).map_err(|d| Violation::new("dependency-not-satisfied-yet", d))?;
                    }
                }
                let sure = named && u.healthy && !fired && platform_ok(&u, &settled) && !u.update && resolvable(&u, &settled, &log.settled_disk);
                if sure {
                    ctx.probe("resolvable dependencies judged");
                }
                if sure && !(settled.warnings.is_empty() && settled.play) {
                    return Err(Violation::new("resolvable-dependency-not-resolved", format!("{:?} play={}", settled.warnings, settled.play)));
                }
                if named && settled.warnings.is_empty() && settled.play && platform_ok(&u, &settled) {
                    ctx.probe(if u.has_deps { "dependencies judged" } else { "no dependencies" });
                    deps_ok(&u, &settled, &log.settled_disk).map_err(|d| Violation::new("dependency-not-satisfied", d))?;
                }
            }
            Focus::Import => {
                if !fired && log.warnings.is_empty() {
                    imports(ctx, &u, &log)?;
                }
            }
            Focus::Launch => {
                if named && settled.warnings.is_empty() && !settled.play && platform_ok(&u, &settled) {
                    return Err(Violation::new("play-disabled", "the mods are integrated without a warning, but Play is disabled".to_string()));
                }
                if let Some((done, _)) = log.play_wait {
                    ctx.probe("play pressed at rest");
                    let (started, asked, untrusted) = log.play_result;
                    let settled_well = named && settled.warnings.is_empty() && platform_ok(&u, &settled);
                    if settled_well && !started && !asked {
                        return Err(Violation::new("play-refused", "the mods are integrated without a warning, but Play does not start the game".to_string()));
                    }
                    if settled_well && asked {
                        ctx.probe("asked for trust");
                        if !untrusted {
                            return Err(Violation::new("asked-for-trust-again", "every installed mod is trusted already, but Play asks again".to_string()));
                        }
                    }
                    if !done {
                        return Err(Violation::new("play-does-nothing", "Play was enabled, but pressing it had no effect".to_string()));
                    }
                }
            }
            _ => {}
        }
        // what has lost its file (a failed import of the same file) cannot come back
        let mut settled = settled;
        settled.rows.retain(|r| log.settled_disk.mods.keys().any(|n| n.contains(&format!("-{}-", r.id))));
        if !fired && !log.updated {
            trusted_exactly = hook.trusted_exactly.clone();
        }
        before = if log.updated { None } else { Some(settled) };
        if let (Some(b), Some(f)) = (&mut before, &log.fin) {
            b.refuse = f.refuse;
            b.platform = f.platform.clone();
        }
    }
    Ok(())
}

fn platform_ok(u: &Universe, s: &Snap) -> bool {
    u.platforms.iter().any(|p| p.name == s.platform && p.install.is_some() && p.paks.is_some())
}

/// A restart shows what was shown before the regular end.
fn compare_restart(ctx: &mut Ctx, u: &Universe, before: &Snap, calm: &Snap, settled: &Snap) -> Outcome {
    ctx.probe("restart compared");
    let bad = |c: &str, d: String| Err(Violation::new(c.to_string(), d));
    if before.refuse != calm.refuse {
        return bad("refuse-setting-lost", format!("{} became {}", before.refuse, calm.refuse));
    }
    if before.platform != calm.platform && before.platform != "None" {
        return bad("platform-lost", format!("{} became {}", before.platform, calm.platform));
    }
    for r in &before.rows {
        if r.id.is_empty() {
            continue;
        }
        let Some(n) = calm.rows.iter().find(|n| n.id == r.id) else {
            return bad("mod-lost", format!("{} is no longer listed", r.id));
        };
        // a mod becomes enabled when another one turns out to need it
        let needed = u.specs.iter().any(|s| s.deps.iter().any(|d| d.id == r.id));
        if n.enabled != r.enabled && !(n.enabled && needed) {
            return bad("enabled-setting-lost", format!("{}: enabled {} became {}", r.id, r.enabled, n.enabled));
        }
        if n.is_latest() != r.is_latest() && (r.is_latest() || !calm.rows.is_empty()) {
            return bad("version-setting-lost", format!("{}: {} became {}", r.id, r.sel, n.sel));
        }
        if !r.is_latest() && n.version() != r.version() {
            return bad("version-setting-lost", format!("{}: {} became {}", r.id, r.sel, n.sel));
        }
    }
    if before.profiles.last().map(|s| s.as_str()) == Some("(shown)") && settled.profiles.last().map(|s| s.as_str()) == Some("(shown)") {
        let (mut a, mut b) = (before.profiles.clone(), settled.profiles.clone());
        a.sort();
        b.sort();
        if a != b {
            return bad("profiles-lost", format!("{a:?} became {b:?}"));
        }
        ctx.probe("profiles compared");
    }
    Ok(())
}

fn meta_of(b: &[u8]) -> Option<Value> {
    let p = refpak::parse(b).ok()?;
    serde_json::from_slice(p.entries.get("metadata.json")?).ok()
}

fn deps_ok(u: &Universe, s: &Snap, disk: &Disk) -> Result<(), String> {
    let files = &disk.mods;
    let metas: Vec<Value> = files.iter().filter(|(n, _)| n.ends_with("_P.pak")).filter_map(|(_, d)| meta_of(d)).collect();
    for r in s.rows.iter().filter(|r| r.enabled) {
        let Some(v) = r.version() else { continue };
        let Some(m) = metas.iter().find(|m| m["mod_id"] == r.id.as_str() && m["version"] == v.as_str()) else { continue };
        let Some(deps) = m["dependencies"].as_object() else { continue };
        for (id, d) in deps {
            let req = d.as_str().or(d["version"].as_str()).unwrap_or("");
            let Ok(req) = semver::VersionReq::parse(req) else { continue };
            let by_mod = s
                .rows
                .iter()
                .filter(|x| x.enabled && x.id == *id)
                .filter_map(|x| x.version())
                .filter_map(|v| semver::Version::parse(&v).ok())
                .any(|v| req.matches(&v));
            let by_baked = u.baked.iter().any(|b| b.spec.id == *id && semver::Version::parse(&b.spec.version).is_ok_and(|v| req.matches(&v)));
            if !by_mod && !by_baked {
                return Err(format!("{} {v} needs {id} {req}, and neither an enabled mod nor a built-in one provides it", r.id));
            }
        }
    }
    Ok(())
}

/// Whether the dependencies of the enabled mods can be satisfied beyond doubt: what is
/// enabled matches, and everything else has a version that suits every mod there is.
fn resolvable(u: &Universe, s: &Snap, disk: &Disk) -> bool {
    let mut direct: Vec<Dep> = vec![];
    let mut rows: BTreeMap<&str, semver::Version> = BTreeMap::new();
    for r in s.rows.iter().filter(|r| r.enabled) {
        let Some(v) = r.version() else { return false };
        let Some(spec) = u.specs.iter().find(|s| s.id == r.id && s.version == v) else { return false };
        if !disk.mods.contains_key(&spec.file_name()) {
            return false;
        }
        direct.extend(spec.deps.iter().cloned());
        rows.insert(&r.id, semver::Version::parse(&v).unwrap());
    }
    let matches = |req: &str, v: &str| semver::VersionReq::parse(req).unwrap().matches(&semver::Version::parse(v).unwrap());
    let listed = |url: &str, id: &str| -> BTreeSet<String> {
        let v: Value = serde_json::from_slice(&u.resources[url].body).unwrap();
        v["mods"][id]["versions"].as_object().unwrap().keys().cloned().collect()
    };
    let mut todo: Vec<(Dep, bool)> = direct.iter().map(|d| (d.clone(), true)).collect();
    let mut seen = BTreeSet::new();
    while let Some((d, first)) = todo.pop() {
        if let Some(v) = rows.get(d.id.as_str()) {
            if !matches(&d.req, &v.to_string()) {
                return false;
            }
            continue;
        }
        if let Some(b) = u.baked.iter().find(|b| b.spec.id == d.id) {
            if !matches(&d.req, &b.spec.version) {
                return false;
            }
            continue;
        }
        if !seen.insert((d.id.clone(), first)) {
            continue;
        }
        let all: Vec<&Dep> = u.specs.iter().flat_map(|s| &s.deps).filter(|x| x.id == d.id).collect();
        let mut pool: Option<BTreeSet<String>> = None;
        if first {
            for url in direct.iter().filter(|x| x.id == d.id).filter_map(|x| x.url.as_ref()) {
                pool.get_or_insert_with(Default::default).extend(listed(url, &d.id));
            }
        } else {
            for x in &all {
                let Some(url) = &x.url else { return false };
                let l = listed(url, &d.id);
                pool = Some(match pool {
                    None => l,
                    Some(p) => p.intersection(&l).cloned().collect(),
                });
            }
        }
        if !pool.unwrap_or_default().iter().any(|v| all.iter().all(|x| matches(&x.req, v))) {
            return false;
        }
        for s in u.specs.iter().filter(|s| s.id == d.id) {
            todo.extend(s.deps.iter().map(|d| (d.clone(), false)));
        }
    }
    !direct.is_empty()
}

/// The paks directory holds exactly the enabled mods and their integration.
fn installed(ctx: &mut Ctx, u: &Universe, disk: &Disk, s: &Snap, when: &str) -> Outcome {
    if !platform_ok(u, s) {
        return Ok(());
    }
    let bad = |c: &str, d: String| Err(Violation::new(c.to_string(), format!("{d} ({when} the last trigger)")));
    let have = &disk.paks;
    let source = &disk.mods;
    let enabled: Vec<&Row> = s.rows.iter().filter(|r| r.enabled).collect();
    if enabled.is_empty() {
        if let Some(n) = have.keys().next() {
            return bad("paks-not-empty", format!("no mod is enabled, but {n} is installed"));
        }
        ctx.probe("nothing enabled");
        return Ok(());
    }
    let mut rest: BTreeSet<&String> = have.keys().collect();
    let mut specs: Vec<Spec> = vec![];
    for r in &enabled {
        let Some(v) = r.version() else {
            return bad("no-version", r.id.clone());
        };
        let hit: Vec<&String> = have.keys().filter(|n| n.ends_with(&format!("-{}-{v}_P.pak", r.id)) && n.as_bytes().get(3) == Some(&b'-')).collect();
        if hit.len() != 1 {
            return bad("enabled-mod-not-installed", format!("{} {v}: {} files", r.id, hit.len()));
        }
        let n = hit[0];
        rest.remove(n);
        if source.get(n) != have.get(n) {
            return bad("installed-file-differs", n.to_string());
        }
        let m = meta_of(&have[n]);
        let (id, ver) = m.as_ref().map(|m| (m["mod_id"].as_str().unwrap_or("").to_string(), m["version"].as_str().unwrap_or("").to_string())).unwrap_or_default();
        if id != r.id || ver != v {
            return bad("installed-file-wrong", format!("{n} contains {id} {ver}"));
        }
        match u.specs.iter().find(|s| s.id == id && s.version == ver) {
            Some(s) => specs.push(s.clone()),
            None => return Ok(()),
        }
    }
    rest.remove(&INTEGRATOR_PAK.to_string());
    for b in &u.baked {
        let n = b.filename.to_string();
        if rest.remove(&n) || b.core {
            if have.get(&n).map(|d| d.as_slice()) != Some(b.data) {
                return bad("baked-mod-incomplete", n);
            }
            specs.push(b.spec.clone());
        }
    }
    if let Some(n) = rest.iter().next() {
        return bad("extra-file-installed", n.to_string());
    }
    ctx.probe("installed mods compared");
    let empty = vec![];
    let order = integ::check_pak(have.get(INTEGRATOR_PAK).unwrap_or(&empty), &specs, s.refuse).map_err(|v| Violation::new(v.class, format!("{} ({when} the last trigger)", v.detail)))?.1;
    // mods of a lower priority come first
    let prio: Vec<u32> = order.iter().filter_map(|id| u.specs.iter().find(|s| s.id == *id)).map(|s| s.priority).collect();
    if prio.windows(2).any(|w| w[0] > w[1]) {
        return bad("list-of-mods-order", format!("{order:?} {prio:?}"));
    }
    Ok(())
}

/// Dropped files are installed, removed mods are gone.
fn imports(ctx: &mut Ctx, u: &Universe, log: &Log) -> Outcome {
    let Some(calm) = &log.calm else { return Ok(()) };
    let files = &log.calm_disk.mods;
    let bad = |c: &str, d: String| Err(Violation::new(c.to_string(), d));
    let mut last: BTreeMap<&str, bool> = BTreeMap::new();
    for (drop, id) in &log.order {
        last.insert(id, *drop);
    }
    for (id, dropped) in last {
        let needed = u.specs.iter().any(|s| s.deps.iter().any(|d| d.id == id));
        let listed = calm.rows.iter().any(|r| r.id == id);
        if dropped {
            ctx.probe("import judged");
            if !listed {
                return bad("imported-mod-not-listed", id.to_string());
            }
        } else if !needed {
            ctx.probe("removal judged");
            if listed {
                return bad("removed-mod-still-listed", id.to_string());
            }
            if let Some(n) = files.keys().find(|n| n.ends_with("_P.pak") && n.contains(&format!("-{id}-"))) {
                return bad("removed-mod-file-left", n.clone());
            }
        }
    }
    let mut last_file: BTreeMap<&str, &Arc<Vec<u8>>> = BTreeMap::new();
    for (n, d) in &log.dropped {
        last_file.insert(n, d);
    }
    for (n, d) in last_file {
        let id = n.split('-').nth(1).unwrap_or("");
        // a dependency may be downloaded again
        if log.removed.iter().any(|r| r == id) || u.specs.iter().any(|s| s.deps.iter().any(|d| d.id == id)) {
            continue;
        }
        if files.get(n) != Some(d) {
            return bad("imported-file-differs", n.to_string());
        }
    }
    Ok(())
}

macro_rules! scenarios {
    ($($n:ident $f:ident),*) => { $(pub fn $n(ctx: &mut Ctx) -> Outcome { run(ctx, Focus::$f) })* };
}
scenarios!(config Config, settings Settings, robust Robust, installed_paks Installed, downloads Downloads, deps Deps, import Import, launch Launch);
