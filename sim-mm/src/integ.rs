//! I01: integrate_mods either fails or leaves the complete integrator pak.
use crate::refpak;
use crate::world::*;
use serde_json::{json, Value};
use simcore::{Ctx, Outcome, Violation};
use simstd::rt;
use std::collections::{BTreeMap, HashMap};
use std::io::Cursor;
use std::sync::{Arc, Mutex};
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::exports::Export;
use unreal_asset::properties::{int_property::BytePropertyValue, Property, PropertyDataTrait};
use unreal_asset::Asset;
use unreal_mod_integrator::{
    integrate_mods, BakedMod, DynamicMod, FileMod, HandlerFn, IntegratorConfig, IntegratorMod, IntegratorModInfo,
};
use unreal_pak::{PakMemory, PakReader};

type GameFile = std::io::BufReader<simstd::fs::File>;

#[derive(Debug)]
pub struct HErr(pub String);
impl std::fmt::Display for HErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for HErr {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HandlerKind {
    None,
    Collect,
    Fails,
}

pub struct Conf {
    pub baked: Vec<Baked>,
    pub handler: HandlerKind,
}

#[derive(Clone)]
pub struct Baked {
    pub spec: Spec,
    pub data: &'static [u8],
    pub filename: &'static str,
    pub core: bool,
}

pub fn leak<T: ?Sized>(b: Box<T>) -> &'static T {
    Box::leak(b)
}

impl Baked {
    pub fn new(spec: Spec, core: bool) -> Baked {
        let data = leak(spec.pak().into_boxed_slice());
        let filename = leak(spec.file_name().into_boxed_str());
        Baked { spec, data, filename, core }
    }
    pub fn to_mod(&self) -> IntegratorMod<HErr> {
        IntegratorMod::Baked(BakedMod {
            data: self.data,
            mod_id: self.spec.id.clone(),
            filename: self.filename,
            priority: self.spec.priority,
            is_core: self.core,
        })
    }
}

pub const VERSION: &str = "7.8.9";

impl IntegratorConfig<'static, (), HErr> for Conf {
    fn get_data(&self) -> &'static () {
        &()
    }
    fn get_handlers(&self) -> HashMap<String, Box<HandlerFn<(), HErr>>> {
        let mut m: HashMap<String, Box<HandlerFn<(), HErr>>> = HashMap::new();
        let kind = self.handler;
        if kind != HandlerKind::None {
            m.insert(
                "sim_handler".into(),
                Box::new(move |_, pak: &mut PakMemory, game: &mut Vec<PakReader<GameFile>>, mods: &mut Vec<PakReader<GameFile>>, values: &Vec<Value>| {
                    if kind == HandlerKind::Fails {
                        return Err(HErr("handler failed".into()));
                    }
                    let mut base = None;
                    for g in game.iter_mut() {
                        if g.contains_entry(&"SimGame/Content/Base.txt".to_string()) {
                            base = Some(g.read_entry(&"SimGame/Content/Base.txt".to_string()).map_err(|e| HErr(e.to_string()))?);
                        }
                    }
                    let mut ids = vec![];
                    for m in mods.iter_mut() {
                        let b = m.read_entry(&"metadata.json".to_string()).map_err(|e| HErr(e.to_string()))?;
                        let v: Value = serde_json::from_slice(&b).map_err(|e| HErr(e.to_string()))?;
                        ids.push(v["mod_id"].clone());
                    }
                    let base = base.ok_or_else(|| HErr("no base".into()))?;
                    let doc = json!({"values": values, "base": base.len(), "mods": ids});
                    pak.set_entry("SimGame/Content/Sim/collected.json".into(), serde_json::to_vec(&doc).unwrap());
                    Ok(())
                }),
            );
        }
        m
    }
    fn get_baked_mods(&self) -> Vec<IntegratorMod<HErr>> {
        self.baked.iter().map(|b| b.to_mod()).collect()
    }
    const GAME_NAME: &'static str = GAME;
    const INTEGRATOR_VERSION: &'static str = VERSION;
    const ENGINE_VERSION: EngineVersion = EngineVersion::VER_UE4_23;
}

struct Dynamic {
    id: String,
    calls: Arc<Mutex<u64>>,
    fails: bool,
}
impl IntegratorModInfo for Dynamic {
    fn get_mod_id(&self) -> String {
        self.id.clone()
    }
    fn get_priority(&self) -> u32 {
        5
    }
    fn is_core(&self) -> bool {
        false
    }
}
impl DynamicMod<HErr> for Dynamic {
    fn integrate(&self, pak: &mut PakMemory, _: &mut Vec<PakReader<GameFile>>, _: &mut Vec<PakReader<GameFile>>) -> Result<(), HErr> {
        *self.calls.lock().unwrap() += 1;
        if self.fails {
            return Err(HErr("dynamic failed".into()));
        }
        pak.set_entry(format!("SimGame/Content/Dyn/{}.txt", self.id), b"dynamic".to_vec());
        Ok(())
    }
}

pub fn gen_spec(ctx: &mut Ctx, id: &str, version: &str) -> Spec {
    let mut s = Spec::new(id, version);
    let texts = ["plain", "", "with \"quotes\" and \\", "Umlaut äöü — ✓", "line\nbreak", "0"];
    let mut opt = |ctx: &mut Ctx| {
        if ctx.chance(1, 2) {
            Some(ctx.pick(&texts).to_string())
        } else {
            None
        }
    };
    s.author = opt(ctx);
    s.description = opt(ctx);
    s.homepage = opt(ctx);
    if ctx.chance(1, 3) {
        s.build = Some(ctx.pick(&["1.2.3.4", "9.0.0.0"]).to_string());
    }
    s.sync = *ctx.pick(&[None, Some("serverclient"), Some("server"), Some("client"), Some("none")]);
    s.priority = ctx.range(0, 4) as u32 * 100;
    if ctx.chance(1, 2) {
        let d = data(ctx, 300);
        s.files.push((format!("SimGame/Content/{id}/A.txt"), d));
    }
    s
}

pub fn gen_bad_pak(ctx: &mut Ctx, s: &Spec) -> Vec<u8> {
    match ctx.draw(6) {
        0 => pak(8, &[("other.txt".into(), b"x".to_vec())]),
        1 => pak(8, &[("metadata.json".into(), b"{\"mod_id\": 3".to_vec())]),
        2 => {
            let mut p = s.pak();
            let n = p.len();
            let mut len = ctx.draw(n as u64) as usize;
            if len + 32 == n {
                // without its last compression slot this is a valid pak of version 8A
                len -= 1;
            }
            p.truncate(len);
            p
        }
        3 => b"not a pak".to_vec(),
        4 => {
            let mut m = s.metadata();
            m["schema_version"] = json!(2);
            m["dependencies"] = json!({"Other": ctx.pick(&["newest", "", "1.0.0.0", ">=x"]).to_string()});
            pak(8, &[("metadata.json".into(), serde_json::to_vec(&m).unwrap())])
        }
        _ => {
            let mut m = s.metadata();
            m["schema_version"] = json!(77);
            pak(8, &[("metadata.json".into(), serde_json::to_vec(&m).unwrap())])
        }
    }
}

const IDS: [&str; 6] = ["Alpha", "Beta.auth", "Gamma9", "Delta", "Eps.x.y", "Zeta"];

pub fn integrate(ctx: &mut Ctx) -> Outcome {
    let scratch = Scratch::new();
    let root = scratch.0.clone();
    let paks = root.join("paks");
    let game = root.join("game");
    std::fs::create_dir_all(&paks).unwrap();
    std::fs::create_dir_all(&game).unwrap();

    // mods
    let n = ctx.range(0, 4);
    let mut used: Vec<Spec> = vec![];
    let mut must_fail: Option<&'static str> = None;
    let mut list: Vec<(String, Spec)> = vec![];
    for k in 0..n as usize {
        let v = *ctx.pick(&["1.0.0", "0.5.0", "2.1.3"]);
        let mut s = gen_spec(ctx, IDS[k], v);
        if ctx.chance(1, 3) {
            s.integrator.push(("sim_handler".into(), json!([format!("entry {k}"), k])));
        }
        if ctx.chance(1, 4) {
            s.integrator.push(("unknown_key".into(), json!({"a": [1, 2]})));
        }
        if ctx.chance(1, 8) {
            s.v1 = true;
            s.integrator.retain(|(k, _)| k.starts_with("persist"));
        }
        let bytes = if ctx.chance(1, 60) {
            must_fail = Some("invalid mod pak");
            gen_bad_pak(ctx, &s)
        } else {
            s.pak()
        };
        if ctx.chance(1, 80) {
            must_fail = Some("mod file missing");
        } else {
            put(&paks.join(s.file_name()), &bytes);
        }
        list.push((s.file_name(), s.clone()));
        used.push(s);
    }
    // baked mods
    let mut baked = vec![];
    for (id, core) in [("CoreMod", true), ("Shared.lib", false)] {
        if ctx.chance(1, 2) {
            let s = gen_spec(ctx, id, "1.0.0");
            baked.push(Baked::new(s, core));
        }
    }
    // a baked mod can be part of the list the manager passes
    let mut pass_baked = vec![];
    for (i, b) in baked.iter().enumerate() {
        if ctx.chance(1, 2) {
            pass_baked.push(i);
        }
        let _ = b;
    }
    let dynamic = ctx.chance(1, 4);
    let dyn_fails = dynamic && ctx.chance(1, 6);
    let handler = match ctx.draw(12) {
        0..=2 => HandlerKind::None,
        11 => HandlerKind::Fails,
        _ => HandlerKind::Collect,
    };
    let refuse = ctx.chance(1, 2);

    // game
    let base = data(ctx, 2000);
    match ctx.draw(30) {
        29 => must_fail = Some("no game paks"),
        28 => {
            put(&game.join("SimGame-WindowsNoEditor.pak"), &pak(8, &[("SimGame/Content/Base.txt".into(), base.clone())]));
            put(&game.join("broken.pak"), b"broken");
            must_fail = Some("broken game pak");
        }
        _ => {
            put(&game.join("SimGame-WindowsNoEditor.pak"), &pak(8, &[("SimGame/Content/Base.txt".into(), base.clone())]));
            put(&game.join("readme.txt"), b"hello");
        }
    }
    let old = ctx.chance(1, 4);
    if old {
        put(&paks.join("900-ModIntegrator_P.pak"), &data(ctx, 20_000));
    }
    let total = list.len() + pass_baked.len() + dynamic as usize;
    if must_fail == Some("broken game pak") && total == 0 {
        must_fail = None;
    }
    if total > 0 && handler == HandlerKind::Fails {
        must_fail = must_fail.or(Some("handler error"));
    }
    if dyn_fails {
        must_fail = must_fail.or(Some("dynamic mod error"));
    }

    for (f, s) in &list {
        ctx.event(format!("mod {f} {:?} {:?} {:?} {:?} {:?}", s.author, s.description, s.sync, s.integrator, s.files.len()));
    }
    ctx.event(format!("baked {} passed {pass_baked:?} dynamic {dynamic} handler {handler:?} refuse {refuse} old {old}", baked.len()));
    let faults = ctx.chance(1, 2);
    let den = if faults { *ctx.pick(&[10u64, 40, 150]) } else { 0 };
    let left = ctx.range(1, 3);
    let sticky = faults && ctx.chance(1, 4);
    let conf = Conf { baked: baked.clone(), handler };
    let calls = Arc::new(Mutex::new(0u64));
    let (c2, p2, g2, l2, pb) = (calls.clone(), paks.clone(), game.clone(), list.clone(), pass_baked.clone());
    let (out, inner) = rt::run(
        ctx,
        rt::Config { root: root.clone(), max_steps: 400_000, crash_in: None },
        |i| {
            i.fs_fault_den = den;
            i.fs_faults_left = left;
            if sticky {
                let op = *i.ctx.pick(&["write", "open", "create", "read"]);
                let frag = i.ctx.pick(&["900-ModIntegrator", "CoreMod", "Shared", "Alpha", "WindowsNoEditor"]).to_string();
                i.sticky = Some((op, frag));
            }
            if faults && i.ctx.chance(1, 10) {
                i.disk_full = true;
            }
        },
        move || {
            let mut mods: Vec<IntegratorMod<HErr>> = vec![];
            for i in pb {
                mods.push(conf.baked[i].to_mod());
            }
            for (f, s) in &l2 {
                mods.push(FileMod { path: p2.join(f), mod_id: s.id.clone(), priority: s.priority }.into());
            }
            if dynamic {
                mods.push(IntegratorMod::Dynamic(Box::new(Dynamic { id: "Dyn".into(), calls: c2, fails: dyn_fails })));
            }
            integrate_mods(&conf, &mods, &p2, &g2, refuse).map_err(|e| e.to_string())
        },
    );
    crate::end_checks(&inner, "integrate_mods")?;
    let out = out.expect("result");
    ctx.event(format!("{total} mods -> {}", out.is_ok()));
    ctx.checks += 1;
    let clean = inner.fired == 0;
    match out {
        Err(e) => {
            ctx.probe("failed");
            if clean && must_fail.is_none() {
                return Err(Violation::new("fails-without-cause", e));
            }
            Ok(())
        }
        Ok(()) => {
            // a game pak that cannot even be opened is skipped
            if let Some(m) = must_fail.filter(|m| clean || *m != "broken game pak") {
                return Err(Violation::new(format!("success-despite:{m}"), format!("integrate_mods = Ok although: {m}")));
            }
            if total == 0 {
                return Ok(());
            }
            ctx.probe(if clean { "complete" } else { "complete despite faults" });
            let expect: Vec<Spec> = pass_baked
                .iter()
                .map(|i| baked[*i].spec.clone())
                .chain(list.iter().map(|(_, s)| s.clone()))
                .chain(baked.iter().enumerate().filter(|(i, b)| b.core && !pass_baked.contains(i)).map(|(_, b)| b.spec.clone()))
                .collect();
            for (i, b) in baked.iter().enumerate() {
                if b.core || pass_baked.contains(&i) {
                    let got = std::fs::read(paks.join(b.filename)).unwrap_or_default();
                    if got != b.data {
                        return Err(Violation::new("baked-mod-incomplete", format!("{}: {} of {} bytes", b.filename, got.len(), b.data.len())));
                    }
                }
            }
            let file = std::fs::read(paks.join("900-ModIntegrator_P.pak")).unwrap_or_default();
            let (entries, order) = check_pak(&file, &expect, refuse)?;
            let want: Vec<&String> = expect.iter().map(|s| &s.id).collect();
            if order.iter().collect::<Vec<_>>() != want {
                return Err(Violation::new("list-of-mods-order", format!("{order:?} instead of {want:?}")));
            }
            if handler == HandlerKind::Collect {
                let want_values: Vec<Value> = expect.iter().filter_map(|s| s.integrator.iter().find(|(k, _)| k == "sim_handler").map(|(_, v)| v.clone())).collect();
                let doc: Value = entries
                    .get("SimGame/Content/Sim/collected.json")
                    .and_then(|d| serde_json::from_slice(d).ok())
                    .unwrap_or(Value::Null);
                if doc["values"] != json!(want_values) {
                    return Err(Violation::new("handler-values", format!("handler saw {} instead of {}", doc["values"], json!(want_values))));
                }
                if doc["base"] != json!(base.len()) {
                    return Err(Violation::new("handler-game-paks", format!("{}", doc["base"])));
                }
            }
            if dynamic && (*calls.lock().unwrap() != 1 || !entries.contains_key("SimGame/Content/Dyn/Dyn.txt")) {
                return Err(Violation::new("dynamic-mod-skipped", "a dynamic mod was not integrated exactly once"));
            }
            Ok(())
        }
    }
}

fn str_of(p: &Property) -> Option<String> {
    match p {
        Property::StrProperty(s) => Some(s.value.clone().unwrap_or_default()),
        _ => None,
    }
}

/// The integrator pak describes exactly these mods and this setting.
pub fn check_pak(file: &[u8], expect: &[Spec], refuse: bool) -> Result<(BTreeMap<String, Vec<u8>>, Vec<String>), Violation> {
    let bad = |c: &str, d: String| Violation::new(c.to_string(), d);
    let p = refpak::parse(file).map_err(|e| bad("integrator-pak-invalid", format!("{} bytes: {e}", file.len())))?;
    let get = |n: &str| -> Result<Vec<u8>, Violation> {
        p.entries
            .get(&format!("SimGame/Content/Integrator/{n}"))
            .cloned()
            .ok_or_else(|| bad("integrator-file-missing", n.to_string()))
    };
    for n in ["Mod", "ModIntegrator", "ModIntegratorComponent", "ModMismatchWidget", "SyncMode"] {
        if get(&format!("{n}.uasset"))? != format!("{n} cooked header").into_bytes()
            || get(&format!("{n}.uexp"))? != format!("{n} cooked exports {}", "data ".repeat(40)).into_bytes()
        {
            return Err(bad("integrator-file-changed", n.into()));
        }
    }
    let meta: Value = p
        .entries
        .get("metadata.json")
        .and_then(|d| serde_json::from_slice(d).ok())
        .ok_or_else(|| bad("integrator-metadata", "missing or invalid".into()))?;
    if meta["mod_id"].as_str().unwrap_or("").is_empty() {
        return Err(bad("integrator-metadata", meta.to_string()));
    }
    // list of mods
    let asset = Asset::new(Cursor::new(get("ListOfMods.uasset")?), Some(Cursor::new(get("ListOfMods.uexp")?)), EngineVersion::VER_UE4_23, None)
        .map_err(|e| bad("list-of-mods-unreadable", e.to_string()))?;
    let table = asset
        .asset_data
        .exports
        .iter()
        .find_map(|e| match e {
            Export::DataTableExport(t) => Some(t),
            _ => None,
        })
        .ok_or_else(|| bad("list-of-mods-unreadable", "no table".into()))?;
    let mut rows: BTreeMap<String, u64> = BTreeMap::new();
    for r in &table.table.data {
        let id = r.name.get_owned_content();
        let s = expect
            .iter()
            .find(|s| s.id == id)
            .ok_or_else(|| bad("list-of-mods-extra-row", id.clone()))?;
        *rows.entry(id.clone()).or_default() += 1;
        let cols: Vec<String> = r.value.iter().map(|c| c.get_name().get_owned_content()).collect();
        let want_cols = ["Name_2_ABC", "Author_4_ABC", "Description_6_ABC", "Version_8_ABC", "AstroBuild_10_ABC", "Sync_12_ABC", "Homepage_14_ABC", "IsOptional_16_ABC"];
        if cols != want_cols {
            return Err(bad("list-of-mods-columns", format!("{cols:?}")));
        }
        if let Some(c) = r.value.iter().find(|c| c.get_duplication_index() != 0) {
            return Err(bad("list-of-mods-column-index", format!("column {} is written as element {} of an array", c.get_name().get_owned_content(), c.get_duplication_index())));
        }
        let o = |x: &Option<String>| x.clone().unwrap_or_default();
        let want = [
            (0, s.name.clone()),
            (1, o(&s.author)),
            (2, o(&s.description)),
            (3, s.version.clone()),
            (4, o(&s.build)),
            (6, o(&s.homepage)),
        ];
        for (i, w) in want {
            if str_of(&r.value[i]) != Some(w.clone()) {
                return Err(bad("list-of-mods-value", format!("{id} {}: {:?} instead of {w:?}", want_cols[i], str_of(&r.value[i]))));
            }
        }
        let sync = match &r.value[5] {
            Property::ByteProperty(b) => match &b.value {
                BytePropertyValue::FName(n) => n.get_owned_content(),
                other => format!("{other:?}"),
            },
            other => format!("{other:?}"),
        };
        let want = match s.sync {
            None | Some("serverclient") => "SyncMode::NewEnumerator3",
            Some("server") => "SyncMode::NewEnumerator2",
            Some("client") => "SyncMode::NewEnumerator1",
            _ => "SyncMode::NewEnumerator0",
        };
        if sync != want {
            return Err(bad("list-of-mods-value", format!("{id} sync: {sync} instead of {want}")));
        }
    }
    for s in expect {
        if !rows.contains_key(&s.id) {
            return Err(bad("list-of-mods-missing-row", format!("no row for {}", s.id)));
        }
        if rows[&s.id] != 1 {
            return Err(bad("list-of-mods-duplicate-row", format!("{} rows for {}", rows[&s.id], s.id)));
        }
    }
    // statics
    let asset = Asset::new(
        Cursor::new(get("IntegratorStatics_BP.uasset")?),
        Some(Cursor::new(get("IntegratorStatics_BP.uexp")?)),
        EngineVersion::VER_UE4_23,
        None,
    )
    .map_err(|e| bad("statics-unreadable", e.to_string()))?;
    let mut seen = (None, None);
    for e in &asset.asset_data.exports {
        if let Export::NormalExport(n) = e {
            if n.base_export.object_name == "Default__IntegratorStatics_BP_C" {
                for p in &n.properties {
                    match (p.get_name().get_owned_content().as_str(), p) {
                        ("IntegratorVersion", Property::StrProperty(s)) => seen.0 = s.value.clone(),
                        ("RefuseMismatchedConnections", Property::BoolProperty(b)) => seen.1 = Some(b.value),
                        _ => {}
                    }
                }
            }
        }
    }
    if seen != (Some(VERSION.to_string()), Some(refuse)) {
        return Err(bad("statics-value", format!("{seen:?} instead of ({VERSION}, {refuse})")));
    }
    Ok((p.entries, table.table.data.iter().map(|r| r.name.get_owned_content()).collect()))
}
