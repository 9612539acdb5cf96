//! Asset registries: read, edited, saved, with read faults and damage.
use crate::model::name_hash;
use crate::scen::first_diff;
use simcore::stream::{Fault, SimFile};
use simcore::{Ctx, Outcome, Violation};
use std::io::Cursor;
use unreal_asset::containers::{Chain, IndexedMap, NameMap};
use unreal_asset::engine_version::{get_object_versions, EngineVersion};
use unreal_asset::flags::EPackageFlags;
use unreal_asset::object_version::ObjectVersion;
use unreal_asset::reader::RawReader;
use unreal_asset::registry::objects::asset_data::{AssetData, TopLevelAssetPath};
use unreal_asset::registry::objects::asset_package_data::AssetPackageData;
use unreal_asset::registry::objects::depends_node::{AssetIdentifier, DependsNode};
use unreal_asset::registry::AssetRegistryState;
use unreal_asset::types::{FName, PackageIndex};

type N = (usize, i32);

#[derive(Clone, Debug)]
struct Asset {
    object_path: N,
    package_path: N,
    class: N,
    class_package: N,
    package_name: N,
    asset_name: N,
    tags: Vec<(N, Option<String>)>,
    chunks: Vec<i32>,
    flags: u32,
}

#[derive(Clone, Debug)]
struct Node {
    ident: [Option<N>; 4],
    /// package dependencies: node, property combinations (0..256)
    deps: Vec<(i32, u8)>,
    names: Vec<i32>,
    /// manage dependencies: node, direct
    manage: Vec<(i32, bool)>,
    referencers: Vec<i32>,
}

#[derive(Clone, Debug)]
struct Package {
    name: N,
    size: i64,
    guid: [u8; 16],
    hash: Option<[u8; 16]>,
    file_version: i32,
    ue5: i32,
    licensee: i32,
    flags: u32,
    customs: Vec<([u8; 16], i32)>,
    classes: Vec<N>,
}

#[derive(Clone, Debug)]
struct Reg {
    version: i32,
    eng: EngineVersion,
    names: Vec<String>,
    assets: Vec<Asset>,
    nodes: Vec<Node>,
    packages: Vec<Package>,
}

const GUID: [u32; 4] = [0x717F9EE7, 0xE9B0493A, 0x88B39132, 0x1B388107];
const FLAGS: &[u32] = &[0, 1, 0x10, 0x200, 0x2000, 0x20000, 0x8000_0000, 0x8002_0200, 0x4000_0000];
const ENGINES: &[EngineVersion] = &[
    EngineVersion::VER_UE4_10,
    EngineVersion::VER_UE4_16,
    EngineVersion::VER_UE4_21,
    EngineVersion::VER_UE4_23,
    EngineVersion::VER_UE4_25,
    EngineVersion::VER_UE4_27,
    EngineVersion::VER_UE5_0,
];

struct Out(Vec<u8>);
impl Out {
    fn i32(&mut self, v: i32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    fn i64(&mut self, v: i64) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    fn n(&mut self, n: N) {
        self.i32(n.0 as i32);
        self.i32(n.1)
    }
    fn str(&mut self, s: Option<&str>) {
        match s {
            None => self.i32(0),
            Some(s) if s.is_ascii() => {
                self.i32(s.len() as i32 + 1);
                self.0.extend_from_slice(s.as_bytes());
                self.0.push(0)
            }
            Some(s) => {
                let w: Vec<u16> = s.encode_utf16().collect();
                self.i32(-(w.len() as i32) - 1);
                for c in w {
                    self.0.extend_from_slice(&c.to_le_bytes())
                }
                self.0.extend_from_slice(&[0, 0])
            }
        }
    }
    fn list(&mut self, l: &[i32]) {
        self.i32(l.len() as i32);
        for i in l {
            self.i32(*i)
        }
    }
}

fn hard(f: u8) -> bool {
    // combinations of Hard=1, Game=2, Build=4: the odd ones are hard
    f & 0xaa != 0
}

/// the order in which the library keeps (and saves) dependencies with flags
fn canonical(r: &Reg) -> Reg {
    let mut r = r.clone();
    if r.version >= 7 {
        for n in &mut r.nodes {
            n.deps.sort_by_key(|d| (!hard(d.1), d.0));
            n.manage.sort_by_key(|d| (!d.1, d.0));
            n.names.sort();
            n.referencers.sort();
        }
    }
    r
}

fn encode(r: &Reg) -> Vec<u8> {
    let mut o = Out(vec![]);
    for g in GUID {
        o.u32(g)
    }
    o.i32(r.version);
    let (obj, _) = get_object_versions(r.eng);
    let table = r.version < 8;
    if table {
        o.i64(0)
    }
    o.i32(r.assets.len() as i32);
    for a in &r.assets {
        o.n(a.object_path);
        o.n(a.package_path);
        if r.version >= 14 {
            o.n(a.class_package);
        }
        o.n(a.class);
        o.n(a.package_name);
        o.n(a.asset_name);
        o.i32(a.tags.len() as i32);
        for (k, v) in &a.tags {
            o.n(*k);
            o.str(v.as_deref())
        }
        o.list(&a.chunks);
        o.u32(a.flags)
    }
    let at = o.0.len();
    if r.version >= 7 {
        o.i64(0);
    }
    o.i32(r.nodes.len() as i32);
    for n in &r.nodes {
        let mut bits = 0;
        for (k, f) in n.ident.iter().enumerate() {
            bits |= (f.is_some() as u8) << k
        }
        o.0.push(bits);
        for f in n.ident.iter().flatten() {
            o.n(*f)
        }
        if r.version < 7 {
            let h: Vec<i32> = n.deps.iter().filter(|d| hard(d.1)).map(|d| d.0).collect();
            let s: Vec<i32> = n.deps.iter().filter(|d| !hard(d.1)).map(|d| d.0).collect();
            let sm: Vec<i32> = n.manage.iter().filter(|d| !d.1).map(|d| d.0).collect();
            let hm: Vec<i32> = n.manage.iter().filter(|d| d.1).map(|d| d.0).collect();
            let mut lists = vec![&h, &s, &n.names, &sm];
            if r.version >= 5 {
                lists.push(&hm)
            }
            lists.push(&n.referencers);
            for l in &lists {
                o.i32(l.len() as i32)
            }
            for l in &lists {
                for i in l.iter() {
                    o.i32(*i)
                }
            }
        } else {
            let words = |o: &mut Out, bits: Vec<bool>| {
                for w in bits.chunks(32) {
                    o.u32(w.iter().enumerate().map(|(k, b)| (*b as u32) << k).sum())
                }
            };
            o.list(&n.deps.iter().map(|d| d.0).collect::<Vec<_>>());
            words(&mut o, n.deps.iter().flat_map(|d| (0..8).map(move |k| d.1 >> k & 1 != 0)).collect());
            o.list(&n.names);
            o.list(&n.manage.iter().map(|d| d.0).collect::<Vec<_>>());
            words(&mut o, n.manage.iter().map(|d| d.1).collect());
            o.list(&n.referencers)
        }
    }
    if r.version >= 7 {
        let size = (o.0.len() - at - 8) as i64;
        o.0[at..at + 8].copy_from_slice(&size.to_le_bytes());
    }
    o.i32(r.packages.len() as i32);
    for p in &r.packages {
        o.n(p.name);
        o.i64(p.size);
        o.0.extend_from_slice(&p.guid);
        if r.version >= 6 {
            o.u32(p.hash.is_some() as u32);
            if let Some(h) = &p.hash {
                o.0.extend_from_slice(h)
            }
        }
        if r.version >= 9 {
            o.i32(p.file_version);
            if r.version >= 11 {
                o.i32(p.ue5)
            }
            o.i32(p.licensee);
            o.u32(p.flags);
            o.i32(p.customs.len() as i32);
            for (g, v) in &p.customs {
                o.0.extend_from_slice(g);
                o.i32(*v)
            }
        }
        if r.version >= 10 {
            o.i32(p.classes.len() as i32);
            for c in &p.classes {
                o.n(*c)
            }
        }
    }
    if table {
        let at = o.0.len() as i64;
        o.0[20..28].copy_from_slice(&at.to_le_bytes());
        o.i32(r.names.len() as i32);
        for n in &r.names {
            o.str(Some(n));
            if obj >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED {
                o.u32(name_hash(n))
            }
        }
    }
    o.0
}

fn name(ctx: &mut Ctx, r: &Reg) -> N {
    let k = ctx.draw(r.names.len() as u64) as usize;
    let n = if ctx.chance(1, 4) { ctx.draw(5) as i32 } else { 0 };
    (k, n)
}

fn text(ctx: &mut Ctx) -> Option<String> {
    match ctx.draw(6) {
        0 => None,
        1 => Some(String::new()),
        2 => Some(["Größe", " x ", "a\nb\t", "\u{feff}é", "日本🙂", "\"q\"", "n\0", "é\0x"][ctx.draw(8) as usize].into()),
        3 => Some("x".repeat(ctx.many(300, 1 << 20) as usize)),
        _ => Some(format!("/Game/Value{}", ctx.draw(1000))),
    }
}

fn bytes16(ctx: &mut Ctx) -> [u8; 16] {
    let mut p = ctx.sub_prng();
    std::array::from_fn(|_| p.below(256) as u8)
}

fn some_asset(ctx: &mut Ctx, r: &Reg) -> Asset {
    let mut tags: Vec<(N, Option<String>)> = vec![];
    let n = ctx.many(4, 300);
    for i in 0..n {
        let mut k = name(ctx, r);
        if n > 4 {
            k.1 = i as i32
        }
        if tags.iter().all(|t| t.0 != k) {
            tags.push((k, text(ctx)))
        }
    }
    Asset {
        object_path: name(ctx, r),
        package_path: name(ctx, r),
        class: name(ctx, r),
        class_package: name(ctx, r),
        package_name: name(ctx, r),
        asset_name: name(ctx, r),
        tags,
        chunks: (0..ctx.many(4, 1 << 20)).map(|_| ctx.draw(5000) as i32 - 1).collect(),
        flags: *ctx.pick(FLAGS),
    }
}

fn indices(ctx: &mut Ctx, n: usize) -> Vec<i32> {
    if n == 0 {
        return vec![];
    }
    let most = match ctx.draw(4) {
        0 => 0,
        1 => 40,
        _ => 4,
    };
    (0..ctx.many(most + 1, 1 << 20)).map(|_| ctx.draw(n as u64) as i32).collect()
}

fn some_package(ctx: &mut Ctx, r: &Reg) -> Package {
    Package {
        name: name(ctx, r),
        size: ctx.draw(1 << 40) as i64 - 1,
        guid: bytes16(ctx),
        hash: ctx.chance(1, 2).then(|| bytes16(ctx)),
        file_version: ctx.draw(600) as i32,
        ue5: ctx.draw(1100) as i32,
        licensee: ctx.draw(3) as i32 - 1,
        flags: ctx.draw(1 << 32) as u32,
        customs: (0..ctx.many(3, 1 << 20)).map(|_| (bytes16(ctx), ctx.draw(50) as i32)).collect(),
        classes: (0..ctx.many(3, 1 << 20)).map(|_| name(ctx, r)).collect(),
    }
}

fn generate(ctx: &mut Ctx) -> Reg {
    let version = if ctx.chance(4, 5) { ctx.range(4, 7) } else { ctx.range(8, 14) } as i32;
    let eng = *ctx.pick(ENGINES);
    let mut names: Vec<String> = vec![];
    for k in 0..ctx.range(1, 12) {
        let n = match ctx.draw(6) {
            0 => format!("/Game/Maps/Level{k}"),
            1 => format!("Straße{k}"),
            2 => "x".repeat(100 + k as usize),
            3 => format!("{} {k}\n", if k % 2 == 0 { "lead" } else { " trail" }),
            // names which differ in case are different names
            _ => format!("{}{}", if k % 2 == 0 { "Name" } else { "NAME" }, k / 2),
        };
        names.push(n)
    }
    for k in 0..ctx.many(1, 1 << 20) {
        names.push(format!("Wide{k}"))
    }
    let mut r = Reg { version, eng, names, assets: vec![], nodes: vec![], packages: vec![] };
    for _ in 0..ctx.many(5, 1 << 20) {
        let a = some_asset(ctx, &r);
        r.assets.push(a)
    }
    let nn = ctx.many(6, 1 << 20) as usize;
    for _ in 0..nn {
        let ident = std::array::from_fn(|_| ctx.chance(1, 2).then(|| name(ctx, &r)));
        let deps = indices(ctx, nn).into_iter().map(|i| (i, if ctx.chance(1, 2) { 1 << ctx.draw(8) } else { 1 + ctx.draw(255) as u8 })).collect();
        let manage = indices(ctx, nn).into_iter().map(|i| (i, ctx.chance(1, 2))).collect();
        let names = indices(ctx, nn);
        let referencers = indices(ctx, nn);
        let mut n = Node { ident, deps, names, manage, referencers };
        if version < 5 {
            n.manage.retain(|m| !m.1)
        }
        r.nodes.push(n)
    }
    for _ in 0..ctx.many(4, 1 << 20) {
        let p = some_package(ctx, &r);
        r.packages.push(p)
    }
    ctx.end_bulk();
    ctx.event(format!("registry version {version} {eng:?}: {} names, {} assets, {} nodes, {} packages", r.names.len(), r.assets.len(), r.nodes.len(), r.packages.len()));
    r
}

fn load(f: SimFile, r: &Reg) -> Result<AssetRegistryState, unreal_asset::Error> {
    let (o, u) = get_object_versions(r.eng);
    let names = NameMap::new();
    if r.version >= 8 {
        for n in &r.names {
            names.clone().get_mut().add_name_reference(n.clone(), false);
        }
    }
    let mut reader = RawReader::<PackageIndex, _>::new(Chain::new(f, None), o, u, false, names);
    AssetRegistryState::new(&mut reader)
}

fn save(s: &AssetRegistryState) -> Result<Vec<u8>, unreal_asset::Error> {
    let mut c = Cursor::new(vec![]);
    s.write(&mut c)?;
    Ok(c.into_inner())
}

fn is(r: &Reg, f: &FName, n: N) -> bool {
    f.get_owned_content() == r.names[n.0] && f.get_number() == n.1
}

/// what a user of the loaded registry sees
fn same_view(r: &Reg, s: &AssetRegistryState) -> Outcome {
    let bad = |what: String| Err(Violation::new("registry-view", what));
    if s.get_version() as i32 != r.version {
        return bad(format!("version {} should be {}", s.get_version(), r.version));
    }
    if s.assets_data.len() != r.assets.len() || s.depends_nodes.len() != r.nodes.len() || s.package_data.len() != r.packages.len() {
        return bad(format!("{} assets, {} nodes, {} packages", s.assets_data.len(), s.depends_nodes.len(), s.package_data.len()));
    }
    for (k, (x, m)) in s.assets_data.iter().zip(&r.assets).enumerate() {
        let class = match (&x.asset_class, &x.asset_path) {
            (Some(c), None) if r.version < 14 => is(r, c, m.class),
            (None, Some(p)) if r.version >= 14 => is(r, &p.package_name, m.class_package) && is(r, &p.asset_name, m.class),
            _ => false,
        };
        let tags = x.tags_and_values.len() == m.tags.len() && x.tags_and_values.iter().zip(&m.tags).all(|((_, k, v), t)| is(r, k, t.0) && *v == t.1);
        if !(class && tags && is(r, &x.object_path, m.object_path) && is(r, &x.package_path, m.package_path) && is(r, &x.package_name, m.package_name) && is(r, &x.asset_name, m.asset_name) && x.chunk_ids == m.chunks && x.package_flags.bits() == m.flags) {
            return bad(format!("asset {k}: {x:?} should be {m:?}"));
        }
    }
    for (k, (x, m)) in s.depends_nodes.iter().zip(&r.nodes).enumerate() {
        let id = [&x.identifier.package_name, &x.identifier.primary_asset_type, &x.identifier.object_name, &x.identifier.value_name];
        for (a, b) in id.iter().zip(&m.ident) {
            let ok = match (a, b) {
                (Some(a), Some(b)) => is(r, a, *b),
                (None, None) => true,
                _ => false,
            };
            if !ok {
                return bad(format!("identifier of node {k}: {:?}", x.identifier));
            }
        }
        let counts = [x.hard_dependencies.len(), x.soft_dependencies.len(), x.name_dependencies.len(), x.hard_manage_dependencies.len(), x.soft_manage_dependencies.len(), x.referencers.len()];
        let want = [m.deps.iter().filter(|d| hard(d.1)).count(), m.deps.iter().filter(|d| !hard(d.1)).count(), m.names.len(), m.manage.iter().filter(|d| d.1).count(), m.manage.iter().filter(|d| !d.1).count(), m.referencers.len()];
        if counts != want {
            return bad(format!("dependencies of node {k}: {counts:?} should be {want:?}"));
        }
    }
    for (k, (x, m)) in s.package_data.iter().zip(&r.packages).enumerate() {
        let hash = if r.version >= 6 { x.cooked_hash.as_ref().is_some_and(|h| h.hash == m.hash) } else { x.cooked_hash.is_none() };
        if !is(r, &x.package_name, m.name) || x.disk_size != m.size || x.package_guid.0 != m.guid || !hash {
            return bad(format!("package {k}: {x:?} should be {m:?}"));
        }
    }
    Ok(())
}

fn check_saved(r: &Reg, s: &AssetRegistryState, what: &str) -> Outcome {
    let o = save(s).map_err(|e| Violation::new("registry-save-failed", format!("{what}: {e}")))?;
    let want = encode(&canonical(r));
    if o != want {
        return Err(Violation::new("registry-differs", format!("{what}: {}", first_diff(&want, &o))));
    }
    Ok(())
}

pub fn roundtrip(ctx: &mut Ctx) -> Outcome {
    let mut r = generate(ctx);
    let f = SimFile::new(encode(&r));
    f.disturb(ctx);
    let mut s = load(f.reopen(), &r).map_err(|e| Violation::new("registry-load-failed", format!("{e}")))?;
    f.drain(ctx);
    ctx.check();
    same_view(&r, &s)?;
    check_saved(&r, &s, "unedited")?;
    r = canonical(&r);
    if ctx.chance(1, 2) {
        return Ok(());
    }
    // edits through the public fields, then save, reload and save again
    for _ in 0..ctx.range(1, 4) {
        edit(ctx, &mut r, &mut s);
        ctx.check();
        check_saved(&r, &s, "edited")?;
    }
    let again = load(SimFile::new(save(&s).unwrap()), &r).map_err(|e| Violation::new("registry-reload-failed", format!("{e}")))?;
    same_view(&r, &again)?;
    check_saved(&r, &again, "reloaded")
}

fn any_fname(s: &AssetRegistryState) -> Option<FName> {
    s.assets_data.first().map(|a| a.object_path.clone()).or_else(|| s.package_data.first().map(|p| p.package_name.clone()))
}

fn edit(ctx: &mut Ctx, r: &mut Reg, s: &mut AssetRegistryState) {
    let Some(like) = any_fname(s) else { return };
    let to = |n: N| {
        let mut f = like.clone();
        if let FName::Backed { index, number, .. } = &mut f {
            *index = n.0 as i32;
            *number = n.1;
        }
        f
    };
    let kind = ctx.draw(10);
    ctx.event(format!("edit {kind}"));
    match kind {
        0 if r.version < 8 => {
            let n = format!("New{}", ctx.draw(6));
            let i = s.add_fname(&n);
            if !r.names.contains(&n) {
                r.names.push(n.clone())
            }
            let at = r.names.iter().position(|x| *x == n).unwrap();
            assert_eq!(i as usize, at, "index of an added name");
            if let Some(a) = s.assets_data.last_mut() {
                a.asset_name = to((at, 0));
                r.assets.last_mut().unwrap().asset_name = (at, 0);
            }
        }
        1 if r.assets.len() > 1 => {
            let k = ctx.draw(r.assets.len() as u64) as usize;
            r.assets.remove(k);
            s.assets_data.remove(k);
        }
        2 => {
            let a = some_asset(ctx, r);
            let mut tags = IndexedMap::new();
            for (k, v) in &a.tags {
                tags.insert(to(*k), v.clone());
            }
            let (class, path) = if r.version >= 14 { (None, Some(TopLevelAssetPath { package_name: to(a.class_package), asset_name: to(a.class) })) } else { (Some(to(a.class)), None) };
            let x = AssetData::from_data(to(a.object_path), to(a.package_name), to(a.package_path), to(a.asset_name), class, path, tags, Default::default(), a.chunks.clone(), EPackageFlags::from_bits(a.flags).unwrap(), s.get_version());
            let at = ctx.draw(r.assets.len() as u64 + 1) as usize;
            s.assets_data.insert(at, x);
            r.assets.insert(at, a);
        }
        3 if !r.assets.is_empty() => {
            let k = ctx.draw(r.assets.len() as u64) as usize;
            let key = name(ctx, r);
            let v = text(ctx);
            s.assets_data[k].tags_and_values.insert(to(key), v.clone());
            match r.assets[k].tags.iter_mut().find(|t| t.0 == key) {
                Some(t) => t.1 = v,
                None => r.assets[k].tags.push((key, v)),
            }
        }
        4 if !r.assets.is_empty() => {
            let k = ctx.draw(r.assets.len() as u64) as usize;
            s.assets_data[k].chunk_ids.push(7);
            r.assets[k].chunks.push(7);
        }
        5 if !r.packages.is_empty() => {
            let k = ctx.draw(r.packages.len() as u64) as usize;
            s.package_data[k].disk_size = 123;
            r.packages[k].size = 123;
        }
        6 if r.packages.len() > 1 => {
            let k = ctx.draw(r.packages.len() as u64) as usize;
            s.package_data.remove(k);
            r.packages.remove(k);
        }
        7 if r.version < 7 => {
            let mut n = DependsNode::new(r.nodes.len() as i32, s.get_version());
            let id = name(ctx, r);
            n.identifier = AssetIdentifier { package_name: Some(to(id)), ..Default::default() };
            s.depends_nodes.push(n);
            r.nodes.push(Node { ident: [Some(id), None, None, None], deps: vec![], names: vec![], manage: vec![], referencers: vec![] });
        }
        8 if r.version < 7 && !r.nodes.is_empty() => {
            let k = ctx.draw(r.nodes.len() as u64) as usize;
            let t = ctx.draw(r.nodes.len() as u64) as usize;
            let target = s.depends_nodes[t].clone();
            s.depends_nodes[k].hard_dependencies.push(target.clone());
            let from = s.depends_nodes[k].clone();
            s.depends_nodes[t].referencers.push(from);
            r.nodes[k].deps.push((t as i32, 0x80));
            r.nodes[t].referencers.push(k as i32);
        }
        9 if !r.nodes.is_empty() => {
            let k = ctx.draw(r.nodes.len() as u64) as usize;
            let id = name(ctx, r);
            s.depends_nodes[k].identifier.object_name = Some(to(id));
            r.nodes[k].ident[2] = Some(id);
        }
        _ => {}
    }
    let _: Option<&AssetPackageData> = s.package_data.first();
}

/// Failing reads are reported or do not matter; damage is answered, not died of.
pub fn faults(ctx: &mut Ctx) -> Outcome {
    let r = generate(ctx);
    let bytes = encode(&r);
    let f = SimFile::new(bytes.clone());
    load(f.reopen(), &r).map_err(|e| Violation::new("registry-load-failed", format!("{e}")))?;
    let ops = f.ops();
    for _ in 0..3 {
        let f = SimFile::new(bytes.clone());
        for _ in 0..ctx.range(1, 2) {
            let k = ctx.draw(ops);
            let fault = match ctx.draw(8) {
                0..=4 => Fault::Eio,
                5 => Fault::Eintr,
                6 => Fault::Short(1 + ctx.draw(3) as usize),
                _ => Fault::Crash(0),
            };
            ctx.event(format!("{fault:?} at operation {k} of {ops}"));
            f.at(k, fault);
        }
        let x = load(f.reopen(), &r);
        let errors = f.errors();
        f.drain(ctx);
        ctx.check();
        match x {
            Err(e) if errors == 0 => return Err(Violation::new("registry-error-without-fault", format!("{e}"))),
            Err(_) => {}
            Ok(s) => {
                same_view(&r, &s).map_err(|v| Violation::new("registry-read-error-swallowed", v.detail))?;
                check_saved(&r, &s, "after a read fault").map_err(|v| Violation::new("registry-read-error-swallowed", v.detail))?;
            }
        }
    }
    if bytes.len() > crate::fault::BIG {
        return Ok(());
    }
    for _ in 0..4 {
        let mut v = bytes.clone();
        for _ in 0..ctx.range(1, 3) {
            crate::fault::damage(ctx, &mut v, "");
        }
        ctx.fault("damage");
        ctx.check();
        if let Ok(s) = load(SimFile::new(v), &r) {
            ctx.probe("damaged-but-loaded");
            let _ = save(&s);
        }
    }
    Ok(())
}
