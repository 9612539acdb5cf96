//! Mappings (.usmap) files: parsed under split/failing reads and damage.
use simcore::stream::{Fault, SimFile};
use simcore::{Ctx, Outcome, Violation};
use unreal_asset::containers::IndexedMap;
use unreal_asset::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset::unversioned::properties::{EPropertyType, UsmapPropertyData, UsmapPropertyDataTrait};
use unreal_asset::unversioned::{EUsmapCompressionMethod, EUsmapVersion, Usmap, UsmapExtensionVersion};

#[derive(Clone, Debug)]
enum Ty {
    Shallow(u8),
    Enum(Box<Ty>, usize),
    Struct(usize),
    Set(Box<Ty>),
    Array(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
}

#[derive(Clone, Debug)]
struct Prop {
    name: usize,
    index: u16,
    array: u8,
    ty: Ty,
}

#[derive(Clone, Debug)]
struct Schema {
    name: usize,
    parent: usize,
    count: u16,
    props: Vec<Prop>,
    path: usize,
}

#[derive(Clone, Debug)]
struct Maps {
    version: u8,
    /// object versions, custom versions, net change list
    versions: Option<(i32, i32, Vec<([u8; 16], i32)>, u32)>,
    method: u8,
    names: Vec<String>,
    enums: Vec<(usize, Vec<usize>)>,
    schemas: Vec<Schema>,
    /// extension: module paths
    paths: Option<Vec<String>>,
    empty_extension: bool,
}

fn put_ty(o: &mut Vec<u8>, t: &Ty) {
    let name = |o: &mut Vec<u8>, n: usize| o.extend_from_slice(&(n as i32).to_le_bytes());
    match t {
        Ty::Shallow(k) => o.push(*k),
        Ty::Enum(i, n) => {
            o.push(26);
            put_ty(o, i);
            name(o, *n)
        }
        Ty::Struct(n) => {
            o.push(9);
            name(o, *n)
        }
        Ty::Set(i) => {
            o.push(25);
            put_ty(o, i)
        }
        Ty::Array(i) => {
            o.push(8);
            put_ty(o, i)
        }
        Ty::Map(k, v) => {
            o.push(24);
            put_ty(o, k);
            put_ty(o, v)
        }
    }
}

fn body(m: &Maps) -> Vec<u8> {
    let mut o = vec![];
    let int = |o: &mut Vec<u8>, n: usize| o.extend_from_slice(&(n as i32).to_le_bytes());
    int(&mut o, m.names.len());
    for n in &m.names {
        // the stored length is one more than the number of bytes that follow
        o.push(n.len() as u8 + 1);
        o.extend_from_slice(n.as_bytes());
    }
    int(&mut o, m.enums.len());
    for (n, v) in &m.enums {
        int(&mut o, *n);
        o.push(v.len() as u8);
        for x in v {
            int(&mut o, *x)
        }
    }
    int(&mut o, m.schemas.len());
    for s in &m.schemas {
        int(&mut o, s.name);
        int(&mut o, s.parent);
        o.extend_from_slice(&s.count.to_le_bytes());
        o.extend_from_slice(&(s.props.len() as u16).to_le_bytes());
        for p in &s.props {
            o.extend_from_slice(&p.index.to_le_bytes());
            o.push(p.array);
            int(&mut o, p.name);
            put_ty(&mut o, &p.ty);
        }
    }
    if let Some(paths) = &m.paths {
        int(&mut o, 1);
        o.extend_from_slice(&(paths.len() as u16).to_le_bytes());
        for p in paths {
            if p.is_empty() {
                int(&mut o, 0);
            } else {
                int(&mut o, p.len() + 1);
                o.extend_from_slice(p.as_bytes());
                o.push(0);
            }
        }
        for s in &m.schemas {
            if paths.len() > 255 {
                o.extend_from_slice(&(s.path as u16).to_le_bytes())
            } else {
                o.push(s.path as u8)
            }
        }
    } else if m.empty_extension {
        int(&mut o, 0);
    }
    o
}

fn frame(m: &Maps, data: &[u8]) -> Vec<u8> {
    let packed = match m.method {
        2 => {
            let mut o = vec![];
            let p = brotli::enc::BrotliEncoderParams { quality: 3, lgwin: 16, ..Default::default() };
            brotli::BrotliCompress(&mut &data[..], &mut o, &p).unwrap();
            o
        }
        3 => zstd::encode_all(data, 1).unwrap(),
        _ => data.to_vec(),
    };
    let mut o = vec![0x30, 0xc4, m.version];
    if m.version >= 1 {
        o.push(m.versions.is_some() as u8)
    }
    if let Some((a, b, c, cl)) = &m.versions {
        o.extend_from_slice(&a.to_le_bytes());
        o.extend_from_slice(&b.to_le_bytes());
        o.extend_from_slice(&(c.len() as i32).to_le_bytes());
        for (g, v) in c {
            o.extend_from_slice(g);
            o.extend_from_slice(&v.to_le_bytes());
        }
        o.extend_from_slice(&cl.to_le_bytes());
    }
    o.push(m.method);
    o.extend_from_slice(&(packed.len() as u32).to_le_bytes());
    o.extend_from_slice(&(data.len() as u32).to_le_bytes());
    o.extend_from_slice(&packed);
    o
}

fn some_ty(ctx: &mut Ctx, names: u64, depth: u32) -> Ty {
    match if depth > 3 { ctx.draw(3) } else { ctx.draw(8) } {
        0..=1 => {
            let k = ctx.draw(24) as u8;
            Ty::Shallow(match k {
                8 => 27,
                9 => 255,
                k => k,
            })
        }
        2 => Ty::Struct(ctx.draw(names) as usize),
        3 => Ty::Enum(Box::new(some_ty(ctx, names, depth + 1)), ctx.draw(names) as usize),
        4 => Ty::Set(Box::new(some_ty(ctx, names, depth + 1))),
        5 | 6 => Ty::Array(Box::new(some_ty(ctx, names, depth + 1))),
        _ => {
            let k = some_ty(ctx, names, depth + 1);
            Ty::Map(Box::new(k), Box::new(some_ty(ctx, names, depth + 1)))
        }
    }
}

fn generate(ctx: &mut Ctx) -> Maps {
    let version = ctx.draw(4) as u8;
    let versions = (version >= 1 && ctx.chance(1, 2)).then(|| {
        let customs = (0..ctx.many(3, 1 << 20)).map(|k| (std::array::from_fn(|i| (i as u8) ^ (k as u8).wrapping_mul(37)), ctx.draw(50) as i32 - 1)).collect();
        (*ctx.pick(&[0, 214, 342, 504, 516, 522]), *ctx.pick(&[0, 1000, 1004, 1009]), customs, ctx.draw(1 << 30) as u32)
    });
    let nn = ctx.range(1, 20);
    let mut names: Vec<String> = vec![];
    for k in 0..nn {
        names.push(match ctx.draw(8) {
            0 => "y".repeat(254 - k as usize),
            1 => format!("ü{k}"),
            2 => String::new(),
            // names which differ in case are different names
            _ => format!("{}{}", if k % 2 == 0 { "Name" } else { "NAME" }, k / 2),
        });
    }
    for k in 0..ctx.many(1, 1 << 20) {
        names.push(format!("Wide{k}"));
    }
    let nn = names.len() as u64;
    let mut enums: Vec<(usize, Vec<usize>)> = vec![];
    let ne = ctx.many(4, 300);
    for k in 0..ne {
        let mut n = ctx.draw(nn) as usize;
        if ne > 4 {
            n = names.len();
            names.push(format!("Enum{k}"));
        }
        // the map of enums is keyed by name
        if enums.iter().any(|e| names[e.0] == names[n]) {
            continue;
        }
        let k = if ctx.chance(1, 10) { ctx.range(128, 255) } else { ctx.draw(5) };
        enums.push((n, (0..k).map(|_| ctx.draw(nn) as usize).collect()));
    }
    let mut paths = ctx.chance(1, 2).then(|| {
        let k = if ctx.chance(1, 6) { if ctx.chance(1, 100) { ctx.range(65533, 65535) } else { ctx.range(254, 260) } } else { ctx.range(1, 4) };
        (0..k).map(|i| if i == 1 { String::new() } else { format!("/Script/Module{i}") }).collect::<Vec<_>>()
    });
    let np = paths.as_ref().map_or(1, |p| p.len()) as u64;
    let mut schemas: Vec<Schema> = vec![];
    let ns = ctx.many(5, 300);
    for k in 0..ns {
        let mut n = ctx.draw(nn) as usize;
        if ns > 5 {
            n = names.len();
            names.push(format!("Class{k}"));
        }
        if schemas.iter().any(|e| names[e.name] == names[n]) {
            continue;
        }
        let mut props: Vec<Prop> = vec![];
        let mut index = 0u16;
        for _ in 0..ctx.many(5, 300) {
            index += ctx.draw(3) as u16;
            if ctx.chance(1, 30) {
                index = index.max(250 + ctx.draw(10) as u16);
            }
            let array = if ctx.chance(1, 4) { ctx.range(2, 5) as u8 } else { 1 };
            props.push(Prop { name: ctx.draw(nn) as usize, index, array, ty: some_ty(ctx, nn, 0) });
            index += array as u16;
        }
        if ctx.chance(1, 2) {
            props.reverse();
        }
        schemas.push(Schema { name: n, parent: ctx.draw(nn) as usize, count: index + ctx.draw(2) as u16, props, path: ctx.draw(np) as usize });
    }
    // no class is its own ancestor
    let order: Vec<String> = schemas.iter().map(|s| names[s.name].clone()).collect();
    for (k, s) in schemas.iter_mut().enumerate() {
        if order.iter().position(|o| *o == names[s.parent]).is_some_and(|p| p >= k) {
            match (0..names.len()).find(|i| !order.contains(&names[*i])) {
                Some(i) => s.parent = i,
                None => {
                    names.push("/none".to_string());
                    s.parent = names.len() - 1
                }
            }
        }
    }
    if schemas.is_empty() && ctx.chance(1, 2) {
        paths = None;
    }
    ctx.end_bulk();
    let method = *ctx.pick(&[0, 0, 2, 3]);
    let m = Maps { version, versions, method, names, enums, schemas, paths, empty_extension: ctx.chance(1, 4) };
    ctx.event(format!("mappings version {version} method {method}: {} names, {} enums, {} schemas, {:?} paths", m.names.len(), m.enums.len(), m.schemas.len(), m.paths.as_ref().map(|p| p.len())));
    m
}

fn parse(f: SimFile) -> Result<Usmap, unreal_asset::Error> {
    let mut u = Usmap {
        version: EUsmapVersion::Initial,
        name_map: vec![],
        enum_map: IndexedMap::new(),
        schemas: IndexedMap::new(),
        extension_version: UsmapExtensionVersion::NONE,
        object_version: ObjectVersion::UNKNOWN,
        object_version_ue5: ObjectVersionUE5::UNKNOWN,
        custom_versions: vec![],
        compression_method: EUsmapCompressionMethod::None,
        net_cl: 0,
    };
    u.parse_data(f).map(|_| u)
}

fn same_ty(m: &Maps, t: &Ty, x: &UsmapPropertyData) -> bool {
    let (number, ok) = match (t, x) {
        (Ty::Shallow(k), UsmapPropertyData::UsmapShallowPropertyData(s)) => (*k, s.property_type as u8 == *k),
        (Ty::Enum(i, n), UsmapPropertyData::UsmapEnumPropertyData(e)) => (26, e.name == m.names[*n] && same_ty(m, i, &e.inner_property)),
        (Ty::Struct(n), UsmapPropertyData::UsmapStructPropertyData(s)) => (9, s.struct_type == m.names[*n]),
        (Ty::Set(i), UsmapPropertyData::UsmapSetPropertyData(s)) => (25, same_ty(m, i, &s.inner_type)),
        (Ty::Array(i), UsmapPropertyData::UsmapArrayPropertyData(s)) => (8, same_ty(m, i, &s.inner_type)),
        (Ty::Map(k, v), UsmapPropertyData::UsmapMapPropertyData(s)) => (24, same_ty(m, k, &s.inner_type) && same_ty(m, v, &s.value_type)),
        _ => (0, false),
    };
    let kind: EPropertyType = x.get_property_type();
    ok && kind as u8 == number
}

fn same_view(m: &Maps, u: &Usmap) -> Outcome {
    let bad = |what: String| Err(Violation::new("usmap-view", what));
    if u.version as u8 != m.version || u.compression_method as u8 != m.method {
        return bad(format!("version {:?} method {:?}", u.version, u.compression_method));
    }
    let (a, b, c, cl) = m.versions.clone().unwrap_or_default();
    if u.object_version as i32 != a || u.object_version_ue5 as i32 != b || u.net_cl != cl || u.custom_versions.len() != c.len() || u.custom_versions.iter().zip(&c).any(|(x, y)| x.guid.0 != y.0 || x.version != y.1) {
        return bad(format!("versions {:?} {:?} {} {:?}", u.object_version, u.object_version_ue5, u.net_cl, u.custom_versions));
    }
    if u.name_map != m.names {
        return bad(format!("names {:?} should be {:?}", u.name_map, m.names));
    }
    let name = |i: &usize| m.names[*i].clone();
    let enums: Vec<_> = u.enum_map.iter().map(|(_, k, v)| (k.clone(), v.clone())).collect();
    let want: Vec<_> = m.enums.iter().map(|(k, v)| (name(k), v.iter().map(name).collect::<Vec<_>>())).collect();
    if enums != want {
        return bad(format!("enums {enums:?} should be {want:?}"));
    }
    if u.schemas.len() != m.schemas.len() {
        return bad(format!("{} schemas, should be {}", u.schemas.len(), m.schemas.len()));
    }
    for ((_, key, s), w) in u.schemas.iter().zip(&m.schemas) {
        let path = m.paths.as_ref().map(|p| p[w.path].clone());
        if *key != m.names[w.name] || s.name != *key || s.super_type != m.names[w.parent] || s.prop_count != w.count || s.module_path != path {
            return bad(format!("schema {key} {s:?} should be {w:?}"));
        }
        let mut want = vec![];
        for p in &w.props {
            for j in 0..p.array as u16 {
                want.push((p, j));
            }
        }
        if s.properties.len() != want.len() {
            return bad(format!("schema {key}: {} properties, should be {}", s.properties.len(), want.len()));
        }
        for ((_, _, x), (p, j)) in s.properties.iter().zip(want) {
            if x.name != m.names[p.name] || x.schema_index != p.index + j || x.array_index != j || x.array_size != p.array || !same_ty(m, &p.ty, &x.property_data) {
                return bad(format!("property {j} of {p:?}: {x:?}"));
            }
        }
    }
    // a class has its own properties and those of its ancestors
    for s in &m.schemas {
        let mut want = vec![];
        let mut at = Some(s);
        while let Some(s) = at {
            for p in &s.props {
                for j in 0..p.array as u16 {
                    want.push((m.names[p.name].as_str(), p.index + j));
                }
            }
            at = m.schemas.iter().find(|x| m.names[x.name] == m.names[s.parent]);
        }
        let got: Vec<_> = u.get_all_properties(&m.names[s.name]).iter().map(|p| (p.name.as_str(), p.schema_index)).collect();
        if got != want {
            return bad(format!("all properties of {}: {got:?} should be {want:?}", m.names[s.name]));
        }
    }
    let want = if m.paths.is_some() { UsmapExtensionVersion::PATHS } else { UsmapExtensionVersion::NONE };
    if u.extension_version != want {
        return bad(format!("extension {:?}", u.extension_version));
    }
    Ok(())
}

pub fn mappings(ctx: &mut Ctx) -> Outcome {
    let m = generate(ctx);
    let data = body(&m);
    let bytes = frame(&m, &data);
    let f = SimFile::new(bytes.clone());
    f.disturb(ctx);
    let u = parse(f.reopen()).map_err(|e| Violation::new("usmap-load-failed", format!("{e}")))?;
    f.drain(ctx);
    ctx.check();
    same_view(&m, &u)?;
    let f = SimFile::new(bytes.clone());
    let _ = parse(f.reopen());
    let ops = f.ops();
    for _ in 0..2 {
        let f = SimFile::new(bytes.clone());
        let k = ctx.draw(ops);
        let fault = match ctx.draw(8) {
            0..=4 => Fault::Eio,
            5 => Fault::Eintr,
            6 => Fault::Short(1 + ctx.draw(3) as usize),
            _ => Fault::Crash(0),
        };
        ctx.event(format!("{fault:?} at operation {k} of {ops}"));
        f.at(k, fault);
        let x = parse(f.reopen());
        let errors = f.errors();
        f.drain(ctx);
        ctx.check();
        match x {
            Err(e) if errors == 0 => return Err(Violation::new("usmap-error-without-fault", format!("{e}"))),
            Err(_) => {}
            Ok(u) => same_view(&m, &u).map_err(|v| Violation::new("usmap-read-error-swallowed", v.detail))?,
        }
    }
    if data.len() > crate::fault::BIG {
        return Ok(());
    }
    for _ in 0..4 {
        // damage of the stored file or of what was packed into it
        let inside = ctx.chance(2, 3);
        let mut v = if inside { data.clone() } else { bytes.clone() };
        for _ in 0..ctx.range(1, 3) {
            crate::fault::damage(ctx, &mut v, "");
        }
        ctx.fault("damage");
        ctx.check();
        let v = if inside { frame(&m, &v) } else { v };
        if let Ok(u) = parse(SimFile::new(v)) {
            ctx.probe("damaged-but-parsed");
            for (_, k, _) in u.schemas.iter() {
                let _ = u.get_all_properties(k);
            }
        }
    }
    Ok(())
}
