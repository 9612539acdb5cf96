//! I02: persistent actors of mods are placed, complete and once, in every map the mods name.
use crate::integ::{Conf, HErr, HandlerKind};
use crate::model::*;
use crate::refpak;
use crate::world::*;
use serde_json::{json, Value};
use simcore::{Ctx, Outcome, Violation};
use simstd::rt;
use std::collections::BTreeMap;
use std::io::Cursor;
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset::properties::{Property, PropertyDataTrait};
use unreal_asset::types::{PackageIndex, PackageIndexTrait};
use unreal_asset::Asset;
use unreal_mod_integrator::{integrate_mods, FileMod, IntegratorMod};

type LibAsset = Asset<Cursor<Vec<u8>>>;

fn model(split: bool) -> Model {
    Model {
        ver: Ver { label: "4.23", obj: 517, ue5: 0, release: 23, framework: 35, fortnite: 27, editor: 34, sequencer: 11, core: 3, animphys: 0, minor: 23, versioned: false },
        legacy: -7,
        licensee: 0,
        customs: vec![],
        folder: "None".into(),
        flags: 0x8000_0000,
        names: vec![],
        zero_hash: Default::default(),
        soft_paths: (0, 0),
        gatherable: (0, 0),
        imports: vec![],
        exports: vec![],
        depends: Some(vec![]),
        soft_refs: None,
        searchable: 0,
        thumbnail: 0,
        guid: [3; 16],
        generations: 1,
        recorded: EngVer(4, 23, 1, 0, Some("++UE4".into())),
        compatible: EngVer(4, 23, 1, 0, Some("++UE4".into())),
        compression: 0,
        source: 0,
        registry: false,
        tile: None,
        chunks: vec![],
        names_referenced: 0,
        payload_toc: 0,
        data_resources: 0,
        split,
        extra_names: vec![],
    }
}

/// (class package, class, outer, name), outer being a position in the same list
type ImpSpec = (String, String, Option<usize>, String);

struct Imports(Vec<ImpSpec>);
impl Imports {
    fn add(&mut self, cp: &str, c: &str, outer: Option<usize>, n: &str) -> usize {
        let s = (cp.to_owned(), c.to_owned(), outer, n.to_owned());
        if let Some(i) = self.0.iter().position(|x| *x == s) {
            return i;
        }
        self.0.push(s);
        self.0.len() - 1
    }
    fn package(&mut self, p: &str) -> usize {
        self.add("/Script/CoreUObject", "Package", None, p)
    }
    fn class(&mut self, p: &str, c: &str) -> usize {
        let o = self.package(p);
        self.add("/Script/CoreUObject", "Class", Some(o), c)
    }
    /// writes the imports in a random order; position -> package index
    fn place(&self, ctx: &mut Ctx, m: &mut Model) -> Vec<i32> {
        let mut order: Vec<usize> = (0..self.0.len()).collect();
        shuffle(ctx, &mut order);
        let mut idx = vec![0; order.len()];
        for (at, i) in order.iter().enumerate() {
            idx[*i] = -(at as i32) - 1;
        }
        for i in order {
            let (cp, c, o, n) = &self.0[i];
            let imp = Imp { class_package: m.intern(cp), class_name: m.intern(c), outer: o.map_or(0, |o| idx[o]), name: m.intern(n), optional: false };
            m.imports.push(imp);
        }
        idx
    }
}

fn shuffle<T>(ctx: &mut Ctx, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = ctx.draw(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

fn exp(name: Nm, class: i32, outer: i32, body: Body) -> Exp {
    Exp {
        class,
        sup: 0,
        template: 0,
        outer,
        name,
        flags: 8,
        b: [false; 3],
        guid: [0; 16],
        inherited: false,
        package_flags: 0,
        not_always: true,
        is_asset: false,
        public_hash: false,
        deps: Default::default(),
        body,
    }
}

fn prop(m: &mut Model, n: &str, v: Val) -> Prop {
    Prop { name: m.intern(n), dup: 0, guid: None, v }
}

fn objects(v: Vec<i32>) -> Val {
    Val::Array { inner: "ObjectProperty".into(), items: v.into_iter().map(Val::Object).collect() }
}

fn finish(m: &mut Model) -> (Vec<u8>, Option<Vec<u8>>) {
    m.depends = Some(vec![vec![]; m.exports.len()]);
    loop {
        let f = encode(m, &m.names);
        if f.missing.is_empty() {
            return (f.uasset, f.uexp);
        }
        for s in f.missing {
            m.names.push(s);
        }
    }
}

#[derive(Clone, Debug)]
struct Node {
    var: String,
    /// class package, class, package, name of the component's class
    class: (String, String, String, String),
    parent: Option<usize>,
}

#[derive(Clone, Debug)]
struct Actor {
    path: String,
    nodes: Vec<Node>,
}

fn noise(ctx: &mut Ctx, im: &mut Imports) -> usize {
    let p = ["/Script/Engine", "/Script/UMG", "/Game/Common/Thing"];
    for _ in 0..ctx.draw(8) {
        let pk = *ctx.pick(&p);
        let c = format!("{}{}", ctx.pick(&["Texture", "Widget", "SceneComponent", "Pawn"]), ctx.draw(3));
        im.class(pk, &c);
    }
    im.class("/Script/Engine", "Actor")
}

fn gen_actor(ctx: &mut Ctx, path: &str, broken: &mut bool) -> (Actor, (Vec<u8>, Option<Vec<u8>>)) {
    let split = ctx.chance(2, 3);
    let mut m = model(split);
    let stem = path.rsplit('/').next().unwrap().to_owned();
    let mut im = Imports(vec![]);
    let thing = noise(ctx, &mut im);
    let scs = im.class("/Script/Engine", "SimpleConstructionScript");
    let scs_node = im.class("/Script/Engine", "SCS_Node");
    let has_scs = ctx.chance(4, 5);
    let n = if has_scs { ctx.draw(5) as usize } else { 0 };
    let mut nodes: Vec<Node> = vec![];
    let mut class_at = vec![];
    for i in 0..n {
        let (class, at) = match ctx.draw(4) {
            0 => {
                let c = format!("Comp{}", ctx.draw(2));
                let p = format!("/Game/Mods/Parts/{c}");
                let o = im.package(&p);
                let n = format!("{c}_C");
                (("/Script/Engine".to_owned(), "BlueprintGeneratedClass".to_owned(), p, n.clone()), im.add("/Script/Engine", "BlueprintGeneratedClass", Some(o), &n))
            }
            k => {
                let c = ["SceneComponent", "StaticMeshComponent", "PointLightComponent"][k as usize - 1];
                (("/Script/CoreUObject".to_owned(), "Class".to_owned(), "/Script/Engine".to_owned(), c.to_owned()), im.class("/Script/Engine", c))
            }
        };
        let var = if i == 0 && ctx.chance(2, 3) { "DefaultSceneRoot".to_owned() } else { format!("{}{i}", ctx.pick(&["Mesh", "Light", "Röhre", "bHidden"])) };
        let parent = if i > 0 && ctx.chance(2, 3) { Some(ctx.draw(i as u64) as usize) } else { None };
        nodes.push(Node { var, class, parent });
        class_at.push(at);
    }
    let idx = im.place(ctx, &mut m);
    // exports: some unrelated ones, the script, its nodes
    #[derive(Clone, Copy)]
    enum E {
        Other,
        Scs,
        Node(usize),
    }
    let mut order: Vec<E> = (0..ctx.range(1, 3)).map(|_| E::Other).collect();
    if has_scs {
        order.push(E::Scs);
    }
    order.extend((0..n).map(E::Node));
    shuffle(ctx, &mut order);
    let at = |w: &dyn Fn(&E) -> bool| order.iter().position(w).map_or(0, |i| i as i32 + 1);
    let node_at: Vec<i32> = (0..n).map(|i| at(&|e| matches!(e, E::Node(j) if *j == i))).collect();
    let scs_at = at(&|e| matches!(e, E::Scs));
    let other_at = at(&|e| matches!(e, E::Other));
    let invalid = *broken && has_scs;
    *broken = false;
    for e in &order {
        let x = match e {
            E::Other => {
                let v = Val::I32(ctx.draw(1000) as i32);
                let p = prop(&mut m, "Value", v);
                let name = m.intern(&format!("Default__{stem}_C"));
                // some of a class which lies in the same file
                let class = if order.len() > 1 && ctx.chance(1, 4) { *ctx.pick(&[1, order.len() as i32]) } else { idx[thing] };
                exp(name, class, 0, Body::Normal { props: vec![p], extras: vec![0; 4] })
            }
            E::Scs => {
                let mut all = node_at.clone();
                if ctx.chance(1, 4) {
                    all.insert(0, *ctx.pick(&[0, other_at]));
                }
                if invalid {
                    all.push(*ctx.pick(&[order.len() as i32 + 1, i32::MAX, 1_000_000]));
                    *broken = true;
                }
                let roots: Vec<i32> = (0..n).filter(|i| nodes[*i].parent.is_none()).map(|i| node_at[i]).collect();
                let mut props = vec![prop(&mut m, "RootNodes", objects(roots))];
                props.push(prop(&mut m, "AllNodes", objects(all)));
                if n > 0 {
                    props.push(prop(&mut m, "DefaultSceneRootNode", Val::Object(node_at[0])));
                }
                let name = m.intern("SimpleConstructionScript_0");
                exp(name, idx[scs], other_at, Body::Normal { props, extras: vec![0; 4] })
            }
            E::Node(i) => {
                let mut props = vec![prop(&mut m, "ComponentClass", Val::Object(idx[class_at[*i]]))];
                let children: Vec<i32> = (0..n).filter(|j| nodes[*j].parent == Some(*i)).map(|j| node_at[j]).collect();
                if !children.is_empty() {
                    props.push(prop(&mut m, "ChildNodes", objects(children)));
                }
                let v = m.intern(&nodes[*i].var);
                props.push(prop(&mut m, "InternalVariableName", Val::Name(v)));
                shuffle(ctx, &mut props);
                let name = m.intern(&format!("SCS_Node_{i}"));
                exp(name, idx[scs_node], scs_at, Body::Normal { props, extras: vec![0; 4] })
            }
        };
        m.exports.push(x);
    }
    (Actor { path: path.to_owned(), nodes }, finish(&mut m))
}

fn gen_map(ctx: &mut Ctx, level: bool) -> (Vec<u8>, Option<Vec<u8>>) {
    let split = ctx.chance(2, 3);
    let mut m = model(split);
    let mut im = Imports(vec![]);
    let thing = noise(ctx, &mut im);
    let lvl = im.class("/Script/Engine", "Level");
    let world = im.class("/Script/Engine", "World");
    if ctx.chance(1, 3) {
        im.class("/Script/Engine", "SceneComponent");
    }
    let idx = im.place(ctx, &mut m);
    let mut order: Vec<u8> = (0..ctx.range(1, 4)).map(|_| 0).collect();
    if level {
        order.push(1);
    }
    order.push(2);
    shuffle(ctx, &mut order);
    let level_at = order.iter().position(|x| *x == 1).map_or(0, |i| i as i32 + 1);
    let actors: Vec<i32> = order.iter().enumerate().filter(|(_, x)| **x == 0).map(|(i, _)| i as i32 + 1).collect();
    for k in order.clone() {
        let x = match k {
            0 => {
                let v = Val::I32(ctx.draw(1000) as i32);
                let p = prop(&mut m, "Value", v);
                let name = m.intern(*ctx.pick(&["Thing", "Rock", "Tree"]));
                let mut e = exp(name, idx[thing], level_at, Body::Normal { props: vec![p], extras: vec![0; 4] });
                if ctx.chance(1, 2) {
                    e.deps[2] = vec![idx[thing]];
                }
                e
            }
            1 => {
                let name = m.intern("PersistentLevel");
                exp(
                    name,
                    idx[lvl],
                    0,
                    Body::Level {
                        props: vec![],
                        actors: actors.clone(),
                        url: [Some("unreal".into()), None, Some("/Game/Maps/Main".into()), None],
                        options: vec![],
                        port: 7777,
                        valid: 1,
                        model: 0,
                        comps: vec![],
                        idx: [0, 0, 0],
                        extras: vec![0; 8],
                    },
                )
            }
            _ => {
                let name = m.intern("World");
                exp(name, idx[world], 0, Body::World { props: vec![], idx: level_at, a: vec![], b: vec![], extras: vec![] })
            }
        };
        m.exports.push(x);
    }
    finish(&mut m)
}

fn load(a: &[u8], e: Option<&Vec<u8>>) -> Result<LibAsset, String> {
    Asset::new(Cursor::new(a.to_vec()), e.map(|e| Cursor::new(e.clone())), EngineVersion::VER_UE4_23, None).map_err(|e| e.to_string())
}

/// bytes of every export as the file's own table describes them
fn bodies(x: &LibAsset, a: &[u8], e: Option<&Vec<u8>>) -> Vec<Vec<u8>> {
    let mut all = a.to_vec();
    if let Some(e) = e {
        all.extend(e);
    }
    x.asset_data
        .exports
        .iter()
        .map(|e| {
            let b = e.get_base_export();
            let (o, n) = (b.serial_offset as usize, b.serial_size as usize);
            all.get(o..o + n).map(|s| s.to_vec()).unwrap_or_default()
        })
        .collect()
}

/// class package, class, name of an import and of everything it lies in
fn chain(x: &LibAsset, i: PackageIndex) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let mut i = i;
    while i.index < 0 && out.len() < 10 {
        let Some(im) = x.get_import(i) else {
            out.push(("?".into(), "?".into(), format!("{}", i.index)));
            break;
        };
        out.push((im.class_package.get_owned_content(), im.class_name.get_owned_content(), im.object_name.get_owned_content()));
        i = im.outer_index;
    }
    if i.index > 0 {
        out.push(("export".into(), "".into(), format!("{}", i.index)));
    }
    out
}

fn find<'a>(p: &'a [Property], n: &str) -> Vec<&'a Property> {
    p.iter().filter(|p| p.get_name() == n).collect()
}

fn object(p: &[Property], n: &str) -> Result<Option<i32>, Violation> {
    let f = find(p, n);
    match f.as_slice() {
        [] => Ok(None),
        [Property::ObjectProperty(o)] => Ok(Some(o.value.index)),
        other => Err(Violation::new("actor-property", format!("{n}: {} times or not an object", other.len()))),
    }
}

fn judge(name: &str, old: &(Vec<u8>, Option<Vec<u8>>), entries: &BTreeMap<String, Vec<u8>>, actors: &[Actor]) -> Outcome {
    let bad = |c: &str, d: String| Err(Violation::new(c.to_owned(), format!("{name}: {d}")));
    let uexp = format!("{}.uexp", name.rsplit_once('.').unwrap().0);
    let Some(a) = entries.get(name) else { return bad("map-missing", "not in the integrator pak".into()) };
    let e = entries.get(&uexp);
    if e.is_some() != old.1.is_some() {
        return bad("map-files", format!("uexp {} instead of {}", e.is_some(), old.1.is_some()));
    }
    let was = load(&old.0, old.1.as_ref()).map_err(|e| Violation::new("map-source-unreadable", e))?;
    let now = load(a, e).map_err(|e| Violation::new("map-unreadable", format!("{name}: {e}")))?;
    let lev = was.asset_data.exports.iter().position(|e| matches!(e, Export::LevelExport(_))).unwrap();
    // what was there is still there
    let (nw, nn) = (was.asset_data.exports.len(), now.asset_data.exports.len());
    let (bw, bn) = (bodies(&was, &old.0, old.1.as_ref()), bodies(&now, a, e));
    for i in 0..was.imports.len() {
        let p = PackageIndex::new(-(i as i32) - 1);
        if chain(&was, p) != chain(&now, p) {
            return bad("map-import-changed", format!("{:?} instead of {:?}", chain(&now, p), chain(&was, p)));
        }
    }
    if nn < nw {
        return bad("map-export-lost", format!("{nn} of {nw}"));
    }
    for i in 0..nw {
        let (x, y) = (was.asset_data.exports[i].get_base_export(), now.asset_data.exports[i].get_base_export());
        if x.object_name.get_owned_content() != y.object_name.get_owned_content() || x.class_index != y.class_index || x.outer_index != y.outer_index || x.serialization_before_create_dependencies != y.serialization_before_create_dependencies {
            return bad("map-export-changed", format!("export {i}"));
        }
        if i != lev && bw[i] != bn[i] {
            return bad("map-export-changed", format!("content of export {i}"));
        }
    }
    let (Export::LevelExport(lw), Export::LevelExport(ln)) = (&was.asset_data.exports[lev], &now.asset_data.exports[lev]) else {
        return bad("map-level-lost", String::new());
    };
    let k = lw.actors.len();
    if ln.actors.len() != k + actors.len() || ln.actors[..k] != lw.actors[..] {
        return bad("level-actors", format!("{:?} from {:?} and {} persistent actors", ln.actors, lw.actors, actors.len()));
    }
    // its list of actors follows an empty property list and a zero
    let mut want = bw[lev][..12].to_vec();
    want.extend((ln.actors.len() as i32).to_le_bytes());
    want.extend(ln.actors.iter().flat_map(|a| a.index.to_le_bytes()));
    want.extend(&bw[lev][16 + 4 * k..]);
    if bn[lev] != want {
        return bad("level-changed", String::new());
    }
    let mut used = vec![];
    for (actor, at) in actors.iter().zip(&ln.actors[k..]) {
        let stem = actor.path.rsplit('/').next().unwrap();
        let get = |i: i32| -> Result<&unreal_asset::exports::normal_export::NormalExport<PackageIndex>, Violation> {
            if i <= nw as i32 || i > nn as i32 {
                return Err(Violation::new("actor-index", format!("{name}: {stem} refers to export {i} of {nn}, new ones start at {}", nw + 1)));
            }
            now.asset_data.exports[i as usize - 1].get_normal_export().ok_or_else(|| Violation::new("actor-unparsed", format!("{name}: export {i}")))
        };
        let x = get(at.index)?;
        used.push(at.index);
        let pkg = ("/Script/CoreUObject".to_owned(), "Package".to_owned(), actor.path.clone());
        let class = vec![("/Script/Engine".to_owned(), "BlueprintGeneratedClass".to_owned(), format!("{stem}_C")), pkg.clone()];
        if chain(&now, x.base_export.class_index) != class {
            return bad("actor-class", format!("{:?} instead of {class:?}", chain(&now, x.base_export.class_index)));
        }
        let tmpl = vec![(actor.path.clone(), format!("{stem}_C"), format!("Default__{stem}_C")), pkg];
        if chain(&now, x.base_export.template_index) != tmpl {
            return bad("actor-template", format!("{:?} instead of {tmpl:?}", chain(&now, x.base_export.template_index)));
        }
        if x.base_export.outer_index.index != lev as i32 + 1 || x.base_export.object_name != stem {
            return bad("actor-placed-wrong", format!("{stem} in {} as {}", x.base_export.outer_index.index, x.base_export.object_name.get_owned_content()));
        }
        if old.1.is_some() {
            let d = &x.base_export;
            if !d.serialization_before_create_dependencies.contains(&d.class_index)
                || !d.serialization_before_create_dependencies.contains(&d.template_index)
                || !d.create_before_create_dependencies.contains(&PackageIndex::new(lev as i32 + 1))
                || !ln.get_base_export().create_before_serialization_dependencies.contains(at)
            {
                return bad("actor-dependencies", format!("{stem}: {:?} {:?}", d.serialization_before_create_dependencies, d.create_before_create_dependencies));
            }
        }
        // components
        let list = match find(&x.properties, "BlueprintCreatedComponents").as_slice() {
            [Property::ArrayProperty(l)] => l
                .value
                .iter()
                .map(|v| match v {
                    Property::ObjectProperty(o) => o.value.index,
                    _ => 0,
                })
                .collect::<Vec<_>>(),
            other => return bad("actor-components", format!("{stem}: {} component lists", other.len())),
        };
        if list.len() != actor.nodes.len() {
            return bad("actor-components", format!("{stem}: {} components for {} nodes", list.len(), actor.nodes.len()));
        }
        let mut want_props = vec!["bHidden".to_owned(), "BlueprintCreatedComponents".to_owned()];
        let mut at_of = vec![];
        for n in &actor.nodes {
            let c = object(&x.properties, &n.var)?;
            match c {
                Some(c) if list.contains(&c) && !at_of.contains(&c) => at_of.push(c),
                other => return bad("actor-components", format!("{stem}.{} = {other:?}, components {list:?}", n.var)),
            }
            want_props.push(n.var.clone());
            if n.var == "DefaultSceneRoot" {
                want_props.push("RootComponent".into());
                if object(&x.properties, "RootComponent")? != c {
                    return bad("actor-root", format!("{stem}: root is not {}", n.var));
                }
            }
        }
        let mut have: Vec<String> = x.properties.iter().map(|p| p.get_name().get_owned_content()).collect();
        have.sort();
        want_props.sort();
        if have != want_props {
            return bad("actor-property", format!("{stem}: {have:?} instead of {want_props:?}"));
        }
        for p in &x.properties {
            if p.get_duplication_index() != 0 || matches!(p, Property::BoolProperty(b) if !b.value) {
                return bad("actor-property", format!("{stem}: {p:?}"));
            }
        }
        for (n, at_n) in actor.nodes.iter().zip(&at_of) {
            let c = get(*at_n)?;
            used.push(*at_n);
            let want = vec![
                (n.class.0.clone(), n.class.1.clone(), n.class.3.clone()),
                ("/Script/CoreUObject".to_owned(), "Package".to_owned(), n.class.2.clone()),
            ];
            if chain(&now, c.base_export.class_index) != want {
                return bad("component-class", format!("{stem}.{}: {:?} instead of {want:?}", n.var, chain(&now, c.base_export.class_index)));
            }
            if c.base_export.outer_index != *at || c.base_export.object_name != n.var.as_str() {
                return bad("component-placed-wrong", format!("{stem}.{} in {} as {}", n.var, c.base_export.outer_index.index, c.base_export.object_name.get_owned_content()));
            }
            let mut have: Vec<String> = c.properties.iter().map(|p| p.get_name().get_owned_content()).collect();
            have.sort();
            let mut want = vec!["CreationMethod", "bNetAddressable"];
            if n.parent.is_some() {
                want.insert(0, "AttachParent");
            }
            if have != want || c.extras != [0; 4] || x.extras != [0; 4] {
                return bad("component-property", format!("{stem}.{}: {have:?} {:?}", n.var, c.extras));
            }
            for p in &c.properties {
                let ok = p.get_duplication_index() == 0
                    && match p {
                        Property::BoolProperty(b) => b.value,
                        Property::EnumProperty(e) => {
                            let text = |n: &Option<unreal_asset::types::FName>| n.as_ref().map(|n| n.get_owned_content()).unwrap_or_default();
                            text(&e.enum_type) == "EComponentCreationMethod" && text(&e.value) == "EComponentCreationMethod::SimpleConstructionScript"
                        }
                        Property::ObjectProperty(_) => true,
                        _ => false,
                    };
                if !ok {
                    return bad("component-property", format!("{stem}.{}: {p:?}", n.var));
                }
            }
            let gen = (0..now.imports.len()).any(|i| {
                let ch = chain(&now, PackageIndex::new(-(i as i32) - 1));
                ch[0].1 == n.class.3 && ch[0].2 == format!("{}_GEN_VARIABLE", n.var) && ch[1..] == class[..]
            });
            if !gen {
                return bad("component-archetype", format!("{stem}.{} has no import of its archetype", n.var));
            }
            let want = n.parent.map(|p| at_of[p]);
            if object(&c.properties, "AttachParent")? != want {
                return bad("component-parent", format!("{stem}.{}: {:?} instead of {want:?}", n.var, object(&c.properties, "AttachParent")?));
            }
        }
    }
    used.sort();
    if used != (nw as i32 + 1..=nn as i32).collect::<Vec<_>>() {
        return bad("map-exports", format!("{nn} exports, but {used:?} belong to the new actors"));
    }
    Ok(())
}

fn add(files: &mut Vec<(String, Vec<u8>)>, name: &str, d: &(Vec<u8>, Option<Vec<u8>>)) {
    files.push((name.to_owned(), d.0.clone()));
    if let Some(e) = &d.1 {
        files.push((format!("{}.uexp", name.rsplit_once('.').unwrap().0), e.clone()));
    }
}

pub fn persistent_actors(ctx: &mut Ctx) -> Outcome {
    let scratch = Scratch::new();
    let root = scratch.0.clone();
    let paks = root.join("paks");
    let game = root.join("game");
    std::fs::create_dir_all(&paks).unwrap();
    std::fs::create_dir_all(&game).unwrap();
    let mut must_fail: Option<&'static str> = None;
    let mut undecided = false;
    let nm = ctx.range(1, 3) as usize;
    let mut specs: Vec<Spec> = (0..nm).map(|k| Spec::new(["Alpha", "Beta.auth", "Gamma9"][k], "1.0.0")).collect();
    let mut game_files = vec![("SimGame/Content/Base.txt".to_owned(), b"base".to_vec())];
    // maps: in the game, some also (with other content) in a mod
    let mut maps: Vec<(String, (Vec<u8>, Option<Vec<u8>>))> = vec![];
    for k in 0..ctx.range(1, 3) {
        let name = format!("SimGame/Content/Maps/Map{k}.umap");
        let level = !ctx.chance(1, 60);
        let mut d = gen_map(ctx, level);
        let place = ctx.draw(8);
        if place != 7 {
            add(&mut game_files, &name, &d);
        }
        if place >= 6 {
            d = gen_map(ctx, level);
            add(&mut specs[ctx.draw(nm as u64) as usize].files, &name, &d);
        }
        maps.push((name, d));
        if !level {
            must_fail = Some("map without a level");
        }
    }
    // actors, each of one mod
    let mut actors: Vec<Vec<Actor>> = vec![vec![]; nm];
    for k in 0..ctx.draw(4) {
        let owner = ctx.draw(nm as u64) as usize;
        let path = format!("/Game/Mods/{}/{}{k}", ["Alpha", "Deep/Er", "Ünder"][ctx.draw(3) as usize], ctx.pick(&["Actor", "Clock", "BP_Thing"]));
        let mut broken = ctx.chance(1, 30);
        let (a, mut d) = gen_actor(ctx, &path, &mut broken);
        if broken {
            must_fail = Some("invalid node index");
        }
        if ctx.chance(1, 40) {
            // damage
            let b = if ctx.chance(1, 2) { d.1.as_mut().unwrap_or(&mut d.0) } else { &mut d.0 };
            for _ in 0..ctx.range(1, 4) {
                let at = ctx.draw(b.len() as u64) as usize;
                b[at] = ctx.draw(256) as u8;
            }
            undecided = true;
        }
        let entry = format!("SimGame/Content/{}.uasset", &path[6..]);
        let place = ctx.draw(20);
        match place {
            0 => must_fail = Some("actor missing"),
            1..=3 => add(&mut game_files, &entry, &d),
            _ => add(&mut specs[ctx.draw(nm as u64) as usize].files, &entry, &d),
        }
        actors[owner].push(a);
    }
    if ctx.chance(1, 60) {
        maps.push(("SimGame/Content/Maps/Nowhere.umap".into(), (vec![], None)));
        must_fail = Some("map missing");
    }
    // who names which maps (each at least once)
    let mut named: Vec<Vec<usize>> = vec![vec![]; nm];
    for m in 0..maps.len() {
        named[ctx.draw(nm as u64) as usize].push(m);
    }
    for v in named.iter_mut() {
        if ctx.chance(1, 4) {
            v.push(ctx.draw(maps.len() as u64) as usize);
        }
    }
    let mut invalid = false;
    for k in 0..nm {
        if !actors[k].is_empty() || ctx.chance(1, 4) {
            let mut l: Vec<Value> = actors[k].iter().map(|a| json!(a.path)).collect();
            let mut v = json!(l);
            if ctx.chance(1, 40) {
                let x = match ctx.draw(3) {
                    0 => ctx.pick(&[json!(5), json!(null), json!(["/Game/X"])]).clone(),
                    1 => json!(*ctx.pick(&["", "/", "..", "x.y.z", "a..b", "/Game/A.B.C", "/Game/ä.é.c", "nothing", "/Game/.."])),
                    _ => {
                        v = json!({"a": 1});
                        Value::Null
                    }
                };
                if v.is_array() {
                    l.push(x);
                    v = json!(l);
                }
                invalid = true;
            }
            specs[k].integrator.push(("persistent_actors".into(), v));
        }
        if named[k].is_empty() {
            specs[k].v1 = ctx.chance(1, 3);
        } else {
            specs[k].integrator.push(("persistent_actor_maps".into(), json!(named[k].iter().map(|m| maps[*m].0.clone()).collect::<Vec<_>>())));
        }
    }
    if invalid {
        must_fail = must_fail.or(Some("invalid list of actors"));
    }
    // actors which are broken only matter if there is a map
    let mut list = vec![];
    for s in &specs {
        put(&paks.join(s.file_name()), &s.pak());
        list.push((s.file_name(), s.clone()));
        ctx.event(format!("mod {} {:?} files {:?}", s.id, s.integrator, s.files.iter().map(|(n, d)| (n, d.len())).collect::<Vec<_>>()));
    }
    put(&game.join("SimGame-WindowsNoEditor.pak"), &pak(8, &game_files));
    let faults = ctx.chance(1, 3);
    let den = if faults { *ctx.pick(&[20u64, 80, 300]) } else { 0 };
    let conf = Conf { baked: vec![], handler: HandlerKind::None };
    let (p2, g2, l2) = (paks.clone(), game.clone(), list.clone());
    let (out, inner) = rt::run(
        ctx,
        rt::Config { root: root.clone(), max_steps: 400_000, crash_in: None },
        |i| {
            i.fs_fault_den = den;
            i.fs_faults_left = 2;
        },
        move || {
            let mods: Vec<IntegratorMod<HErr>> = l2.iter().map(|(f, s)| FileMod { path: p2.join(f), mod_id: s.id.clone(), priority: s.priority }.into()).collect();
            integrate_mods(&conf, &mods, &p2, &g2, false).map_err(|e| e.to_string())
        },
    );
    crate::end_checks(&inner, "integrate_mods")?;
    let out = out.expect("result");
    ctx.event(format!("-> {out:?}"));
    ctx.checks += 1;
    let clean = inner.fired == 0;
    match out {
        Err(e) => {
            ctx.probe("failed");
            if clean && must_fail.is_none() && !undecided {
                return Err(Violation::new("fails-without-cause", e));
            }
            if paks.join("900-ModIntegrator_P.pak").exists() && clean {
                return Err(Violation::new("failed-but-written", e));
            }
            Ok(())
        }
        Ok(()) => {
            if let Some(m) = must_fail {
                if undecided {
                    return Ok(());
                }
                return Err(Violation::new(format!("success-despite:{m}"), format!("integrate_mods = Ok although: {m}")));
            }
            let file = std::fs::read(paks.join("900-ModIntegrator_P.pak")).unwrap_or_default();
            let p = refpak::parse(&file).map_err(|e| Violation::new("integrator-pak-invalid", e))?;
            if undecided {
                return Ok(());
            }
            let all: Vec<Actor> = actors.iter().flatten().cloned().collect();
            for (n, d) in &maps {
                judge(n, d, &p.entries, &all)?;
                ctx.checks += 1;
            }
            ctx.probe(if all.iter().any(|a| !a.nodes.is_empty()) { "actors with components" } else { "placed" });
            Ok(())
        }
    }
}
