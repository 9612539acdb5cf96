//! Replaces the original build script, which cooks the integrator's assets with
//! the engine: the same files are made from the reference model.
#[allow(dead_code)]
#[path = "../../../sim-asset/src/model.rs"]
mod model;
use model::*;
use std::path::PathBuf;

fn ver() -> Ver {
    Ver { label: "4.23", obj: 517, ue5: 0, release: 23, framework: 35, fortnite: 27, editor: 34, sequencer: 11, core: 3, animphys: 0, minor: 23, versioned: false }
}

fn empty() -> Model {
    Model {
        ver: ver(),
        legacy: -7,
        licensee: 0,
        customs: vec![],
        folder: "None".into(),
        flags: 0,
        names: vec![],
        zero_hash: Default::default(),
        soft_paths: (0, 0),
        gatherable: (0, 0),
        imports: vec![],
        exports: vec![],
        depends: Some(vec![]),
        soft_refs: None,
        searchable: 0,
        thumbnail: 0,
        guid: [0; 16],
        generations: 1,
        recorded: EngVer(4, 0, 0, 0, None),
        compatible: EngVer(4, 0, 0, 0, None),
        compression: 0,
        source: 0,
        registry: false,
        tile: None,
        chunks: vec![],
        names_referenced: 0,
        payload_toc: 0,
        data_resources: 0,
        split: true,
        extra_names: vec![],
    }
}

fn imp(m: &mut Model, pkg: &str, class: &str, name: &str) -> i32 {
    let i = Imp { class_package: m.intern(pkg), class_name: m.intern(class), outer: 0, name: m.intern(name), optional: false };
    m.imports.push(i);
    -(m.imports.len() as i32)
}

fn exp(m: &mut Model, class: i32, name: &str, body: Body) {
    let name = m.intern(name);
    m.exports.push(Exp {
        class,
        sup: 0,
        template: 0,
        outer: 0,
        name,
        flags: 0,
        b: [false; 3],
        guid: [0; 16],
        inherited: false,
        package_flags: 0,
        not_always: false,
        is_asset: false,
        public_hash: false,
        deps: [vec![], vec![], vec![], vec![]],
        body,
    });
}

fn types(m: &mut Model) {
    for t in ["None", "StrProperty", "ByteProperty", "BoolProperty", "StructProperty", "ObjectProperty", "IntProperty"] {
        m.intern(t);
    }
}

fn p(m: &mut Model, n: &str, v: Val) -> Prop {
    Prop { name: m.intern(n), dup: 0, guid: None, v }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=../../../sim-asset/src/model.rs");
    let out = PathBuf::from(std::env::var_os("OUT_DIR").unwrap()).join("ModIntegrator/Saved/Cooked/WindowsNoEditor/ModIntegrator/Content/Integrator");
    std::fs::create_dir_all(&out).unwrap();
    let put = |n: &str, m: &Model| {
        let f = encode(m, &m.names);
        assert!(f.missing.is_empty(), "{:?}", f.missing);
        std::fs::write(out.join(format!("{n}.uasset")), f.uasset).unwrap();
        std::fs::write(out.join(format!("{n}.uexp")), f.uexp.unwrap()).unwrap();
    };

    let mut m = empty();
    types(&mut m);
    let dt = imp(&mut m, "/Script/Engine", "Class", "DataTable");
    let row_struct = imp(&mut m, "/Script/CoreUObject", "ScriptStruct", "Mod");
    let sync = m.intern("SyncMode");
    let sync0 = m.intern("SyncMode::NewEnumerator0");
    let cols = vec![
        p(&mut m, "Name_2_ABC", Val::Str(Some("x".into()))),
        p(&mut m, "Author_4_ABC", Val::Str(Some("x".into()))),
        p(&mut m, "Description_6_ABC", Val::Str(Some("x".into()))),
        p(&mut m, "Version_8_ABC", Val::Str(Some("x".into()))),
        p(&mut m, "AstroBuild_10_ABC", Val::Str(Some("x".into()))),
        p(&mut m, "Sync_12_ABC", Val::ByteN(Some(sync), sync0)),
        p(&mut m, "Homepage_14_ABC", Val::Str(Some("x".into()))),
        p(&mut m, "IsOptional_16_ABC", Val::Bool(true)),
    ];
    let props = vec![p(&mut m, "RowStruct", Val::Object(row_struct))];
    let sample = m.intern("SampleMod");
    exp(&mut m, dt, "ListOfMods", Body::DataTable { props, row: "Mod".into(), rows: vec![(sample, SBody::Props(cols))], extras: vec![] });
    put("ListOfMods", &m);

    let mut m = empty();
    types(&mut m);
    let cl = imp(&mut m, "/Script/CoreUObject", "Class", "Object");
    for n in ["IntegratorStatics_BP", "Function_A", "Function_B"] {
        let pr = vec![p(&mut m, "Sample", Val::I32(3))];
        exp(&mut m, cl, n, Body::Normal { props: pr, extras: vec![0; 4] });
    }
    let pr = vec![p(&mut m, "IntegratorVersion", Val::Str(Some("none".into())))];
    exp(&mut m, cl, "Default__IntegratorStatics_BP_C", Body::Normal { props: pr, extras: vec![0; 4] });
    put("IntegratorStatics_BP", &m);

    for n in ["Mod", "ModIntegrator", "ModIntegratorComponent", "ModMismatchWidget", "SyncMode"] {
        std::fs::write(out.join(format!("{n}.uasset")), format!("{n} cooked header")).unwrap();
        std::fs::write(out.join(format!("{n}.uexp")), format!("{n} cooked exports {}", "data ".repeat(40))).unwrap();
    }
}
