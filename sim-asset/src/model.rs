//! Reference model of a .uasset (+.uexp) file and an encoder written from the file
//! format alone.  Nothing in here calls into unreal_asset.
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Nm(pub i32, pub i32);

/// Versions a file is written with.
#[derive(Clone, Debug)]
pub struct Ver {
    pub label: &'static str,
    pub obj: i32,
    pub ue5: i32,
    pub release: i32,
    pub framework: i32,
    pub fortnite: i32,
    pub editor: i32,
    pub sequencer: i32,
    pub core: i32,
    pub animphys: i32,
    /// index into gen::ENGINES; bytecode is parsed for engines >= 4.16
    pub minor: i32,
    /// the file itself lists the versions
    pub versioned: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum F {
    U8(u8),
    I8(i8),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    F32(u32),
    /// f64 since LARGE_WORLD_COORDINATES, f32 before (and then a value which is exact in f32)
    Lw(u64),
    Nm(Nm),
    S(Option<String>),
    G([u8; 16]),
    B(Vec<u8>),
    Props(Vec<Prop>),
    /// nothing on disk: here the bytecode of a struct begins or ends
    Mark,
    /// nothing on disk: a statement of the bytecode begins
    Stmt,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Cust {
    pub ty: String,
    pub f: Vec<F>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum SBody {
    /// a property list terminated by None
    Props(Vec<Prop>),
    /// a struct with its own binary layout
    Cust(Cust),
}

#[derive(Clone, PartialEq, Debug)]
pub enum TextKind {
    /// history -1; Some(s) when a culture invariant string follows (FEditor >= 32)
    None(Option<String>),
    Base(Option<String>, Option<String>, Option<String>),
    Table(Nm, Option<String>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    Name(Nm),
    Str(Option<String>),
    Text(u32, TextKind),
    Object(i32),
    AssetObject(Option<String>),
    Soft(Option<Nm>, Nm, Option<String>),
    Enum(Option<Nm>, Nm),
    ByteU(Option<Nm>, u8),
    ByteN(Option<Nm>, Nm),
    Array { inner: String, items: Vec<Val> },
    StructArray { name: Nm, sty: Nm, guid: [u8; 16], items: Vec<SBody> },
    /// headerless struct value inside a container
    SVal(SBody),
    Struct { sty: Nm, guid: [u8; 16], body: SBody },
    Map { kt: String, vt: String, removed: Vec<Val>, items: Vec<(Val, Val)> },
    Set { inner: String, removed: Vec<Val>, items: Vec<Val> },
    Delegate(i32, Nm),
    Multi(&'static str, Vec<(i32, Nm)>),
    Unknown(String, Vec<u8>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Prop {
    pub name: Nm,
    pub dup: i32,
    pub guid: Option<[u8; 16]>,
    pub v: Val,
}

pub fn type_name(v: &Val) -> String {
    match v {
        Val::Bool(_) => "BoolProperty",
        Val::I8(_) => "Int8Property",
        Val::I16(_) => "Int16Property",
        Val::I32(_) => "IntProperty",
        Val::I64(_) => "Int64Property",
        Val::U16(_) => "UInt16Property",
        Val::U32(_) => "UInt32Property",
        Val::U64(_) => "UInt64Property",
        Val::F32(_) => "FloatProperty",
        Val::F64(_) => "DoubleProperty",
        Val::Name(_) => "NameProperty",
        Val::Str(_) => "StrProperty",
        Val::Text(..) => "TextProperty",
        Val::Object(_) => "ObjectProperty",
        Val::AssetObject(_) => "AssetObjectProperty",
        Val::Soft(..) => "SoftObjectProperty",
        Val::Enum(..) => "EnumProperty",
        Val::ByteU(..) | Val::ByteN(..) => "ByteProperty",
        Val::Array { .. } | Val::StructArray { .. } => "ArrayProperty",
        Val::SVal(_) | Val::Struct { .. } => "StructProperty",
        Val::Map { .. } => "MapProperty",
        Val::Set { .. } => "SetProperty",
        Val::Delegate(..) => "DelegateProperty",
        Val::Multi(k, _) => k,
        Val::Unknown(t, _) => return t.clone(),
    }
    .to_owned()
}

#[derive(Clone, Debug)]
pub struct Imp {
    pub class_package: Nm,
    pub class_name: Nm,
    pub outer: i32,
    pub name: Nm,
    pub optional: bool,
}

#[derive(Clone, Debug)]
pub enum Body {
    Normal { props: Vec<Prop>, extras: Vec<u8> },
    DataTable { props: Vec<Prop>, row: String, rows: Vec<(Nm, SBody)>, extras: Vec<u8> },
    StringTable { props: Vec<Prop>, ns: Option<String>, rows: Vec<(Option<String>, Option<String>)>, extras: Vec<u8> },
    Enum { props: Vec<Prop>, rows: Vec<(Nm, i64)>, form: u8, extras: Vec<u8> },
    /// any other export with a fixed binary tail after its properties
    Tail { props: Vec<Prop>, tail: Vec<F>, extras: Vec<u8> },
    Level { props: Vec<Prop>, actors: Vec<i32>, url: [Option<String>; 4], options: Vec<Option<String>>, port: i32, valid: i32, model: i32, comps: Vec<i32>, idx: [i32; 3], extras: Vec<u8> },
    World { props: Vec<Prop>, idx: i32, a: Vec<i32>, b: Vec<i32>, extras: Vec<u8> },
    Raw(Vec<u8>),
}

impl Body {
    pub fn props(&self) -> Option<&Vec<Prop>> {
        match self {
            Body::Normal { props, .. } | Body::DataTable { props, .. } | Body::StringTable { props, .. } | Body::Enum { props, .. } | Body::Tail { props, .. } | Body::Level { props, .. } | Body::World { props, .. } => Some(props),
            Body::Raw(_) => None,
        }
    }
    pub fn props_mut(&mut self) -> Option<&mut Vec<Prop>> {
        match self {
            Body::Normal { props, .. } | Body::DataTable { props, .. } | Body::StringTable { props, .. } | Body::Enum { props, .. } | Body::Tail { props, .. } | Body::Level { props, .. } | Body::World { props, .. } => Some(props),
            Body::Raw(_) => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub class: i32,
    pub sup: i32,
    pub template: i32,
    pub outer: i32,
    pub name: Nm,
    pub flags: u32,
    pub b: [bool; 3],
    pub guid: [u8; 16],
    pub inherited: bool,
    pub package_flags: u32,
    pub not_always: bool,
    pub is_asset: bool,
    pub public_hash: bool,
    pub deps: [Vec<i32>; 4],
    pub body: Body,
}

#[derive(Clone, Debug)]
pub struct EngVer(pub u16, pub u16, pub u16, pub u32, pub Option<String>);

#[derive(Clone, Debug)]
pub struct Model {
    pub ver: Ver,
    pub legacy: i32,
    pub licensee: i32,
    pub customs: Vec<([u8; 16], i32)>,
    pub folder: String,
    pub flags: u32,
    pub names: Vec<String>,
    pub zero_hash: BTreeSet<String>,
    pub soft_paths: (i32, i32),
    pub gatherable: (i32, i32),
    pub imports: Vec<Imp>,
    pub exports: Vec<Exp>,
    pub depends: Option<Vec<Vec<i32>>>,
    pub soft_refs: Option<Vec<Option<String>>>,
    pub searchable: i32,
    pub thumbnail: i32,
    pub guid: [u8; 16],
    pub generations: usize,
    pub recorded: EngVer,
    pub compatible: EngVer,
    pub compression: u32,
    pub source: u32,
    pub registry: bool,
    pub tile: Option<Vec<F>>,
    pub chunks: Vec<i32>,
    pub names_referenced: i32,
    pub payload_toc: i64,
    pub data_resources: i32,
    pub split: bool,
    pub extra_names: Vec<String>,
}

impl Model {
    /// index of a name, added at the end when missing
    pub fn intern(&mut self, s: &str) -> Nm {
        match self.names.iter().position(|n| n == s) {
            Some(i) => Nm(i as i32, 0),
            None => {
                self.names.push(s.to_owned());
                Nm(self.names.len() as i32 - 1, 0)
            }
        }
    }
    pub fn content(&self, n: Nm) -> &str {
        &self.names[n.0 as usize]
    }
}

fn crc_tables() -> ([u32; 256], [u32; 256]) {
    let mut msb = [0u32; 256];
    let mut lsb = [0u32; 256];
    for i in 0..256u32 {
        let mut c = i << 24;
        let mut r = i;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
            r = if r & 1 != 0 { (r >> 1) ^ 0xedb8_8320 } else { r >> 1 };
        }
        msb[i as usize] = c;
        lsb[i as usize] = r;
    }
    (msb, lsb)
}

pub fn name_hash(s: &str) -> u32 {
    thread_local!(static T: ([u32; 256], [u32; 256]) = crc_tables());
    T.with(|(msb, lsb)| {
        let mut h = 0u32;
        let wide = !s.is_ascii();
        for c in s.encode_utf16() {
            let c = if (0x61..0x7b).contains(&c) { c - 0x20 } else { c };
            h = (h >> 8) ^ msb[((h ^ (c as u32 & 0xff)) & 0xff) as usize];
            if wide {
                h = (h >> 8) ^ msb[((h ^ (c as u32 >> 8)) & 0xff) as usize];
            }
        }
        let mut k = !0u32;
        for c in s.encode_utf16() {
            for b in (c as u32).to_le_bytes() {
                k = (k >> 8) ^ lsb[((k ^ b as u32) & 0xff) as usize];
            }
        }
        (h & 0xffff) | (!k & 0xffff) << 16
    })
}

pub struct Enc<'a> {
    pub o: Vec<u8>,
    pub ver: &'a Ver,
    pub names: &'a [String],
    /// type names which the table lacked
    pub missing: BTreeSet<String>,
    /// equal values get equal bytes (zeros without sign, names by content)
    canon: bool,
}

impl<'a> Enc<'a> {
    pub fn new(ver: &'a Ver, names: &'a [String]) -> Self {
        Enc { o: vec![], ver, names, missing: BTreeSet::new(), canon: false }
    }
    fn sub(&self) -> Enc<'a> {
        Enc { canon: self.canon, ..Enc::new(self.ver, self.names) }
    }
    /// bytes which agree for values the engine holds to be equal
    pub fn canonical(ver: &'a Ver, names: &'a [String], v: &Val) -> Vec<u8> {
        let mut e = Enc { canon: true, ..Enc::new(ver, names) };
        e.val(v);
        e.o
    }
    fn f32bits(&mut self, v: u32) {
        self.u32(if self.canon && v == 0x8000_0000 { 0 } else { v })
    }
    fn absorb(&mut self, s: Enc<'a>) {
        self.o.extend_from_slice(&s.o);
        self.missing.extend(s.missing);
    }
    pub fn i32(&mut self, v: i32) {
        self.o.extend_from_slice(&v.to_le_bytes());
    }
    pub fn u32(&mut self, v: u32) {
        self.o.extend_from_slice(&v.to_le_bytes());
    }
    pub fn i64(&mut self, v: i64) {
        self.o.extend_from_slice(&v.to_le_bytes());
    }
    pub fn u8(&mut self, v: u8) {
        self.o.push(v);
    }
    pub fn bytes(&mut self, v: &[u8]) {
        self.o.extend_from_slice(v);
    }
    pub fn nm(&mut self, n: Nm) {
        if n.0 < 0 {
            self.missing.insert(format!("lost name {}", -1 - n.0));
        }
        let mut i = n.0;
        if self.canon && i >= 0 {
            let s = &self.names[i as usize];
            i = self.names.iter().position(|t| t == s).unwrap() as i32;
        }
        self.i32(i);
        self.i32(n.1);
    }
    pub fn ty(&mut self, s: &str) {
        match self.names.iter().position(|n| n == s) {
            Some(i) => self.nm(Nm(i as i32, 0)),
            None => {
                self.missing.insert(s.to_owned());
                self.i32(-1);
                self.i32(0);
            }
        }
    }
    pub fn str(&mut self, s: &Option<String>) {
        match s {
            None => self.i32(0),
            Some(s) if s.is_ascii() => {
                self.i32(s.len() as i32 + 1);
                self.bytes(s.as_bytes());
                self.u8(0);
            }
            Some(s) => {
                let u: Vec<u16> = s.encode_utf16().collect();
                self.i32(-(u.len() as i32 + 1));
                for c in u {
                    self.bytes(&c.to_le_bytes());
                }
                self.bytes(&[0, 0]);
            }
        }
    }
    pub fn fields(&mut self, f: &[F]) {
        for x in f {
            match x {
                F::U8(v) => self.u8(*v),
                F::I8(v) => self.u8(*v as u8),
                F::U16(v) => self.bytes(&v.to_le_bytes()),
                F::I32(v) => self.i32(*v),
                F::U32(v) => self.u32(*v),
                F::I64(v) => self.i64(*v),
                F::F32(v) => self.f32bits(*v),
                F::Lw(v) if self.canon && *v == 1 << 63 => self.i64(0),
                F::Lw(v) if self.canon => self.bytes(&v.to_le_bytes()),
                F::Lw(v) => {
                    if self.ver.ue5 >= 1004 {
                        self.bytes(&v.to_le_bytes())
                    } else {
                        self.u32((f64::from_bits(*v) as f32).to_bits())
                    }
                }
                F::Nm(v) => self.nm(*v),
                F::S(v) => self.str(v),
                F::G(v) => self.bytes(v),
                F::B(v) => self.bytes(v),
                F::Props(p) => self.props(p),
                F::Mark | F::Stmt => {}
            }
        }
    }
    pub fn props(&mut self, ps: &[Prop]) {
        for p in ps {
            self.prop(p);
        }
        self.ty("None");
    }
    pub fn sbody(&mut self, b: &SBody) {
        match b {
            SBody::Props(p) => self.props(p),
            SBody::Cust(c) => self.fields(&c.f),
        }
    }
    /// the value bytes without any tag
    fn val(&mut self, v: &Val) {
        match v {
            Val::Bool(b) => self.u8(*b as u8),
            Val::I8(x) => self.u8(*x as u8),
            Val::I16(x) => self.bytes(&x.to_le_bytes()),
            Val::I32(x) => self.i32(*x),
            Val::I64(x) => self.i64(*x),
            Val::U16(x) => self.bytes(&x.to_le_bytes()),
            Val::U32(x) => self.u32(*x),
            Val::U64(x) => self.bytes(&x.to_le_bytes()),
            Val::F32(x) => self.f32bits(*x),
            Val::F64(x) if self.canon && *x == 1 << 63 => self.bytes(&[0; 8]),
            Val::F64(x) => self.bytes(&x.to_le_bytes()),
            Val::Name(n) => self.nm(*n),
            Val::Str(s) => self.str(s),
            // before FTEXT_HISTORY: source string, namespace, key
            Val::Text(flags, TextKind::Base(a, b, c)) if self.ver.obj < 368 => {
                self.str(c);
                self.str(a);
                self.str(b);
                self.u32(*flags);
            }
            Val::Text(flags, k) => {
                self.u32(*flags);
                match k {
                    TextKind::None(s) => {
                        self.u8(0xff);
                        if self.ver.editor >= 32 {
                            match s {
                                None => self.i32(0),
                                Some(s) => {
                                    self.i32(1);
                                    self.str(&Some(s.clone()));
                                }
                            }
                        }
                    }
                    TextKind::Base(a, b, c) => {
                        self.u8(0);
                        self.str(a);
                        self.str(b);
                        self.str(c);
                    }
                    TextKind::Table(n, s) => {
                        self.u8(11);
                        self.nm(*n);
                        self.str(s);
                    }
                }
            }
            Val::Object(i) => self.i32(*i),
            Val::AssetObject(s) => self.str(s),
            Val::Soft(p, a, s) => {
                if self.ver.ue5 >= 1007 {
                    self.nm(p.unwrap());
                }
                self.nm(*a);
                self.str(s);
            }
            Val::Enum(_, v) => self.nm(*v),
            Val::ByteU(_, v) => self.u8(*v),
            Val::ByteN(_, v) => self.nm(*v),
            Val::Array { items, .. } => {
                self.i32(items.len() as i32);
                for i in items {
                    self.val(i);
                }
            }
            Val::StructArray { name, sty, guid, items } => {
                self.i32(items.len() as i32);
                let mut inner = self.sub();
                for i in items {
                    inner.sbody(i);
                }
                if self.ver.obj >= 500 {
                    self.nm(*name);
                    self.ty("StructProperty");
                    self.i64(inner.o.len() as i64);
                    self.nm(*sty);
                    self.bytes(guid);
                    if self.ver.obj >= 503 {
                        self.u8(0);
                    }
                }
                self.absorb(inner);
            }
            Val::SVal(b) => self.sbody(b),
            Val::Struct { body, .. } => self.sbody(body),
            Val::Map { removed, items, .. } => {
                self.i32(removed.len() as i32);
                for k in removed {
                    self.val(k);
                }
                self.i32(items.len() as i32);
                for (k, v) in items {
                    self.val(k);
                    self.val(v);
                }
            }
            Val::Set { removed, items, .. } => {
                self.i32(removed.len() as i32);
                for k in removed {
                    self.val(k);
                }
                self.i32(items.len() as i32);
                for k in items {
                    self.val(k);
                }
            }
            Val::Delegate(o, n) => {
                self.i32(*o);
                self.nm(*n);
            }
            Val::Multi(_, v) => {
                self.i32(v.len() as i32);
                for (o, n) in v {
                    self.i32(*o);
                    self.nm(*n);
                }
            }
            Val::Unknown(_, b) => self.bytes(b),
        }
    }
    fn prop(&mut self, p: &Prop) {
        self.nm(p.name);
        self.ty(&type_name(&p.v));
        let mut body = self.sub();
        if !matches!(p.v, Val::Bool(_)) {
            body.val(&p.v);
        }
        self.i32(body.o.len() as i32);
        self.i32(p.dup);
        match &p.v {
            Val::Bool(b) => self.u8(*b as u8),
            Val::Enum(t, _) => self.nm(t.unwrap()),
            Val::ByteU(t, _) | Val::ByteN(t, _) => self.nm(t.unwrap()),
            Val::Array { inner, .. } | Val::Set { inner, .. } => self.ty(inner),
            Val::StructArray { .. } => self.ty("StructProperty"),
            Val::Struct { sty, guid, .. } => {
                self.nm(*sty);
                if self.ver.obj >= 441 {
                    self.bytes(guid);
                }
            }
            Val::Map { kt, vt, .. } => {
                self.ty(kt);
                self.ty(vt);
            }
            _ => {}
        }
        if self.ver.obj >= 503 {
            match &p.guid {
                None => self.u8(0),
                Some(g) => {
                    self.u8(1);
                    self.bytes(g);
                }
            }
        }
        self.absorb(body);
    }
    fn body(&mut self, b: &Body) {
        match b {
            Body::Normal { props, extras } => {
                self.props(props);
                self.bytes(extras);
            }
            Body::DataTable { props, rows, extras, .. } => {
                self.props(props);
                self.i32(0);
                self.i32(rows.len() as i32);
                for (n, b) in rows {
                    self.nm(*n);
                    self.sbody(b);
                }
                self.bytes(extras);
            }
            Body::StringTable { props, ns, rows, extras } => {
                self.props(props);
                self.i32(0);
                self.str(ns);
                self.i32(rows.len() as i32);
                for (k, v) in rows {
                    self.str(k);
                    self.str(v);
                }
                self.bytes(extras);
            }
            Body::Enum { props, rows, form, extras } => {
                self.props(props);
                self.i32(0);
                self.i32(rows.len() as i32);
                for (n, v) in rows {
                    self.nm(*n);
                    if self.ver.obj < 463 {
                        // the position is the value
                        continue;
                    }
                    // FCoreObjectVersion::EnumProperties
                    if self.ver.core < 2 {
                        self.u8(*v as u8)
                    } else {
                        self.i64(*v)
                    }
                }
                if self.ver.obj < 390 {
                    self.i32(*form as i32);
                } else {
                    self.u8(*form);
                }
                self.bytes(extras);
            }
            Body::Tail { props, tail, extras } => {
                self.props(props);
                self.fields(tail);
                self.bytes(extras);
            }
            Body::Level { props, actors, url, options, port, valid, model, comps, idx, extras } => {
                self.props(props);
                self.i32(0);
                self.i32(actors.len() as i32);
                for a in actors {
                    self.i32(*a);
                }
                for s in url {
                    self.str(s);
                }
                self.i32(options.len() as i32);
                for s in options {
                    self.str(s);
                }
                self.i32(*port);
                self.i32(*valid);
                self.i32(*model);
                self.i32(comps.len() as i32);
                for a in comps {
                    self.i32(*a);
                }
                for a in idx {
                    self.i32(*a);
                }
                self.bytes(extras);
            }
            Body::World { props, idx, a, b, extras } => {
                self.props(props);
                self.i32(0);
                self.i32(*idx);
                for l in [a, b] {
                    self.i32(l.len() as i32);
                    for x in l {
                        self.i32(*x);
                    }
                }
                self.bytes(extras);
            }
            Body::Raw(b) => self.bytes(b),
        }
    }
    fn engver(&mut self, e: &EngVer) {
        self.bytes(&e.0.to_le_bytes());
        self.bytes(&e.1.to_le_bytes());
        self.bytes(&e.2.to_le_bytes());
        self.u32(e.3);
        self.str(&e.4);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Files {
    pub uasset: Vec<u8>,
    pub uexp: Option<Vec<u8>>,
    /// offset in the uasset+uexp stream at which each export starts
    pub starts: Vec<usize>,
    pub missing: BTreeSet<String>,
    /// where the header holds the number of names, followed by their offset
    pub name_count_at: usize,
}

#[derive(Default, Clone)]
struct Offs {
    name: i32,
    import: i32,
    export: i32,
    depends: i32,
    soft: i32,
    registry: i32,
    tile: i32,
    preload: i32,
    preload_count: i32,
    header: i32,
    bulk: i64,
}

fn header(m: &Model, names: &[String], o: &Offs) -> (Vec<u8>, usize) {
    let v = &m.ver;
    let mut e = Enc::new(v, names);
    e.bytes(&[0xc1, 0x83, 0x2a, 0x9e]);
    e.i32(m.legacy);
    if m.legacy != -4 {
        e.i32(if v.versioned { 864 } else { 0 });
    }
    e.i32(if v.versioned { v.obj } else { 0 });
    if m.legacy <= -8 {
        e.i32(if v.versioned { v.ue5 } else { 0 });
    }
    e.i32(m.licensee);
    if m.legacy <= -2 {
        e.i32(m.customs.len() as i32);
        for (g, x) in &m.customs {
            e.bytes(g);
            e.i32(*x);
        }
    }
    e.i32(o.header);
    e.str(&Some(m.folder.clone()));
    e.u32(m.flags);
    let count_at = e.o.len();
    e.i32(names.len() as i32);
    e.i32(o.name);
    if v.ue5 >= 1008 {
        e.i32(m.soft_paths.0);
        e.i32(m.soft_paths.1);
    }
    if v.obj >= 459 {
        e.i32(m.gatherable.0);
        e.i32(m.gatherable.1);
    }
    e.i32(m.exports.len() as i32);
    e.i32(o.export);
    e.i32(m.imports.len() as i32);
    e.i32(o.import);
    e.i32(o.depends);
    if v.obj >= 384 {
        e.i32(m.soft_refs.as_ref().map_or(0, |r| r.len() as i32));
        e.i32(o.soft);
    }
    if v.obj >= 510 {
        e.i32(m.searchable);
    }
    e.i32(m.thumbnail);
    e.bytes(&m.guid);
    e.i32(m.generations as i32);
    for _ in 0..m.generations {
        e.i32(m.exports.len() as i32);
        e.i32(names.len() as i32);
    }
    e.engver(&m.recorded);
    if v.obj >= 444 {
        e.engver(&m.compatible);
    }
    e.u32(m.compression);
    e.i32(0);
    e.u32(m.source);
    e.i32(0);
    if m.legacy > -7 {
        e.i32(0);
    }
    e.i32(o.registry);
    e.i64(o.bulk);
    e.i32(o.tile);
    e.i32(m.chunks.len() as i32);
    for c in &m.chunks {
        e.i32(*c);
    }
    if v.obj >= 507 {
        e.i32(o.preload_count);
        e.i32(o.preload);
    }
    if v.ue5 >= 1001 {
        e.i32(m.names_referenced);
    }
    if v.ue5 >= 1002 {
        e.i64(m.payload_toc);
    }
    if v.ue5 >= 1009 {
        e.i32(m.data_resources);
    }
    (e.o, count_at)
}

/// The file the model stands for, with this name table.
pub fn encode(m: &Model, names: &[String]) -> Files {
    let v = &m.ver;
    let mut o = Offs::default();
    let mut e = Enc::new(v, names);
    e.o = header(m, names, &o).0;
    o.name = if names.is_empty() { 0 } else { e.o.len() as i32 };
    for n in names {
        e.str(&Some(n.clone()));
        if v.obj >= 504 {
            e.u32(if m.zero_hash.contains(n) { 0 } else { name_hash(n) });
        }
    }
    o.import = if m.imports.is_empty() { 0 } else { e.o.len() as i32 };
    for i in &m.imports {
        e.nm(i.class_package);
        e.nm(i.class_name);
        e.i32(i.outer);
        e.nm(i.name);
        if v.ue5 >= 1003 {
            e.i32(i.optional as i32);
        }
    }
    let export_at = e.o.len();
    o.export = if m.exports.is_empty() { 0 } else { export_at as i32 };
    let map = |starts: &[usize], end: usize| -> Vec<u8> {
        let mut e = Enc::new(v, names);
        let mut first = 0i32;
        for (k, x) in m.exports.iter().enumerate() {
            let start = starts[k];
            let next = starts.get(k + 1).copied().unwrap_or(end);
            e.i32(x.class);
            e.i32(x.sup);
            if v.obj >= 508 {
                e.i32(x.template);
            }
            e.i32(x.outer);
            e.nm(x.name);
            e.u32(x.flags);
            if v.obj < 511 {
                e.i32((next - start) as i32);
                e.i32(start as i32);
            } else {
                e.i64((next - start) as i64);
                e.i64(start as i64);
            }
            for b in x.b {
                e.i32(b as i32);
            }
            if v.ue5 < 1005 {
                e.bytes(&x.guid);
            }
            if v.ue5 >= 1006 {
                e.i32(x.inherited as i32);
            }
            e.u32(x.package_flags);
            if v.obj >= 365 {
                e.i32(x.not_always as i32);
            }
            if v.obj >= 485 {
                e.i32(x.is_asset as i32);
            }
            if v.ue5 >= 1003 {
                e.i32(x.public_hash as i32);
            }
            if v.obj >= 507 {
                let n: usize = x.deps.iter().map(|d| d.len()).sum();
                e.i32(if m.split { first } else { -1 });
                first += n as i32;
                for d in &x.deps {
                    e.i32(d.len() as i32);
                }
            }
        }
        e.o
    };
    let zeros = vec![0usize; m.exports.len()];
    let em = map(&zeros, 0);
    e.bytes(&em);
    if let Some(d) = &m.depends {
        o.depends = e.o.len() as i32;
        for k in 0..m.exports.len() {
            let l = d.get(k).cloned().unwrap_or_default();
            e.i32(l.len() as i32);
            for x in l {
                e.i32(x);
            }
        }
    }
    if let Some(r) = &m.soft_refs {
        o.soft = e.o.len() as i32;
        for s in r {
            e.str(s);
        }
    }
    if m.registry {
        o.registry = e.o.len() as i32;
        e.i32(0);
    }
    if let Some(t) = &m.tile {
        o.tile = e.o.len() as i32;
        e.fields(t);
    }
    o.preload = e.o.len() as i32;
    o.preload_count = -1;
    if m.split {
        o.preload_count = 0;
        for x in &m.exports {
            for d in &x.deps {
                for i in d {
                    e.i32(*i);
                    o.preload_count += 1;
                }
            }
        }
    }
    o.header = if m.exports.is_empty() { 0 } else { e.o.len() as i32 };
    let base = e.o.len();
    let mut starts = vec![];
    let mut b = Enc::new(v, names);
    for x in &m.exports {
        starts.push(base + b.o.len());
        b.body(&x.body);
    }
    let end = base + b.o.len();
    b.bytes(&[0xc1, 0x83, 0x2a, 0x9e]);
    o.bulk = end as i64;
    let em2 = map(&starts, end);
    e.o[export_at..export_at + em2.len()].copy_from_slice(&em2);
    let (h, name_count_at) = header(m, names, &o);
    e.o[..h.len()].copy_from_slice(&h);
    let mut missing = std::mem::take(&mut e.missing);
    missing.extend(b.missing);
    if m.split {
        Files { uasset: e.o, uexp: Some(b.o), starts, missing, name_count_at }
    } else {
        e.o.extend_from_slice(&b.o);
        Files { uasset: e.o, uexp: None, starts, missing, name_count_at }
    }
}
