//! Seeded generator of asset models.
use crate::model::*;
use simcore::Ctx;
use unreal_asset::engine_version::EngineVersion;

pub struct Eng(pub EngineVersion, pub &'static str, pub i32, pub i32, pub [i32; 6], pub i32);
use EngineVersion::*;
/// engine, label, object version, ue5 version, (release, framework, fortnite, editor, sequencer, core), minor
pub const ENGINES: &[Eng] = &[
    Eng(VER_UE4_25, "4.25", 518, 0, [30, 37, 31, 38, 12, 4], 25),
    Eng(VER_UE4_0, "4.0", 342, 0, [0, 0, 0, 0, 0, 0], 0),
    Eng(VER_UE4_2, "4.2", 363, 0, [0, 0, 0, 0, 0, 0], 2),
    Eng(VER_UE4_3, "4.3", 382, 0, [0, 0, 0, 0, 0, 0], 3),
    Eng(VER_UE4_4, "4.4", 385, 0, [0, 0, 0, 0, 0, 0], 4),
    Eng(VER_UE4_7, "4.7", 434, 0, [0, 0, 0, 0, 0, 0], 7),
    Eng(VER_UE4_8, "4.8", 451, 0, [0, 0, 0, 0, 0, 0], 8),
    Eng(VER_UE4_10, "4.10", 482, 0, [0, 0, 0, 0, 0, 0], 10),
    Eng(VER_UE4_11, "4.11", 498, 0, [1, 0, 0, 0, 0, 0], 11),
    Eng(VER_UE4_12, "4.12", 504, 0, [1, 6, 0, 2, 0, 1], 12),
    Eng(VER_UE4_13, "4.13", 505, 0, [3, 12, 0, 6, 0, 1], 13),
    Eng(VER_UE4_14, "4.14", 508, 0, [4, 17, 0, 9, 1, 1], 14),
    Eng(VER_UE4_15, "4.15", 510, 0, [7, 22, 0, 14, 3, 2], 15),
    Eng(VER_UE4_16, "4.16", 513, 0, [9, 23, 0, 17, 4, 2], 16),
    Eng(VER_UE4_17, "4.17", 513, 0, [10, 28, 0, 20, 4, 2], 17),
    Eng(VER_UE4_18, "4.18", 514, 0, [10, 30, 0, 20, 4, 2], 18),
    Eng(VER_UE4_19, "4.19", 516, 0, [13, 33, 0, 23, 6, 2], 19),
    Eng(VER_UE4_20, "4.20", 516, 0, [17, 34, 12, 24, 9, 2], 20),
    Eng(VER_UE4_21, "4.21", 517, 0, [20, 34, 17, 26, 9, 2], 21),
    Eng(VER_UE4_22, "4.22", 517, 0, [20, 35, 25, 30, 11, 3], 22),
    Eng(VER_UE4_23, "4.23", 517, 0, [23, 35, 27, 34, 11, 3], 23),
    Eng(VER_UE4_24, "4.24", 518, 0, [28, 36, 31, 37, 11, 3], 24),
    Eng(VER_UE4_26, "4.26", 519, 0, [38, 37, 43, 40, 12, 4], 26),
    Eng(VER_UE4_27, "4.27", 522, 0, [43, 37, 47, 40, 13, 4], 27),
    Eng(VER_UE5_0, "5.0", 522, 1004, [43, 37, 47, 40, 13, 4], 28),
    Eng(VER_UE5_1, "5.1", 522, 1008, [43, 37, 47, 40, 13, 4], 29),
    Eng(VER_UE5_2, "5.2", 522, 1010, [43, 37, 47, 40, 13, 4], 30),
];

/// On-disk bytes of the custom version guids.
const fn g(a: u32, b: u32, c: u32, d: u32) -> [u8; 16] {
    let a = a.to_le_bytes();
    let b = b.to_le_bytes();
    let c = c.to_le_bytes();
    let d = d.to_le_bytes();
    [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3], c[0], c[1], c[2], c[3], d[0], d[1], d[2], d[3]]
}
const G_RELEASE: [u8; 16] = g(0x9C54D522, 0xA8264FBE, 0x94210746, 0x61B482D0);
const G_FRAMEWORK: [u8; 16] = g(0xCFFC743F, 0x43B04480, 0x939114DF, 0x171D2073);
const G_FORTNITE: [u8; 16] = g(0x601D1886, 0xAC644F84, 0xAA16D3DE, 0x0DEAC7D6);
const G_EDITOR: [u8; 16] = g(0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41);
const G_SEQUENCER: [u8; 16] = g(0x7B5AE74C, 0xD2704C10, 0xA9585798, 0x0B212A5A);
const G_CORE: [u8; 16] = g(0x375EC13C, 0x06E448FB, 0xB50084F0, 0x262A717E);
const G_ANIM: [u8; 16] = g(0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA);

pub struct G<'c> {
    pub c: &'c mut Ctx,
    pub m: Model,
    pub eng: EngineVersion,
    /// names which may be used for anything (indices into m.names)
    pool: Vec<i32>,
    budget: u32,
    opaque_ok: bool,
    /// FloatRange may come as a plain struct
    tagged_range: bool,
    /// one count of this file is beyond one or two bytes (and nothing after it is logged by itself)
    pub wide: bool,
    /// how seldom
    pub rare: u64,
    /// imports which name structs with their own layout
    structs: Vec<(i32, &'static str)>,
    /// names of maps whose struct keys and values are typed by a class of this file
    typed_maps: Vec<(String, Option<&'static str>, Option<&'static str>)>,
}

pub const WORDS: &[&str] = &["Alpha", "beta", "GAMMA", "Delta_2", "x", "Some Long Name With Spaces", "Ünïcode", "日本語名", "/Game/Path/Asset", "A_B-C.D", "名🙂x", "Root_C", "0", "Default__Thing", "ALPHA", "alpha", " lead", "trail ", "new\nline", "Delta_2_3", "x_0", "_", "e\u{301}", "é", "\u{feff}bom", "None_1", "a\\b", "quote\"s", "nul\0in", "end\0"];

impl<'c> G<'c> {
    pub fn any_u32(&mut self) -> u32 {
        match self.c.draw(6) {
            0 => 0,
            1 => 1,
            2 => self.c.draw(256) as u32,
            3 => u32::MAX,
            4 => 0x8000_0000,
            _ => self.c.draw(1 << 32) as u32,
        }
    }
    fn any_i32(&mut self) -> i32 {
        self.any_u32() as i32
    }
    pub fn any_i64(&mut self) -> i64 {
        ((self.any_u32() as u64) << 32 | self.any_u32() as u64) as i64
    }
    fn f64bits(&mut self) -> u64 {
        match self.c.draw(5) {
            0 => 0,
            1 => 1.1f64.to_bits(),
            2 => (-0.0f64).to_bits(),
            3 => f64::INFINITY.to_bits(),
            _ => {
                let b = self.c.draw(1 << 32) << 32 | self.c.draw(1 << 32);
                if f64::from_bits(b).is_nan() {
                    0x3ff0_0000_0000_0001
                } else {
                    b
                }
            }
        }
    }
    fn f32bits(&mut self) -> u32 {
        match self.c.draw(5) {
            0 => 0,
            1 => 1.5f32.to_bits(),
            2 => (-0.0f32).to_bits(),
            3 => f32::INFINITY.to_bits(),
            _ => {
                let b = self.c.draw(1 << 32) as u32;
                if f32::from_bits(b).is_nan() {
                    0x3f80_0001
                } else {
                    b
                }
            }
        }
    }
    fn guid(&mut self) -> [u8; 16] {
        let mut p = self.c.sub_prng();
        let mut o = [0u8; 16];
        for b in o.iter_mut() {
            *b = p.below(256) as u8;
        }
        o
    }
    /// how many of something: as draw(max), but now and then a count which needs two or three bytes
    pub fn count(&mut self, max: u64) -> u64 {
        self.count_to(max, 1 << 20)
    }
    pub fn count_to(&mut self, max: u64, top: u64) -> u64 {
        if self.wide {
            return self.c.draw(max);
        }
        let (n, wide) = self.c.size(max, self.rare, top);
        if wide {
            self.wide = true;
            self.c.probe(if n > 1000 { "wide-count-16" } else { "wide-count-8" });
            self.c.begin_bulk();
        }
        n
    }
    fn bytes(&mut self, max: u64) -> Vec<u8> {
        let n = self.count(max + 1) as usize;
        let mut p = self.c.sub_prng();
        (0..n).map(|_| p.below(256) as u8).collect()
    }
    pub fn string(&mut self) -> String {
        let w = WORDS[self.c.draw(WORDS.len() as u64) as usize];
        match self.c.draw(5) {
            0 => String::new(),
            1 | 2 => w.to_owned(),
            3 => format!("{w} {}", self.c.draw(1000)),
            _ => {
                let n = self.count(4) as usize;
                let c = if n > 4 && self.c.chance(1, 2) { "q" } else { "é" };
                format!("{}{}", w, c.repeat(n))
            }
        }
    }
    pub fn ostr(&mut self) -> Option<String> {
        if self.c.chance(1, 6) {
            None
        } else {
            Some(self.string())
        }
    }
    pub fn nm(&mut self) -> Nm {
        let i = self.pool[self.c.draw(self.pool.len() as u64) as usize];
        let n = match self.c.draw(48) {
            0..=31 => 0,
            47 => [255, 256, 65536, i32::MAX, 300, i32::MIN, -1][self.c.draw(7) as usize],
            k => k as i32 % 4,
        };
        Nm(i, n)
    }
    pub fn pidx(&mut self) -> i32 {
        let ni = self.m.imports.len() as i64;
        let ne = self.m.exports.len() as i64;
        (self.c.draw((ni + ne + 1) as u64) as i64 - ni) as i32
    }
    pub fn ty(&mut self, s: &str) {
        if s != "None" || !self.m.names.iter().any(|n| n == "None") {
            self.m.intern(s);
        }
    }

    pub const SIMPLE: u64 = 17;
    pub fn simple(&mut self, k: u64) -> Val {
        match k {
            0 => Val::I32(self.any_i32()),
            1 => Val::Bool(self.c.chance(1, 2)),
            2 => Val::F32(self.f32bits()),
            3 => Val::Name(self.nm()),
            4 => Val::Str(self.ostr()),
            5 => Val::Object(self.pidx()),
            6 => Val::Enum(None, self.nm()),
            7 => self.text(),
            8 => Val::I64(((self.any_u32() as u64) << 32 | self.any_u32() as u64) as i64),
            9 => Val::I16(self.any_u32() as i16),
            10 => Val::U16(self.any_u32() as u16),
            11 => Val::U32(self.any_u32()),
            12 => Val::U64((self.any_u32() as u64) << 32 | self.any_u32() as u64),
            13 => Val::I8(self.any_u32() as i8),
            14 => Val::F64(self.f64bits()),
            15 => {
                let p = if self.m.ver.ue5 >= 1007 { Some(self.nm()) } else { None };
                Val::Soft(p, self.nm(), self.ostr())
            }
            _ => Val::AssetObject(self.ostr()),
        }
    }
    fn text(&mut self) -> Val {
        let flags = self.any_u32();
        let k = match if self.m.ver.obj < 368 { 0 } else { self.c.draw(3) } {
            0 => TextKind::Base(self.ostr(), self.ostr(), self.ostr()),
            1 => {
                let s = if self.m.ver.editor >= 32 && self.c.chance(1, 2) { Some(format!("inv{}", self.string())) } else { None };
                TextKind::None(s)
            }
            _ => TextKind::Table(self.nm(), self.ostr()),
        };
        Val::Text(flags, k)
    }

    /// names of structs with their own layout, common ones first
    pub const CUSTOM: &'static [&'static str] = &[
        "Vector", "Rotator", "Guid", "LinearColor", "Color", "Vector2D", "Vector4", "Quat", "IntPoint", "Box", "Plane", "Box2D", "Timespan", "DateTime", "GameplayTagContainer", "RichCurveKey", "SoftObjectPath", "SoftClassPath", "StringAssetReference", "SoftAssetPath",
        "FloatRange", "FontCharacter", "ViewTargetBlendParams", "PerPlatformBool", "PerPlatformInt", "PerPlatformFloat", "SmartName", "UniqueNetIdRepl", "NiagaraVariable", "NiagaraVariableWithOffset", "FontData", "ExpressionInput", "MaterialAttributesInput",
        "ColorMaterialInput", "ScalarMaterialInput", "ShadingModelMaterialInput", "VectorMaterialInput", "Vector2MaterialInput", "WeightedRandomSampler", "SkeletalMeshAreaWeightedTriangleSampler", "SkeletalMeshSamplingLODBuiltData", "ClothLODData",
        "MovieSceneFrameRange", "MovieSceneFloatValue", "MovieSceneFloatChannel", "MovieSceneSegmentIdentifier", "MovieSceneTrackIdentifier", "MovieSceneSequenceId", "MovieSceneEvaluationKey", "MovieSceneSequenceInstanceDataPtr", "MovieSceneSegment",
        "MovieSceneSubSequenceTree", "MovieSceneTrackFieldData", "MovieSceneEvaluationFieldEntityTree", "SectionEvaluationDataTree", "MovieSceneEventParameters", "MovieSceneEvalTemplatePtr", "MovieSceneTrackImplementationPtr",
    ];
    pub fn one_lw(&mut self) -> F {
        F::Lw(if self.m.ver.ue5 >= 1004 { self.f64bits() } else { (f32::from_bits(self.f32bits()) as f64).to_bits() })
    }
    fn lw(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.one_lw()).collect()
    }
    fn f32s(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| F::F32(self.f32bits())).collect()
    }
    fn soft_path(&mut self) -> Vec<F> {
        if self.m.ver.obj < 514 {
            return vec![F::S(self.ostr())];
        }
        let mut f = vec![];
        if self.m.ver.ue5 >= 1007 {
            f.push(F::Nm(self.nm()));
        }
        f.push(F::Nm(self.nm()));
        f.push(F::S(self.ostr()));
        f
    }
    fn range_bound(&mut self) -> Vec<F> {
        vec![F::I8(self.c.draw(3) as i8), F::I32(self.any_i32())]
    }
    fn frame_range(&mut self) -> Vec<F> {
        let mut f = self.range_bound();
        f.extend(self.range_bound());
        f
    }
    fn tree_node(&mut self) -> Vec<F> {
        let mut f = self.frame_range();
        for _ in 0..4 {
            f.push(F::I32(self.any_i32()));
        }
        f
    }
    fn tree(&mut self, item: &mut dyn FnMut(&mut Self) -> Vec<F>) -> Vec<F> {
        let mut f = self.tree_node();
        for pass in 0..2 {
            let entries = self.count(4) as i32;
            f.push(F::I32(entries));
            for _ in 0..entries * 3 {
                f.push(F::I32(self.any_i32()));
            }
            let items = self.count(4) as i32;
            f.push(F::I32(items));
            for _ in 0..items {
                if pass == 0 {
                    f.extend(self.tree_node());
                } else {
                    f.extend(item(self));
                }
            }
        }
        f
    }
    fn float_value(&mut self) -> Vec<F> {
        let mut f = self.f32s(5);
        f.push(F::I8(self.c.draw(4) as i8));
        f.push(F::I8(self.c.draw(4) as i8));
        f.push(F::I8(self.c.draw(3) as i8));
        f
    }
    fn material(&mut self) -> Vec<F> {
        let mut p = self.c.sub_prng();
        vec![F::I32(self.any_i32()), F::Nm(self.nm()), F::B((0..20).map(|_| p.below(256) as u8).collect()), F::Nm(self.nm())]
    }
    pub fn custom(&mut self, ty: &str, depth: u32) -> Cust {
        let rare = std::mem::replace(&mut self.rare, 100);
        let f = match ty {
            "Vector" | "Rotator" => self.lw(3),
            "Vector4" | "Quat" | "Plane" => self.lw(4),
            "Vector2D" => self.lw(2),
            "Box" | "Box2D" => {
                let mut f = self.lw(if ty == "Box" { 6 } else { 4 });
                f.push(F::U8(self.c.draw(2) as u8));
                f
            }
            "Guid" => vec![F::G(self.guid())],
            "LinearColor" => self.f32s(4),
            "Color" => vec![F::I32(self.any_i32())],
            "IntPoint" => vec![F::I32(self.any_i32()), F::I32(self.any_i32())],
            "Timespan" | "DateTime" => vec![F::I64(((self.any_u32() as u64) << 32 | self.any_u32() as u64) as i64)],
            "GameplayTagContainer" => {
                let n = self.count(4);
                let mut f = vec![F::I32(n as i32)];
                for _ in 0..n {
                    f.push(F::Nm(self.nm()));
                }
                f
            }
            "RichCurveKey" => {
                let mut f = vec![F::I8(self.c.draw(4) as i8), F::I8(self.c.draw(4) as i8), F::I8(self.c.draw(4) as i8)];
                f.extend(self.f32s(6));
                f
            }
            "SoftObjectPath" | "SoftClassPath" | "StringAssetReference" | "SoftAssetPath" => self.soft_path(),
            "FloatRange" => self.f32s(2),
            "FontCharacter" => {
                let mut f: Vec<F> = (0..4).map(|_| F::I32(self.any_i32())).collect();
                f.push(F::U8(self.any_u32() as u8));
                f.push(F::I32(self.any_i32()));
                f
            }
            "ViewTargetBlendParams" => {
                let mut f = self.f32s(1);
                f.push(F::U8(self.c.draw(6) as u8));
                f.extend(self.f32s(1));
                f.push(F::I32(self.c.draw(2) as i32));
                f
            }
            "PerPlatformBool" => {
                let n = self.count(4);
                let mut f = vec![F::I32(n as i32)];
                for _ in 0..n {
                    f.push(F::U8(self.c.draw(2) as u8));
                }
                f
            }
            "PerPlatformInt" => {
                let n = self.count(4);
                let mut f = vec![F::I32(n as i32)];
                for _ in 0..n {
                    f.push(F::I32(self.any_i32()));
                }
                f
            }
            "PerPlatformFloat" => {
                let n = self.count(4) as usize;
                let mut f = vec![F::I32(n as i32)];
                f.extend(self.f32s(n));
                f
            }
            "SmartName" => {
                let mut f = vec![F::Nm(self.nm())];
                if self.m.ver.animphys < 5 {
                    f.push(F::U16(self.any_u32() as u16));
                }
                if self.m.ver.animphys < 10 {
                    f.push(F::G(self.guid()));
                }
                f
            }
            "UniqueNetIdRepl" => {
                if self.c.chance(1, 2) {
                    let s = self.string();
                    let n = Nm(self.nm().0, 0);
                    let mut e = Enc::new(&self.m.ver, &self.m.names);
                    e.str(&Some(s.clone()));
                    let len = e.o.len() as i32;
                    vec![F::I32(12 + len), F::Nm(n), F::S(Some(s))]
                } else {
                    vec![F::I32(0)]
                }
            }
            "NiagaraVariable" | "NiagaraVariableWithOffset" => vec![F::Nm(self.nm()), F::Props(self.props(depth + 1)), F::I32(self.any_i32())],
            "FontData" => {
                let mut f = vec![];
                if self.m.ver.editor >= 9 {
                    if self.c.chance(3, 4) {
                        f.push(F::I32(1));
                        if self.c.chance(1, 2) {
                            f.push(F::I32(0));
                            f.push(F::S(self.ostr()));
                            f.push(F::U8(self.c.draw(5) as u8));
                            f.push(F::U8(self.c.draw(3) as u8));
                        } else {
                            f.push(F::I32(-1));
                        }
                        f.push(F::I32(self.any_i32()));
                    } else {
                        f.push(F::I32(0));
                    }
                }
                f
            }
            "ExpressionInput" | "MaterialAttributesInput" => self.material(),
            "ColorMaterialInput" | "ShadingModelMaterialInput" => {
                let mut f = self.material();
                f.push(F::I32(0));
                f.push(F::U32(self.any_u32()));
                f
            }
            "ScalarMaterialInput" => {
                let mut f = self.material();
                f.push(F::I32(0));
                f.extend(self.f32s(1));
                f
            }
            "VectorMaterialInput" => {
                let mut f = self.material();
                f.push(F::I32(0));
                f.extend(self.lw(3));
                f
            }
            "Vector2MaterialInput" => {
                let mut f = self.material();
                f.push(F::I32(0));
                f.extend(self.lw(2));
                f
            }
            "WeightedRandomSampler" | "SkeletalMeshAreaWeightedTriangleSampler" | "SkeletalMeshSamplingLODBuiltData" => {
                let a = self.count(4) as usize;
                let b = self.count(4) as usize;
                let mut f = vec![F::I32(a as i32)];
                f.extend(self.f32s(a));
                f.push(F::I32(b as i32));
                for _ in 0..b {
                    f.push(F::I32(self.any_i32()));
                }
                f.extend(self.f32s(1));
                f
            }
            "ClothLODData" => {
                let mut f = vec![F::Props(self.props(depth + 1))];
                for _ in 0..2 {
                    let n = self.count(3);
                    f.push(F::I32(n as i32));
                    for _ in 0..n {
                        f.extend(self.lw(12));
                        for _ in 0..4 {
                            f.push(F::U16(self.any_u32() as u16));
                        }
                        f.extend(self.f32s(1));
                        f.push(F::U32(0));
                    }
                }
                f
            }
            "MovieSceneFrameRange" => self.frame_range(),
            "MovieSceneFloatValue" => self.float_value(),
            "MovieSceneFloatChannel" => {
                let mut f = vec![F::U8(self.c.draw(6) as u8), F::U8(self.c.draw(6) as u8)];
                let a = self.count(4);
                f.push(F::I32(4));
                f.push(F::I32(a as i32));
                for _ in 0..a {
                    f.push(F::I32(self.any_i32()));
                }
                let b = self.count(4);
                f.push(F::I32(28));
                f.push(F::I32(b as i32));
                for _ in 0..b {
                    f.extend(self.float_value());
                }
                f.extend(self.f32s(1));
                f.push(F::I32(self.c.draw(2) as i32));
                f.push(F::I32(self.any_i32()));
                f.push(F::I32(self.any_i32()));
                f
            }
            "MovieSceneSegmentIdentifier" | "MovieSceneSequenceInstanceDataPtr" => vec![F::I32(self.any_i32())],
            "MovieSceneTrackIdentifier" | "MovieSceneSequenceId" => vec![F::U32(self.any_u32())],
            "MovieSceneEvaluationKey" => vec![F::U32(self.any_u32()), F::U32(self.any_u32()), F::U32(self.any_u32())],
            "MovieSceneSegment" => {
                let mut f = self.frame_range();
                f.push(F::I32(self.any_i32()));
                f.push(F::I32(self.c.draw(2) as i32));
                let n = self.count(3);
                f.push(F::I32(n as i32));
                for _ in 0..n {
                    f.push(F::Props(self.props(depth + 1)));
                }
                f
            }
            "MovieSceneSubSequenceTree" => self.tree(&mut |g| vec![F::U32(g.any_u32()), F::U8(g.c.draw(4) as u8)]),
            "MovieSceneTrackFieldData" => self.tree(&mut |g| vec![F::U32(g.any_u32())]),
            "MovieSceneEvaluationFieldEntityTree" => self.tree(&mut |g| vec![F::I32(g.any_i32()), F::I32(g.any_i32())]),
            "SectionEvaluationDataTree" => self.tree(&mut |g| vec![F::Props(g.props(depth + 1))]),
            "MovieSceneEventParameters" => {
                let mut f = vec![];
                if self.m.ver.ue5 >= 1007 {
                    f.push(F::Nm(self.nm()));
                }
                f.push(F::Nm(self.nm()));
                f.push(F::S(self.ostr()));
                let b = self.bytes(12);
                f.push(F::I32(b.len() as i32));
                f.push(F::B(b));
                f
            }
            "MovieSceneEvalTemplatePtr" | "MovieSceneTrackImplementationPtr" => {
                if self.c.chance(2, 3) {
                    vec![F::S(Some(self.string())), F::Props(self.props(depth + 1))]
                } else {
                    vec![F::S(None)]
                }
            }
            _ => unreachable!("{ty}"),
        };
        self.rare = rare;
        Cust { ty: ty.to_owned(), f }
    }
    fn custom_name(&mut self) -> &'static str {
        let n = if self.opaque_ok && self.c.chance(1, 2) { Self::CUSTOM.len() as u64 } else { 14 };
        let t = Self::CUSTOM[self.c.draw(n) as usize];
        if t == "FontData" && self.m.ver.editor < 9 {
            // has no layout of its own there
            return "Vector";
        }
        t
    }
    fn is_custom(&self, t: &str) -> bool {
        let v = &self.m.ver;
        match t {
            "RichCurveKey" => v.obj >= 366,
            "MovieSceneTrackIdentifier" => v.editor >= 19,
            "MovieSceneFloatChannel" => v.sequencer >= 12 || v.fortnite >= 53,
            _ => true,
        }
    }
    fn sbody_for(&mut self, custom: Option<&str>, depth: u32) -> SBody {
        if custom == Some("FloatRange") && self.tagged_range && self.c.chance(1, 3) {
            let mut p = vec![self.prop(depth + 1)];
            p[0].name = self.m.intern("LowerBound");
            p[0].v = Val::F32(self.f32bits());
            p.extend(self.props(depth + 1));
            return SBody::Props(p);
        }
        match custom.filter(|t| self.is_custom(t)) {
            Some(t) => SBody::Cust(self.custom(t, depth)),
            None => SBody::Props(self.props(depth + 1)),
        }
    }
    pub fn prop(&mut self, depth: u32) -> Prop {
        self.budget = self.budget.saturating_sub(1);
        let mut name = self.nm();
        let kinds = if depth >= 3 || self.budget == 0 { 3 } else { 12 };
        let v = match self.c.draw(kinds) {
            0 | 1 => {
                let k = self.c.draw(Self::SIMPLE);
                let v = self.simple(k);
                match v {
                    Val::Enum(_, x) => Val::Enum(Some(self.nm()), x),
                    v => v,
                }
            }
            2 => match self.c.draw(6) {
                0 => Val::ByteU(Some(self.nm_none()), self.any_u32() as u8),
                1 => Val::ByteN(Some(self.nm()), self.nm()),
                2 => Val::Delegate(self.pidx(), self.nm()),
                3 => {
                    let k = ["MulticastDelegateProperty", "MulticastSparseDelegateProperty", "MulticastInlineDelegateProperty"][self.c.draw(3) as usize];
                    let n = self.count(3);
                    Val::Multi(k, (0..n).map(|_| (self.pidx(), self.nm())).collect())
                }
                4 => {
                    let t = ["WeirdProperty", "ZzUnknown"][self.c.draw(2) as usize];
                    Val::Unknown(t.to_owned(), self.bytes(20))
                }
                _ => Val::Object(self.pidx()),
            },
            3 | 4 => {
                // struct with its own layout
                let t = self.custom_name();
                let sty = self.m.intern(t);
                let body = self.sbody_for(Some(t), depth);
                Val::Struct { sty, guid: self.sguid(), body }
            }
            5 => {
                let sty = Nm(self.nm().0, 0);
                let body = SBody::Props(self.props(depth + 1));
                Val::Struct { sty, guid: self.sguid(), body }
            }
            6 | 7 => {
                let k = self.c.draw(Self::SIMPLE + 1);
                let n = self.count(5);
                let items: Vec<Val> = (0..n).map(|_| if k == Self::SIMPLE { Val::ByteU(None, self.any_u32() as u8) } else { self.simple(k) }).collect();
                let inner = if k == Self::SIMPLE { "ByteProperty".to_owned() } else { type_name(&self.simple(k)) };
                Val::Array { inner, items }
            }
            8 => {
                let n = self.count(4);
                let inner_custom = if self.c.chance(1, 2) && self.m.ver.obj >= 500 { Some(self.custom_name()) } else { None };
                let (sty, custom): (Nm, Option<&str>) = match inner_custom {
                    Some(t) => (self.m.intern(t), Some(t)),
                    None => (Nm(self.nm().0, 0), None),
                };
                let items = (0..n).map(|_| self.sbody_for(custom, depth)).collect();
                let guid = self.sguid();
                Val::StructArray { name, sty, guid, items }
            }
            9 | 10 => {
                // map; struct keys and values are typed by the property's name
                let special: &[(&str, Option<&str>, Option<&str>)] = &[
                    ("ColorDatabase", None, Some("LinearColor")),
                    ("PlayerCharacterIDs", Some("Guid"), None),
                    ("TrackSignatureToTrackIdentifier", Some("Guid"), Some("MovieSceneTrackIdentifier")),
                    ("ItemsToRefund", Some("Guid"), None),
                    ("Tracks", Some("MovieSceneTrackIdentifier"), None),
                    ("BindingIdToReferences", Some("Guid"), None),
                    ("m_PerConditionValueToNodeMap", Some("Guid"), None),
                    ("PlayerCharacterIDMap", Some("Guid"), None),
                    ("RainChanceMinMaxPerWeatherState", None, Some("FloatRange")),
                    ("UserParameterRedirects", Some("NiagaraVariable"), Some("NiagaraVariable")),
                ];
                let mut sk = None;
                let mut sv = None;
                if self.c.chance(1, 4) {
                    let (n, k, v) = special[self.c.draw(special.len() as u64) as usize];
                    name = self.m.intern(n);
                    sk = k;
                    sv = v;
                } else if !self.typed_maps.is_empty() && self.c.chance(2, 3) {
                    let (n, k, v) = self.typed_maps[self.c.draw(self.typed_maps.len() as u64) as usize].clone();
                    name = self.m.intern(&n);
                    sk = k;
                    sv = v;
                }
                let kk = match sk {
                    Some(_) => 99,
                    None => [0, 3, 4, 1, 5, 8, 10, 99][self.c.draw(8) as usize],
                };
                let vk = match sv {
                    Some(_) => 99,
                    None => {
                        if self.c.chance(1, 3) {
                            99
                        } else {
                            self.c.draw(Self::SIMPLE)
                        }
                    }
                };
                // (the keys are compared with each other)
                let n = self.count_to(4, 300);
                let mut items: Vec<(Val, Val)> = vec![];
                let one = |g: &mut Self, k: u64, s: Option<&str>| if k == 99 { Val::SVal(g.sbody_for(s, depth)) } else { g.simple(k) };
                for _ in 0..n {
                    let k = one(self, kk, sk);
                    let v = one(self, vk, sv);
                    // keys which are written alike would be one key of the map
                    let c = Enc::canonical(&self.m.ver, &self.m.names, &k);
                    if !items.iter().any(|(x, _)| Enc::canonical(&self.m.ver, &self.m.names, x) == c) {
                        items.push((k, v));
                    }
                }
                let nr = if self.c.chance(1, 3) { self.count(4) } else { 0 };
                let removed = (0..nr).map(|_| one(self, kk, sk)).collect();
                let kt = if kk == 99 { "StructProperty".to_owned() } else { type_name(&self.simple(kk)) };
                let vt = if vk == 99 { "StructProperty".to_owned() } else { type_name(&self.simple(vk)) };
                Val::Map { kt, vt, removed, items }
            }
            _ => {
                let k = [0u64, 3, 4, 5, 8, 2, 7, 99][self.c.draw(8) as usize];
                let one = |g: &mut Self| if k == 99 { Val::SVal(SBody::Props(g.props(depth + 1))) } else { g.simple(k) };
                let n = self.count(4);
                let items = (0..n).map(|_| one(self)).collect();
                let nr = if self.c.chance(1, 3) { self.count(4) } else { 0 };
                let removed = (0..nr).map(|_| one(self)).collect();
                let inner = if k == 99 { "StructProperty".to_owned() } else { type_name(&one(self)) };
                Val::Set { inner, removed, items }
            }
        };
        let dup = match self.c.draw(60) {
            0..=49 => 0,
            59 => [255, 256, 65536, i32::MAX, 300][self.c.draw(5) as usize],
            k => k as i32 % 5,
        };
        let guid = if self.m.ver.obj >= 503 && self.c.chance(1, 5) { Some(self.guid()) } else { None };
        Prop { name, dup, guid, v }
    }
    fn sguid(&mut self) -> [u8; 16] {
        if self.m.ver.obj >= 441 && self.c.chance(1, 3) {
            self.guid()
        } else {
            [0; 16]
        }
    }
    fn nm_none(&mut self) -> Nm {
        if self.c.chance(1, 2) {
            self.m.intern("None")
        } else {
            self.nm()
        }
    }
    pub fn props(&mut self, depth: u32) -> Vec<Prop> {
        let max = if depth == 0 { 6 } else { 3 };
        let n = self.count(max);
        (0..n).map(|_| self.prop(depth)).collect()
    }
    fn extras(&mut self) -> Vec<u8> {
        match self.c.draw(4) {
            0 => vec![0; 4],
            1 => vec![],
            2 => vec![0; 12],
            _ => self.bytes(40),
        }
    }
}

/// whether a map (which orders by key equality) would treat the two as the same key
/// every type name the encoder will look up
pub fn collect_types(m: &mut Model) {
    loop {
        let f = encode(m, &m.names);
        if f.missing.is_empty() {
            return;
        }
        for s in f.missing {
            m.names.push(s);
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Flavor {
    /// anything the format offers
    Any,
    /// as Any, with every name only once in the name table and at least one export
    Unique,
}

pub fn model(c: &mut Ctx, flavor: Flavor) -> (Model, EngineVersion) {
    model_like(c, flavor, None)
}

/// a model saved by the same engine in the same way as another one
pub fn model_like(c: &mut Ctx, flavor: Flavor, like: Option<&Model>) -> (Model, EngineVersion) {
    let e = match like {
        Some(m) => ENGINES.iter().find(|e| e.1 == m.ver.label).unwrap(),
        None => &ENGINES[c.draw(ENGINES.len() as u64) as usize],
    };
    let versioned = match like {
        Some(m) => m.ver.versioned,
        None => c.chance(1, 4),
    };
    let mut ver = Ver {
        label: e.1,
        obj: e.2,
        ue5: e.3,
        release: e.4[0],
        framework: e.4[1],
        fortnite: e.4[2],
        editor: e.4[3],
        sequencer: e.4[4],
        core: e.4[5],
        animphys: 0,
        minor: e.5,
        versioned,
    };
    let mut customs = vec![];
    if versioned {
        // the file lists exactly what it was saved with
        if let Some(m) = like {
            ver.animphys = m.ver.animphys;
        } else if c.chance(1, 2) {
            ver.animphys = c.draw(12) as i32;
        }
        for (gd, v) in [(G_RELEASE, ver.release), (G_FRAMEWORK, ver.framework), (G_FORTNITE, ver.fortnite), (G_EDITOR, ver.editor), (G_SEQUENCER, ver.sequencer), (G_CORE, ver.core), (G_ANIM, ver.animphys)] {
            customs.push((gd, v));
        }
        if c.chance(1, 3) {
            customs.push(([7; 16], 3));
            if c.chance(1, 200) {
                // more than fit in one byte
                customs.extend((0..250 + c.draw(10)).map(|k| (std::array::from_fn(|i| if i == 3 { 1 + (k >> 8) as u8 } else { k as u8 }), k as i32)));
            }
        }
    }
    let legacy = if e.3 > 0 {
        -8
    } else if ver.obj < 482 && !versioned {
        [-3, -4, -5, -6][c.draw(4) as usize]
    } else {
        [-7, -6][c.chance(1, 4) as usize]
    };
    let split = match like {
        Some(m) => m.split,
        None => ver.obj >= 507 && c.chance(1, 2),
    };
    let m = Model {
        ver,
        legacy,
        licensee: 0,
        customs,
        folder: "None".into(),
        flags: 0,
        names: vec![],
        zero_hash: Default::default(),
        soft_paths: (0, 0),
        gatherable: (0, 0),
        imports: vec![],
        exports: vec![],
        depends: Some(vec![]),
        soft_refs: None,
        searchable: 0,
        thumbnail: 0,
        guid: [0; 16],
        generations: 1,
        recorded: EngVer(4, 0, 0, 0, None),
        compatible: EngVer(4, 0, 0, 0, None),
        compression: 0,
        source: 0,
        registry: false,
        tile: None,
        chunks: vec![],
        names_referenced: 0,
        payload_toc: 0,
        data_resources: 0,
        split,
        extra_names: vec![],
    };
    // (without an engine version blueprint bytecode stays an opaque block, which keeps its indices)
    let eng = if versioned && flavor == Flavor::Any { EngineVersion::UNKNOWN } else { e.0 };
    let mut g = G { c, m, eng, pool: vec![], budget: 40, opaque_ok: true, tagged_range: flavor == Flavor::Any, wide: false, rare: 400, structs: vec![], typed_maps: vec![] };

    // names
    let n = 4 + g.c.draw(7) as usize;
    for _ in 0..n {
        let w = WORDS[g.c.draw(WORDS.len() as u64) as usize];
        let s = if g.c.chance(1, 3) { format!("{w}{}", g.c.draw(50)) } else { w.to_owned() };
        // a file may carry the same name twice
        if g.m.names.contains(&s) && (flavor == Flavor::Unique || !g.c.chance(1, 4)) {
            continue;
        }
        g.m.names.push(s);
    }
    let n = g.count(1);
    for k in 0..n {
        g.m.names.push(format!("Name-{k}"));
    }
    g.pool = (0..g.m.names.len() as i32).collect();
    if g.m.ver.obj >= 504 && g.c.chance(1, 4) {
        let k = g.c.draw(g.pool.len() as u64) as usize;
        let s = g.m.names[k].clone();
        g.m.zero_hash.insert(s);
    }
    // header
    if g.c.chance(1, 2) {
        g.m.licensee = g.any_i32();
        g.m.folder = g.string();
        g.m.flags = [0u32, 0x8000_0000, 0x200, 0x8000_0201, 0x4000_0010][g.c.draw(5) as usize];
        g.m.soft_paths = (g.c.draw(4) as i32, g.any_i32());
        g.m.gatherable = (g.c.draw(4) as i32, g.any_i32());
        g.m.searchable = g.any_i32();
        g.m.thumbnail = g.any_i32();
        g.m.guid = g.guid();
        g.m.generations = g.count(4) as usize;
        g.m.recorded = EngVer(4, g.c.draw(28) as u16, g.any_u32() as u16, g.any_u32(), g.ostr());
        g.m.compatible = if g.c.chance(1, 2) { EngVer(g.any_u32() as u16, g.c.draw(28) as u16, 3, g.any_u32(), g.ostr()) } else { g.m.recorded.clone() };
        g.m.compression = g.any_u32();
        g.m.source = g.any_u32();
        g.m.chunks = (0..g.count(4)).map(|_| g.any_i32()).collect();
        g.m.names_referenced = g.any_i32();
        g.m.payload_toc = g.any_u32() as i64;
        g.m.data_resources = g.any_i32();
        g.m.registry = g.c.chance(1, 2);
        if g.c.chance(1, 2) && g.m.ver.obj >= 384 {
            let n = g.count(3);
            g.m.soft_refs = Some((0..n).map(|_| Some(g.string())).collect());
        }
        if g.c.chance(1, 3) {
            g.m.tile = Some(tile(&mut g));
        }
    }
    // imports: one for each class the exports use
    let kinds: &[&str] = &["Actor_C", "DataTable", "StringTable", "UserDefinedEnum", "Level", "World", "MyDataTable", "Enum", "FancyStringTable", "UserDefinedStruct", "Function", "BlueprintGeneratedClass", "WidgetBlueprintGeneratedClass", "IntProperty", "ArrayProperty", "MapProperty", "BoolProperty"];
    let nexp = g.count(4) as usize + if flavor == Flavor::Unique { 1 } else { 0 };
    let mut want = vec![];
    for _ in 0..nexp {
        let k = if g.c.chance(1, 2) { 0 } else { g.c.draw(kinds.len() as u64) as usize };
        let k = kinds[k];
        let k = match k {
            k if k.ends_with("Property") => {
                const U: &[&str] = &["IntProperty", "BoolProperty", "ArrayProperty", "SetProperty", "ObjectProperty", "SoftObjectProperty", "LazyObjectProperty", "DelegateProperty", "MulticastDelegateProperty", "MulticastInlineDelegateProperty", "InterfaceProperty", "ByteProperty", "StructProperty", "EnumProperty", "ClassProperty", "SoftClassProperty", "MapProperty", "DoubleProperty", "FloatProperty", "Int8Property", "Int16Property", "Int64Property", "UInt8Property", "UInt16Property", "UInt64Property", "NameProperty", "StrProperty"];
                U[g.c.draw(U.len() as u64) as usize]
            }
            k => k,
        };
        want.push(k);
    }
    let core = g.m.intern("/Script/CoreUObject");
    let class = g.m.intern("Class");
    let extra = g.count(3);
    for _ in 0..extra {
        let i = Imp { class_package: g.nm(), class_name: g.nm(), outer: -1, name: g.nm(), optional: g.c.chance(1, 3) };
        g.m.imports.push(i);
    }
    let generated = |w: &str| w.ends_with("BlueprintGeneratedClass");
    if flavor == Flavor::Any && g.m.ver.core >= 4 && want.iter().any(|w| generated(w)) && g.c.chance(1, 3) {
        // a class of this file tells how the structs in its maps look like
        const K: &[&str] = &["Guid", "IntPoint", "DateTime", "Color", "Vector", "LinearColor", "Rotator", "Quat", "Box", "GameplayTagContainer"];
        let sclass = g.m.intern("ScriptStruct");
        for _ in 0..1 + g.c.draw(3) {
            let s = K[g.c.draw(K.len() as u64) as usize];
            let name = g.m.intern(s);
            g.m.imports.push(Imp { class_package: core, class_name: sclass, outer: 0, name, optional: false });
            g.structs.push((-(g.m.imports.len() as i32), s));
        }
        if let Some(k) = want.iter().position(|w| generated(w)) {
            want.swap(0, k);
        }
    }
    let mut classes = vec![];
    for w in &want {
        let name = g.m.intern(w);
        let pos = g.m.imports.iter().position(|i| i.name == name && i.class_name == class);
        let k = pos.unwrap_or_else(|| {
            let opt = g.c.chance(1, 4);
            g.m.imports.push(Imp { class_package: core, class_name: class, outer: 0, name, optional: opt });
            g.m.imports.len() - 1
        });
        classes.push(-(k as i32) - 1);
    }
    for (w, cl) in want.iter().zip(classes) {
        let body = export_body(&mut g, w);
        let mut x = Exp {
            class: cl,
            sup: 0,
            template: 0,
            outer: 0,
            name: g.nm(),
            flags: 0,
            b: [false; 3],
            guid: [0; 16],
            inherited: false,
            package_flags: 0,
            not_always: false,
            is_asset: false,
            public_hash: false,
            deps: Default::default(),
            body,
        };
        if g.c.chance(1, 2) {
            x.sup = g.pidx();
            x.template = g.pidx();
            x.outer = g.pidx();
            x.flags = [0u32, 1, 8, 0x29, 0x40001][g.c.draw(5) as usize];
            x.b = [g.c.chance(1, 2), g.c.chance(1, 2), g.c.chance(1, 2)];
            x.guid = g.guid();
            x.inherited = g.c.chance(1, 2);
            x.package_flags = g.any_u32();
            x.not_always = g.c.chance(1, 2) && g.m.ver.obj >= 365;
            x.is_asset = g.c.chance(1, 2);
            x.public_hash = g.c.chance(1, 2);
        }
        if g.m.split {
            for k in 0..4 {
                let n = g.count(3);
                x.deps[k] = (0..n).map(|_| g.pidx()).collect();
            }
        }
        g.m.exports.push(x);
    }
    // an export whose class is not known is kept as raw bytes
    if g.typed_maps.is_empty() && g.c.chance(1, 10) && !g.m.exports.is_empty() {
        let k = g.c.draw(g.m.exports.len() as u64) as usize;
        g.m.exports[k].class = 0;
        let b = g.bytes(60);
        g.m.exports[k].body = Body::Raw(b);
    }
    if g.m.ver.obj >= 511 && g.c.chance(1, 4) {
        g.m.depends = None;
    } else {
        let n = g.m.exports.len();
        let mut d = vec![];
        for _ in 0..n {
            let k = g.count(3);
            d.push((0..k).map(|_| g.pidx()).collect());
        }
        g.m.depends = Some(d);
    }
    let mut m = g.m;
    g.c.end_bulk();
    collect_types(&mut m);
    (m, eng)
}

fn tile(g: &mut G) -> Vec<F> {
    let mut f = vec![F::I32(g.any_i32()), F::I32(g.any_i32())];
    if g.m.ver.fortnite >= 1 {
        f.push(F::I32(g.any_i32()));
    }
    f.extend(g.lw(6));
    f.push(F::U8(g.c.draw(2) as u8));
    f.push(F::S(g.ostr()));
    f.push(F::I32(g.any_i32()));
    f.push(F::I32(g.any_i32()));
    f.push(F::I32(g.any_i32()));
    f.push(F::I32(g.any_i32()));
    f.push(F::I32(g.c.draw(2) as i32));
    f.push(F::I32(g.c.draw(2) as i32));
    f.push(F::S(g.ostr()));
    let n = g.count(3);
    f.push(F::I32(n as i32));
    for _ in 0..n {
        f.push(F::I32(g.any_i32()));
        f.extend(g.f32s(2));
        f.push(F::I32(g.any_i32()));
        f.push(F::I32(g.any_i32()));
    }
    f.push(F::I32(g.any_i32()));
    f
}

fn export_body(g: &mut G, class: &str) -> Body {
    let mut props = g.props(0);
    let extras = g.extras();
    match class {
        "DataTable" | "MyDataTable" => {
            let row = if g.c.chance(1, 2) { "MyRow".to_owned() } else { "Vector".to_owned() };
            // RowStruct points at the import naming the row type
            let n = g.m.intern(&row);
            let cls = g.m.intern("ScriptStruct");
            let core = g.m.intern("/Script/CoreUObject");
            g.m.imports.push(Imp { class_package: core, class_name: cls, outer: 0, name: n, optional: false });
            let idx = -(g.m.imports.len() as i32);
            let rs = g.m.intern("RowStruct");
            props.retain(|p| p.name.0 != rs.0);
            let at = g.c.draw(props.len() as u64 + 1) as usize;
            props.insert(at, Prop { name: rs, dup: 0, guid: None, v: Val::Object(idx) });
            let nr = g.count(4);
            let rows = (0..nr).map(|_| (g.nm(), g.sbody_for(if row == "Vector" { Some("Vector") } else { None }, 0))).collect();
            Body::DataTable { props, row, rows, extras }
        }
        "StringTable" | "FancyStringTable" => {
            let n = g.count(5);
            let ns = g.ostr();
            let mut rows: Vec<(Option<String>, Option<String>)> = vec![];
            for _ in 0..n {
                let k = Some(format!("{}{}", g.string(), rows.len()));
                rows.push((k, g.ostr()));
            }
            Body::StringTable { props, ns, rows, extras }
        }
        "UserDefinedEnum" | "Enum" => {
            let n = g.count(5);
            let rows = (0..n as i64).map(|k| (g.nm(), if g.m.ver.obj < 463 { k } else if g.m.ver.core < 2 { g.c.draw(256) as i64 } else { g.any_i64() })).collect();
            Body::Enum { props, rows, form: g.c.draw(if g.m.ver.obj < 390 { 2 } else { 3 }) as u8, extras }
        }
        "Level" => {
            let list = |g: &mut G| -> Vec<i32> { (0..g.count(4)).map(|_| g.pidx()).collect() };
            Body::Level {
                props,
                actors: list(g),
                url: [g.ostr(), g.ostr(), g.ostr(), g.ostr()],
                options: (0..g.count(3)).map(|_| g.ostr()).collect(),
                port: g.any_i32(),
                valid: g.any_i32(),
                model: g.pidx(),
                comps: list(g),
                idx: [g.pidx(), g.pidx(), g.pidx()],
                extras,
            }
        }
        "World" => {
            let list = |g: &mut G| -> Vec<i32> { (0..g.count(4)).map(|_| g.pidx()).collect() };
            Body::World { props, idx: g.pidx(), a: list(g), b: list(g), extras }
        }
        "UserDefinedStruct" | "Function" | "BlueprintGeneratedClass" | "WidgetBlueprintGeneratedClass" => {
            let mut t = struct_tail(g, class.ends_with("BlueprintGeneratedClass"));
            match class {
                "UserDefinedStruct" => {
                    t.push(F::U32([0u32, 2, 0x10, 0x1e06][g.c.draw(4) as usize]));
                    t.push(F::Props(g.props(1)));
                }
                "Function" => t.push(F::U32([0u32, 1, 0x400, 0x0400_0400][g.c.draw(4) as usize])),
                _ => class_tail(g, &mut t),
            }
            Body::Tail { props, tail: t, extras }
        }
        c if c.ends_with("Property") => {
            let t = uproperty(g, c);
            Body::Tail { props, tail: t, extras }
        }
        _ => Body::Normal { props, extras },
    }
}

/// a property of a class which is an export of its own (before FProperties)
fn uproperty(g: &mut G, class: &str) -> Vec<F> {
    let mut t = vec![F::I32(0)];
    if g.m.ver.framework < 29 {
        t.push(F::I32(g.pidx()));
    }
    t.push(F::I32(g.c.draw(3) as i32));
    t.push(F::I64([0i64, 5, 0x0010_0000_0000_0214][g.c.draw(3) as usize]));
    t.push(F::Nm(g.nm()));
    if g.m.ver.release >= 21 {
        t.push(F::U8(g.c.draw(5) as u8));
    }
    match class {
        "BoolProperty" => {
            t.push(F::U8(g.any_u32() as u8));
            t.push(F::U8(g.c.draw(2) as u8));
        }
        "ArrayProperty" | "SetProperty" | "ObjectProperty" | "SoftObjectProperty" | "LazyObjectProperty" | "DelegateProperty" | "MulticastDelegateProperty" | "MulticastInlineDelegateProperty" | "InterfaceProperty" | "ByteProperty" | "StructProperty" => t.push(F::I32(g.pidx())),
        "EnumProperty" | "ClassProperty" | "SoftClassProperty" | "MapProperty" => {
            t.push(F::I32(g.pidx()));
            t.push(F::I32(g.pidx()));
        }
        _ => {}
    }
    t
}

fn struct_tail(g: &mut G, maps: bool) -> Vec<F> {
    let mut t = vec![F::I32(0)];
    if g.m.ver.framework < 29 {
        t.push(F::I32(g.pidx()));
    }
    t.push(F::I32(g.pidx()));
    let n = g.count(3);
    t.push(F::I32(n as i32));
    for _ in 0..n {
        t.push(F::I32(g.pidx()));
    }
    if g.m.ver.core >= 4 {
        let n = g.count(4);
        t.push(F::I32(n as i32));
        for _ in 0..n {
            fproperty(g, &mut t, 0, maps);
        }
    }
    t.push(F::Mark);
    bytecode(g, &mut t);
    t.push(F::Mark);
    t
}

fn type_nm(g: &mut G, s: &str) -> F {
    F::Nm(g.m.intern(s))
}

/// an index which is not a struct with its own layout
fn plain(g: &mut G) -> i32 {
    let i = g.pidx();
    if g.structs.iter().any(|(k, _)| *k == i) {
        0
    } else {
        i
    }
}
fn fproperty_head(g: &mut G, t: &mut Vec<F>, k: &str, name: Nm) {
    let f = type_nm(g, k);
    t.push(f);
    t.push(F::Nm(name));
    t.push(F::U32([0u32, 1, 8, 0x29][g.c.draw(4) as usize]));
    t.push(F::I32(g.c.draw(3) as i32));
    t.push(F::I32(g.any_i32()));
    t.push(F::I64([0i64, 5, 0x0010_0000_0000_0214][g.c.draw(3) as usize]));
    t.push(F::U16(g.any_u32() as u16));
    t.push(F::Nm(g.nm()));
    t.push(F::U8(g.c.draw(5) as u8));
}
fn typed_side(g: &mut G, t: &mut Vec<F>, key: bool) -> Option<&'static str> {
    // (equal floats can be written differently)
    let of: Vec<_> = g.structs.iter().copied().filter(|(_, s)| !key || matches!(*s, "Guid" | "IntPoint" | "DateTime" | "Color")).collect();
    if of.is_empty() || g.c.chance(1, 3) {
        fproperty(g, t, 1, false);
        return None;
    }
    let (i, s) = of[g.c.draw(of.len() as u64) as usize];
    let name = g.nm();
    fproperty_head(g, t, "StructProperty", name);
    t.push(F::I32(i));
    Some(s)
}

fn fproperty(g: &mut G, t: &mut Vec<F>, depth: u32, maps: bool) {
    if maps && !g.structs.is_empty() && g.c.chance(1, 2) {
        let n = format!("TypedMap{}", g.typed_maps.len());
        let name = g.m.intern(&n);
        fproperty_head(g, t, "MapProperty", name);
        let k = typed_side(g, t, true);
        let v = typed_side(g, t, false);
        g.typed_maps.push((n, k, v));
        return;
    }
    const K: &[&str] = &["IntProperty", "BoolProperty", "ByteProperty", "ClassProperty", "DelegateProperty", "EnumProperty", "InterfaceProperty", "ObjectProperty", "StructProperty", "SoftObjectProperty", "SoftClassProperty", "MulticastDelegateProperty", "MulticastInlineDelegateProperty", "ArrayProperty", "SetProperty", "MapProperty", "FloatProperty", "NameProperty", "TextProperty"];
    let k = K[g.c.draw(K.len() as u64) as usize];
    let k = if depth >= 2 && matches!(k, "ArrayProperty" | "SetProperty" | "MapProperty" | "EnumProperty") { "IntProperty" } else { k };
    let name = g.nm();
    fproperty_head(g, t, k, name);
    match k {
        "BoolProperty" => {
            t.push(F::U8(g.any_u32() as u8));
            t.push(F::U8(g.any_u32() as u8));
            t.push(F::U8(g.any_u32() as u8));
            t.push(F::U8(g.any_u32() as u8));
            t.push(F::U8(g.c.draw(2) as u8));
            t.push(F::U8(g.c.draw(2) as u8));
        }
        "ByteProperty" | "DelegateProperty" | "InterfaceProperty" | "ObjectProperty" | "StructProperty" | "SoftObjectProperty" | "MulticastDelegateProperty" | "MulticastInlineDelegateProperty" => t.push(F::I32(plain(g))),
        "ClassProperty" | "SoftClassProperty" => {
            t.push(F::I32(g.pidx()));
            t.push(F::I32(g.pidx()));
        }
        "EnumProperty" => {
            t.push(F::I32(g.pidx()));
            fproperty(g, t, depth + 1, false);
        }
        "ArrayProperty" | "SetProperty" => fproperty(g, t, depth + 1, false),
        "MapProperty" => {
            fproperty(g, t, depth + 1, false);
            fproperty(g, t, depth + 1, false);
        }
        _ => {}
    }
}

fn class_tail(g: &mut G, t: &mut Vec<F>) {
    let n = g.count(3);
    t.push(F::I32(n as i32));
    let base = g.c.draw(8);
    for k in 0..n {
        // function names are the keys of a map: distinct
        let i = g.pool[(base + k) as usize % g.pool.len()];
        t.push(F::Nm(Nm(i, k as i32)));
        t.push(F::I32(g.pidx()));
    }
    t.push(F::U32([0u32, 1, 0x0024_0000][g.c.draw(3) as usize]));
    t.push(F::I32(g.pidx()));
    t.push(F::Nm(g.nm()));
    let by = F::I32(g.pidx());
    let n = g.count(3);
    let mut faces = vec![F::I32(n as i32)];
    for _ in 0..n {
        faces.push(F::I32(g.pidx()));
        faces.push(F::I32(g.any_i32()));
        faces.push(F::I32(g.c.draw(2) as i32));
    }
    if g.m.ver.obj < 361 {
        t.extend(faces);
        t.push(by);
    } else {
        t.push(by);
        t.extend(faces);
    }
    t.push(F::I32(g.c.draw(2) as i32));
    let none = type_nm(g, "None");
    t.push(none);
    t.push(F::I32(g.c.draw(2) as i32));
    t.push(F::I32(g.pidx()));
}

/// length on disk of a field list
pub fn fields_len(g: &G, f: &[F]) -> usize {
    let mut e = Enc::new(&g.m.ver, &g.m.names);
    e.fields(f);
    e.o.len()
}

fn bytecode(g: &mut G, t: &mut Vec<F>) {
    if g.m.ver.minor < 16 || g.c.chance(1, 3) {
        // bytes which are kept as they are
        let b = if g.m.ver.minor < 16 { g.bytes(30) } else { vec![] };
        t.push(F::I32(b.len() as i32 * 2));
        t.push(F::I32(b.len() as i32));
        t.push(F::B(b));
        return;
    }
    let mut f = vec![];
    let mut mem = 0;
    g.rare = 60;
    let n = g.count(5);
    for _ in 0..n {
        f.push(F::Stmt);
        mem += crate::kismet::expr(g, &mut f, 0);
    }
    f.push(F::Stmt);
    f.push(F::U8(0x53));
    mem += 1;
    g.rare = 400;
    let len = fields_len(g, &f);
    t.push(F::I32(mem));
    t.push(F::I32(len as i32));
    t.extend(f);
}
