//! Compares what the library shows of a loaded asset with the model it was loaded from.
use crate::model::*;
use crate::scen::LibAsset;
use simcore::{Outcome, Violation};
use unreal_asset::exports::properties::fproperty::{FGenericProperty, FProperty};
use unreal_asset::exports::properties::uproperty::{UGenericProperty, UProperty};
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::exports::struct_export::StructExport;
use unreal_asset::kismet::{KismetExpression, KismetExpressionDataTrait};
use unreal_asset::reader::archive_trait::ArchiveTrait;
use unreal_asset::exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset::properties::int_property::BytePropertyValue;
use unreal_asset::properties::soft_path_property::SoftObjectPathPropertyValue;
use unreal_asset::properties::str_property::TextHistoryType;
use unreal_asset::properties::{Property, PropertyDataTrait};
use unreal_asset::types::{fname::FName, PackageIndex};

/// walks the stored fields of an export
struct T<'a> {
    m: &'a Model,
    it: std::slice::Iter<'a, F>,
}
macro_rules! get {
    ($n:ident, $v:ident, $t:ty) => {
        fn $n(&mut self) -> $t {
            match self.it.next() {
                Some(F::$v(x)) => *x,
                x => panic!("model: {x:?} in {}", self.m.ver.label),
            }
        }
    };
}
impl T<'_> {
    get!(u8, U8, u8);
    get!(u16, U16, u16);
    get!(i32, I32, i32);
    get!(u32, U32, u32);
    get!(i64, I64, i64);
    get!(nm, Nm, Nm);
}

pub struct View<'a> {
    pub m: &'a Model,
    /// bytecode is parsed (the engine version is known and recent enough)
    pub code: bool,
}

type R = Result<(), String>;

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, expect: T) -> R {
    if got == expect {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, stored {expect:?}"))
    }
}

fn f32s(f: &[F]) -> Vec<u64> {
    f.iter()
        .map(|x| match x {
            F::Lw(v) => *v,
            F::F32(v) => (f32::from_bits(*v) as f64).to_bits(),
            _ => panic!("not a float"),
        })
        .collect()
}

impl<'a> View<'a> {
    pub fn nm(&self, what: &str, got: &FName, n: Nm) -> R {
        let c = got.get_owned_content();
        want(what, (c.as_str(), got.get_number()), (self.m.content(n), n.1))
    }
    fn onm(&self, what: &str, got: Option<&FName>, n: Option<Nm>) -> R {
        match (got, n) {
            (None, None) => Ok(()),
            (Some(g), Some(n)) => self.nm(what, g, n),
            (g, n) => Err(format!("{what}: got {g:?}, stored {n:?}")),
        }
    }
    pub fn prop(&self, p: &Property, x: &Prop) -> R {
        let label = self.m.content(x.name).to_owned();
        let r = (|| {
            self.nm("property name", &p.get_name(), x.name)?;
            want("duplication index", p.get_duplication_index(), x.dup)?;
            want("property guid", p.get_property_guid().map(|g| g.0), x.guid)?;
            self.val(p, &x.v, true)
        })();
        r.map_err(|e| format!("{label} ({}): {e}", type_name(&x.v)))
    }
    pub fn props(&self, p: &[Property], x: &[Prop]) -> R {
        want("number of properties", p.len(), x.len())?;
        for (p, x) in p.iter().zip(x) {
            self.prop(p, x)?;
        }
        Ok(())
    }
    fn sbody(&self, p: &Property, b: &SBody) -> R {
        let Property::StructProperty(s) = p else {
            return Err(format!("not a struct: {p:?}"));
        };
        match b {
            SBody::Props(x) => self.props(&s.value, x),
            SBody::Cust(c) => {
                want("values of a struct with its own layout", s.value.len(), 1)?;
                self.cust(&s.value[0], c)
            }
        }
    }
    fn cust(&self, p: &Property, c: &Cust) -> R {
        let of = |v: f64| v.to_bits();
        let r: R = match (c.ty.as_str(), p) {
            ("Vector", Property::VectorProperty(v)) => want("xyz", vec![of(v.value.x.0), of(v.value.y.0), of(v.value.z.0)], f32s(&c.f)),
            ("Rotator", Property::RotatorProperty(v)) => want("xyz", vec![of(v.value.x.0), of(v.value.y.0), of(v.value.z.0)], f32s(&c.f)),
            ("Vector2D", Property::Vector2DProperty(v)) => want("xy", vec![of(v.value.x.0), of(v.value.y.0)], f32s(&c.f)),
            ("Vector4", Property::Vector4Property(v)) => want("xyzw", vec![of(v.value.x.0), of(v.value.y.0), of(v.value.z.0), of(v.value.w.0)], f32s(&c.f)),
            ("Quat", Property::QuatProperty(v)) => want("xyzw", vec![of(v.value.x.0), of(v.value.y.0), of(v.value.z.0), of(v.value.w.0)], f32s(&c.f)),
            ("Plane", Property::PlaneProperty(v)) => want("xyzw", vec![of(v.value.x.0), of(v.value.y.0), of(v.value.z.0), of(v.value.w.0)], f32s(&c.f)),
            ("Box2D", Property::Box2DProperty(v)) => {
                let (a, b) = (&v.v1.value, &v.v2.value);
                want("corners", [a.x, a.y, b.x, b.y].iter().map(|x| of(x.0)).collect::<Vec<_>>(), f32s(&c.f[..4]))?;
                want("valid", vec![F::U8(v.is_valid as u8)], c.f[4..].to_vec())
            }
            ("IntPoint", Property::IntPointProperty(v)) => want("xy", vec![F::I32(v.value.x), F::I32(v.value.y)], c.f.clone()),
            ("Box", Property::BoxProperty(v)) => {
                let (a, b) = (&v.v1.value, &v.v2.value);
                want("corners", [a.x, a.y, a.z, b.x, b.y, b.z].iter().map(|x| of(x.0)).collect::<Vec<_>>(), f32s(&c.f[..6]))?;
                want("valid", vec![F::U8(v.is_valid as u8)], c.f[6..].to_vec())
            }
            ("Guid", Property::GuidProperty(v)) => want("guid", vec![F::G(v.value.0)], c.f.clone()),
            ("LinearColor", Property::LinearColorProperty(v)) => want("rgba", [v.color.r, v.color.g, v.color.b, v.color.a].iter().map(|x| of(x.0 as f64)).collect::<Vec<_>>(), f32s(&c.f)),
            ("Color", Property::ColorProperty(v)) => {
                let F::I32(x) = c.f[0] else { unreachable!() };
                // B, G, R, A on disk
                let b = x.to_le_bytes();
                want("bgra", [v.color.b, v.color.g, v.color.r, v.color.a], b)
            }
            ("Timespan", Property::TimeSpanProperty(v)) => want("ticks", vec![F::I64(v.ticks)], c.f.clone()),
            ("DateTime", Property::DateTimeProperty(v)) => want("ticks", vec![F::I64(v.ticks)], c.f.clone()),
            ("GameplayTagContainer", Property::GameplayTagContainerProperty(v)) => {
                want("number of tags", v.value.len(), c.f.len() - 1)?;
                for (t, f) in v.value.iter().zip(&c.f[1..]) {
                    let F::Nm(n) = f else { unreachable!() };
                    self.nm("tag", t, *n)?;
                }
                Ok(())
            }
            ("RichCurveKey", Property::RichCurveKeyProperty(v)) => {
                let g = vec![v.time, v.value, v.arrive_tangent, v.arrive_tangent_weight, v.leave_tangent, v.leave_tangent_weight];
                want("curve key", g.iter().map(|x| of(x.0 as f64)).collect::<Vec<_>>(), f32s(&c.f[3..]))
            }
            ("SoftObjectPath", Property::SoftObjectPathProperty(v)) => self.soft(&v.value, &c.f),
            ("SoftClassPath", Property::SoftClassPathProperty(v)) => self.soft(&v.value, &c.f),
            ("StringAssetReference", Property::StringAssetReferenceProperty(v)) => self.soft(&v.value, &c.f),
            ("SoftAssetPath", Property::SoftAssetPathProperty(v)) => self.soft(&v.value, &c.f),
            // the rest is compared through the bytes it is saved as
            ("Plane" | "Box2D" | "Vector" | "Rotator" | "Vector2D" | "Vector4" | "Quat" | "IntPoint" | "Box" | "Guid" | "LinearColor" | "Color" | "Timespan" | "DateTime" | "GameplayTagContainer" | "RichCurveKey" | "SoftObjectPath" | "SoftClassPath" | "StringAssetReference" | "SoftAssetPath", p) => Err(format!("unexpected variant {p:?}")),
            _ => Ok(()),
        };
        r.map_err(|e| format!("{}: {e}", c.ty))
    }
    fn soft(&self, v: &SoftObjectPathPropertyValue, f: &[F]) -> R {
        match v {
            SoftObjectPathPropertyValue::Old(s) => want("path", vec![F::S(s.clone())], f.to_vec()),
            SoftObjectPathPropertyValue::New(p) => {
                let names: Vec<Nm> = f.iter().filter_map(|x| if let F::Nm(n) = x { Some(*n) } else { None }).collect();
                let last = *names.last().ok_or("old path stored")?;
                self.onm("package name", p.asset_path.package_name.as_ref(), if names.len() == 2 { Some(names[0]) } else { None })?;
                self.nm("asset name", &p.asset_path.asset_name, last)?;
                want("sub path", Some(&F::S(p.sub_path_string.clone())), f.last())
            }
        }
    }
    fn val(&self, p: &Property, v: &Val, header: bool) -> R {
        match (v, p) {
            (Val::Bool(x), Property::BoolProperty(g)) => want("value", g.value, *x),
            (Val::I8(x), Property::Int8Property(g)) => want("value", g.value, *x),
            (Val::I16(x), Property::Int16Property(g)) => want("value", g.value, *x),
            (Val::I32(x), Property::IntProperty(g)) => want("value", g.value, *x),
            (Val::I64(x), Property::Int64Property(g)) => want("value", g.value, *x),
            (Val::U16(x), Property::UInt16Property(g)) => want("value", g.value, *x),
            (Val::U32(x), Property::UInt32Property(g)) => want("value", g.value, *x),
            (Val::U64(x), Property::UInt64Property(g)) => want("value", g.value, *x),
            (Val::F32(x), Property::FloatProperty(g)) => want("value", g.value.0.to_bits(), *x),
            (Val::F64(x), Property::DoubleProperty(g)) => want("value", g.value.0.to_bits(), *x),
            (Val::Name(x), Property::NameProperty(g)) => self.nm("value", &g.value, *x),
            (Val::Str(x), Property::StrProperty(g)) => want("value", &g.value, x),
            (Val::Text(fl, k), Property::TextProperty(g)) => {
                want("flags", g.flags, *fl)?;
                match k {
                    TextKind::None(s) => {
                        want("history", g.history_type == TextHistoryType::None, true)?;
                        want("culture invariant string", &g.culture_invariant_string, s)
                    }
                    TextKind::Base(a, b, c) => {
                        want("history", g.history_type == TextHistoryType::Base, true)?;
                        want("namespace, key, source", (&g.namespace, &g.value, &g.culture_invariant_string), (a, b, c))
                    }
                    TextKind::Table(n, s) => {
                        want("history", g.history_type == TextHistoryType::StringTableEntry, true)?;
                        self.onm("table", g.table_id.as_ref(), Some(*n))?;
                        want("key", &g.value, s)
                    }
                }
            }
            (Val::Object(x), Property::ObjectProperty(g)) => want("value", g.value.index, *x),
            (Val::AssetObject(x), Property::AssetObjectProperty(g)) => want("value", &g.value, x),
            (Val::Soft(pk, a, s), Property::SoftObjectProperty(g)) => {
                self.onm("package name", g.value.asset_path.package_name.as_ref(), *pk)?;
                self.nm("asset name", &g.value.asset_path.asset_name, *a)?;
                want("sub path", &g.value.sub_path_string, s)
            }
            (Val::Enum(t, x), Property::EnumProperty(g)) => {
                if header {
                    self.onm("enum type", g.enum_type.as_ref(), *t)?;
                }
                self.onm("value", g.value.as_ref(), Some(*x))
            }
            (Val::ByteU(t, x), Property::ByteProperty(g)) => {
                if header {
                    self.onm("enum type", g.enum_type.as_ref(), *t)?;
                }
                match &g.value {
                    BytePropertyValue::Byte(b) => want("value", *b, *x),
                    BytePropertyValue::FName(n) => Err(format!("name {n:?}, stored byte {x}")),
                }
            }
            (Val::ByteN(t, x), Property::ByteProperty(g)) => {
                if header {
                    self.onm("enum type", g.enum_type.as_ref(), *t)?;
                }
                match &g.value {
                    BytePropertyValue::Byte(b) => Err(format!("byte {b}, stored a name")),
                    BytePropertyValue::FName(n) => self.nm("value", n, *x),
                }
            }
            (Val::Array { inner, items }, Property::ArrayProperty(g)) => {
                want("item type", g.array_type.as_ref().map(|t| t.get_owned_content()), Some(inner.clone()))?;
                self.items(&g.value, items)
            }
            (Val::StructArray { items, .. }, Property::ArrayProperty(g)) => {
                want("number of items", g.value.len(), items.len())?;
                for (p, b) in g.value.iter().zip(items) {
                    self.sbody(p, b)?;
                }
                Ok(())
            }
            (Val::SVal(b), p) => self.sbody(p, b),
            (Val::Struct { sty, guid, body }, Property::StructProperty(g)) => {
                self.onm("struct type", g.struct_type.as_ref(), Some(*sty))?;
                if self.m.ver.obj >= 441 {
                    want("struct guid", g.struct_guid.map(|x| x.0), Some(*guid))?;
                }
                self.sbody(p, body)
            }
            (Val::Map { removed, items, .. }, Property::MapProperty(g)) => {
                want("number of entries", g.value.len(), items.len())?;
                for ((_, k, v), (mk, mv)) in g.value.iter().zip(items) {
                    self.val(k, mk, false)?;
                    self.val(v, mv, false)?;
                }
                let none = vec![];
                self.items(g.keys_to_remove.as_ref().unwrap_or(&none), removed)
            }
            (Val::Set { removed, items, .. }, Property::SetProperty(g)) => {
                self.items(&g.value.value, items)?;
                self.items(&g.removed_items.value, removed)
            }
            (Val::Delegate(o, n), Property::DelegateProperty(g)) => {
                want("object", g.value.object.index, *o)?;
                self.nm("delegate", &g.value.delegate, *n)
            }
            (Val::Multi(k, l), p) => {
                let g = match (k, p) {
                    (&"MulticastDelegateProperty", Property::MulticastDelegateProperty(g)) => &g.value,
                    (&"MulticastSparseDelegateProperty", Property::MulticastSparseDelegateProperty(g)) => &g.value,
                    (&"MulticastInlineDelegateProperty", Property::MulticastInlineDelegateProperty(g)) => &g.value,
                    _ => return Err(format!("unexpected variant {p:?}")),
                };
                want("number of delegates", g.len(), l.len())?;
                for (g, (o, n)) in g.iter().zip(l) {
                    want("object", g.object.index, *o)?;
                    self.nm("delegate", &g.delegate, *n)?;
                }
                Ok(())
            }
            (Val::Unknown(t, b), Property::UnknownProperty(g)) => {
                want("type", &g.serialized_type.get_owned_content(), t)?;
                want("bytes", &g.value, b)
            }
            (_, p) => Err(format!("unexpected variant {p:?}")),
        }
    }
    fn items(&self, p: &[Property], x: &[Val]) -> R {
        want("number of items", p.len(), x.len())?;
        for (p, x) in p.iter().zip(x) {
            self.val(p, x, false)?;
        }
        Ok(())
    }
    /// exports with fields of their own after the properties
    fn tail(&self, e: &Export<PackageIndex>, tail: &[F]) -> R {
        let mut t = T { m: self.m, it: tail.iter() };
        t.i32();
        match e {
            Export::PropertyExport(p) => return self.uproperty(&p.property, &mut t),
            Export::FunctionExport(x) => {
                self.structure(&x.struct_export, &mut t)?;
                want("function flags", x.function_flags.bits(), t.u32())
            }
            Export::UserDefinedStructExport(x) => {
                self.structure(&x.struct_export, &mut t)?;
                want("struct flags", x.flags.bits(), t.u32())?;
                match t.it.next() {
                    Some(F::Props(p)) => self.props(&x.default_struct_instance, p),
                    _ => panic!("model"),
                }
            }
            Export::ClassExport(x) => {
                self.structure(&x.struct_export, &mut t)?;
                want("number of functions", x.func_map.len() as i32, t.i32())?;
                for (_, n, i) in &x.func_map {
                    self.nm("function name", n, t.nm())?;
                    want("function", i.index, t.i32())?;
                }
                want("class flags", x.class_flags.bits(), t.u32())?;
                want("within", x.class_within.index, t.i32())?;
                self.nm("config name", &x.class_config_name, t.nm())?;
                if self.m.ver.obj >= 361 {
                    want("generated by", x.class_generated_by.index, t.i32())?;
                }
                want("number of interfaces", x.interfaces.len() as i32, t.i32())?;
                for i in &x.interfaces {
                    want("interface", (i.class.index, i.pointer_offset, i.implemented_by_k2), (t.i32(), t.i32(), t.i32() == 1))?;
                }
                if self.m.ver.obj < 361 {
                    want("generated by", x.class_generated_by.index, t.i32())?;
                }
                want("script order", x.deprecated_force_script_order, t.i32() == 1)?;
                t.nm();
                want("cooked", x.cooked, Some(t.i32() == 1))?;
                want("default object", x.class_default_object.index, t.i32())
            }
            _ => Err("loaded as another kind of export".into()),
        }
    }
    fn structure(&self, x: &StructExport<PackageIndex>, t: &mut T) -> R {
        if self.m.ver.framework < 29 {
            want("next", x.field.next.map(|i| i.index), Some(t.i32()))?;
        }
        want("super struct", x.super_struct.index, t.i32())?;
        want("number of children", x.children.len() as i32, t.i32())?;
        for c in &x.children {
            want("child", c.index, t.i32())?;
        }
        if self.m.ver.core >= 4 {
            want("number of properties", x.loaded_properties.len() as i32, t.i32())?;
            for p in &x.loaded_properties {
                self.fproperty(p, t)?;
            }
        }
        t.it.next();
        want("bytecode size", x.script_bytecode_size, t.i32())?;
        // the statements: what each is, and the value of the simplest
        let mut code = vec![];
        loop {
            match t.it.next().expect("model") {
                F::Mark => break,
                F::Stmt => {
                    let op = t.u8();
                    let value = if op == 0x1d { Some(t.u32() as i32) } else { None };
                    code.push((op, value));
                }
                _ => {}
            }
        }
        want("whether the bytecode is understood", x.script_bytecode.is_some(), self.code)?;
        if let Some(c) = &x.script_bytecode {
            let shown: Vec<_> = c
                .iter()
                .map(|e| match e {
                    KismetExpression::ExIntConst(v) => (0x1d, Some(v.value)),
                    e => (u8::from(e.get_token()), None),
                })
                .collect();
            want("statements", shown, code)?;
        }
        Ok(())
    }
    fn fproperty(&self, p: &FProperty, t: &mut T) -> R {
        let ty = t.nm();
        let ty = self.m.content(ty);
        let g = |g: &FGenericProperty, t: &mut T| -> R {
            self.nm("property name", &g.name, t.nm())?;
            want("flags", g.flags.bits(), t.u32())?;
            want("dimension", g.array_dim as i32, t.i32())?;
            want("element size", g.element_size, t.i32())?;
            want("property flags", g.property_flags.bits() as i64, t.i64())?;
            want("rep index", g.rep_index, t.u16())?;
            self.nm("rep notify", &g.rep_notify_func, t.nm())?;
            want("rep condition", g.blueprint_replication_condition as u8, t.u8())
        };
        let one = |x: &FGenericProperty, i: &PackageIndex, t: &mut T| -> R {
            g(x, t)?;
            want("index", i.index, t.i32())
        };
        match (ty, p) {
            ("BoolProperty", FProperty::FBoolProperty(x)) => {
                g(&x.generic_property, t)?;
                want("bool", [x.field_size, x.byte_offset, x.byte_mask, x.field_mask, x.native_bool as u8, x.value as u8], [t.u8(), t.u8(), t.u8(), t.u8(), t.u8(), t.u8()])
            }
            ("ByteProperty", FProperty::FByteProperty(x)) => one(&x.generic_property, &x.enum_value, t),
            ("DelegateProperty", FProperty::FDelegateProperty(x)) => one(&x.generic_property, &x.signature_function, t),
            ("InterfaceProperty", FProperty::FInterfaceProperty(x)) => one(&x.generic_property, &x.interface_class, t),
            ("ObjectProperty", FProperty::FObjectProperty(x)) => one(&x.generic_property, &x.property_class, t),
            ("StructProperty", FProperty::FStructProperty(x)) => one(&x.generic_property, &x.struct_value, t),
            ("SoftObjectProperty", FProperty::FSoftObjectProperty(x)) => one(&x.generic_property, &x.property_class, t),
            ("MulticastDelegateProperty", FProperty::FMulticastDelegateProperty(x)) => one(&x.generic_property, &x.signature_function, t),
            ("MulticastInlineDelegateProperty", FProperty::FMulticastInlineDelegateProperty(x)) => one(&x.generic_property, &x.signature_function, t),
            ("ClassProperty", FProperty::FClassProperty(x)) => {
                one(&x.generic_property, &x.property_class, t)?;
                want("meta class", x.meta_class.index, t.i32())
            }
            ("SoftClassProperty", FProperty::FSoftClassProperty(x)) => {
                one(&x.generic_property, &x.property_class, t)?;
                want("meta class", x.meta_class.index, t.i32())
            }
            ("EnumProperty", FProperty::FEnumProperty(x)) => {
                one(&x.generic_property, &x.enum_value, t)?;
                self.fproperty(&x.underlying_prop, t)
            }
            ("ArrayProperty", FProperty::FArrayProperty(x)) => {
                g(&x.generic_property, t)?;
                self.fproperty(&x.inner, t)
            }
            ("SetProperty", FProperty::FSetProperty(x)) => {
                g(&x.generic_property, t)?;
                self.fproperty(&x.element_prop, t)
            }
            ("MapProperty", FProperty::FMapProperty(x)) => {
                g(&x.generic_property, t)?;
                self.fproperty(&x.key_prop, t)?;
                self.fproperty(&x.value_prop, t)
            }
            ("IntProperty" | "FloatProperty" | "NameProperty" | "TextProperty", FProperty::FGenericProperty(x)) => {
                g(x, t)?;
                want("type", x.serialized_type.as_ref().map(|n| n.get_owned_content()), Some(ty.to_owned()))
            }
            _ => Err(format!("{ty} loaded as another kind of property: {p:?}")),
        }
    }
    fn uproperty(&self, p: &UProperty, t: &mut T) -> R {
        let g = |g: &UGenericProperty, t: &mut T| -> R {
            if self.m.ver.framework < 29 {
                want("next", g.u_field.next.map(|i| i.index), Some(t.i32()))?;
            }
            want("dimension", g.array_dim as i32, t.i32())?;
            want("property flags", g.property_flags.bits() as i64, t.i64())?;
            self.nm("rep notify", &g.rep_notify_func, t.nm())?;
            if self.m.ver.release >= 21 {
                want("rep condition", g.blueprint_replication_condition.map(|c| c as u8), Some(t.u8()))?;
            }
            Ok(())
        };
        macro_rules! with {
            ($x:expr, $($f:ident),*) => {{
                g(&$x.generic_property, t)?;
                $( want(stringify!($f), $x.$f.index, t.i32())?; )*
            }};
        }
        match p {
            UProperty::UBoolProperty(x) => {
                g(&x.generic_property, t)?;
                want("bool", (x.element_size, x.native_bool as u8), (t.u8(), t.u8()))?;
            }
            UProperty::UArrayProperty(x) => with!(x, inner),
            UProperty::USetProperty(x) => with!(x, element_prop),
            UProperty::UObjectProperty(x) => with!(x, property_class),
            UProperty::USoftObjectProperty(x) => with!(x, property_class),
            UProperty::ULazyObjectProperty(x) => with!(x, property_class),
            UProperty::UDelegateProperty(x) => with!(x, signature_function),
            UProperty::UMulticastDelegateProperty(x) => with!(x, signature_function),
            UProperty::UMulticastInlineDelegateProperty(x) => with!(x, signature_function),
            UProperty::UInterfaceProperty(x) => with!(x, interface_class),
            UProperty::UByteProperty(x) => with!(x, enum_value),
            UProperty::UStructProperty(x) => with!(x, struct_value),
            UProperty::UEnumProperty(x) => with!(x, value, underlying_prop),
            UProperty::UClassProperty(x) => with!(x, property_class, meta_class),
            UProperty::USoftClassProperty(x) => with!(x, property_class, meta_class),
            UProperty::UMapProperty(x) => with!(x, key_prop, value_prop),
            UProperty::UGenericProperty(x) => g(x, t)?,
            UProperty::UDoubleProperty(x) => with!(x,),
            UProperty::UFloatProperty(x) => with!(x,),
            UProperty::UIntProperty(x) => with!(x,),
            UProperty::UInt8Property(x) => with!(x,),
            UProperty::UInt16Property(x) => with!(x,),
            UProperty::UInt64Property(x) => with!(x,),
            UProperty::UUInt8Property(x) => with!(x,),
            UProperty::UUInt16Property(x) => with!(x,),
            UProperty::UUInt64Property(x) => with!(x,),
            UProperty::UNameProperty(x) => with!(x,),
            UProperty::UStrProperty(x) => with!(x,),
        }
        // everything that is stored is shown
        want("fields left over", t.it.len(), 0)
    }
    fn export(&self, e: &Export<PackageIndex>, x: &Exp) -> R {
        let v = &self.m.ver;
        let b = e.get_base_export();
        self.nm("object name", &b.object_name, x.name)?;
        want("class, super, outer", [b.class_index.index, b.super_index.index, b.outer_index.index], [x.class, x.sup, x.outer])?;
        if v.obj >= 508 {
            want("template", b.template_index.index, x.template)?;
        }
        want("object flags", b.object_flags.bits(), x.flags)?;
        want("load flags", [b.forced_export, b.not_for_client, b.not_for_server], x.b)?;
        want("package flags", b.package_flags, x.package_flags)?;
        want("not always loaded", b.not_always_loaded_for_editor_game, x.not_always)?;
        if v.ue5 < 1005 {
            want("package guid", b.package_guid.0, x.guid)?;
        }
        if v.obj >= 485 {
            want("is asset", b.is_asset, x.is_asset)?;
        }
        if self.m.split && v.obj >= 507 {
            let d = [&b.serialization_before_serialization_dependencies, &b.create_before_serialization_dependencies, &b.serialization_before_create_dependencies, &b.create_before_create_dependencies];
            for (d, x) in d.iter().zip(&x.deps) {
                want("dependencies", d.iter().map(|i| i.index).collect::<Vec<_>>(), x.clone())?;
            }
        }
        if let Some(ps) = x.body.props() {
            let n = e.get_normal_export().ok_or("not a normal export")?;
            self.props(&n.properties, ps)?;
        }
        let idx = |l: &[PackageIndex]| l.iter().map(|i| i.index).collect::<Vec<i32>>();
        match (&x.body, e) {
            (Body::Raw(d), Export::RawExport(r)) => want("raw data", &r.data, d),
            (Body::Normal { extras, .. }, Export::NormalExport(n)) => want("extra bytes", &n.extras, extras),
            (Body::DataTable { rows, extras, .. }, Export::DataTableExport(t)) => {
                want("number of rows", t.table.data.len(), rows.len())?;
                for (s, (n, b)) in t.table.data.iter().zip(rows) {
                    self.nm("row name", &s.name, *n)?;
                    self.sbody(&Property::StructProperty(s.clone()), b)?;
                }
                want("extra bytes", &t.normal_export.extras, extras)
            }
            (Body::StringTable { ns, rows, .. }, Export::StringTableExport(t)) => {
                want("namespace", &t.namespace, ns)?;
                let got: Vec<(Option<String>, Option<String>)> = t.table.iter().map(|(_, k, v)| (Some(k.clone()), v.clone())).collect();
                want("rows", &got, rows)
            }
            (Body::Enum { rows, form, .. }, Export::EnumExport(t)) => {
                want("number of values", t.value.names.len(), rows.len())?;
                for ((n, v), (mn, mv)) in t.value.names.iter().zip(rows) {
                    self.nm("enum value", n, *mn)?;
                    want("enum number", *v, *mv)?;
                }
                want("form", t.value.cpp_form as u8, *form)
            }
            (Body::Level { actors, url, options, port, valid, model, comps, idx: i3, .. }, Export::LevelExport(l)) => {
                want("actors", &idx(&l.actors), actors)?;
                want("url", [&l.url.protocol, &l.url.host, &l.url.map, &l.url.portal], [&url[0], &url[1], &url[2], &url[3]])?;
                want("options", &l.url.options, options)?;
                want("port, valid", (l.url.port, l.url.valid), (*port, *valid))?;
                want("model", l.model.index, *model)?;
                want("components", &idx(&l.model_components), comps)?;
                want("script, nav", [l.level_script.index, l.nav_list_start.index, l.nav_list_end.index], *i3)
            }
            (Body::World { idx: i, a, b, .. }, Export::WorldExport(w)) => {
                want("persistent level", w.persistent_level.index, *i)?;
                want("extra objects", &idx(&w.extra_objects), a)?;
                want("streaming levels", &idx(&w.streaming_levels), b)
            }
            (Body::Tail { tail, .. }, e) => self.tail(e, tail),
            (b, _) => Err(format!("loaded as another kind of export than {}", kind(b))),
        }
    }
}

fn kind(b: &Body) -> &'static str {
    match b {
        Body::Normal { .. } => "Normal",
        Body::DataTable { .. } => "DataTable",
        Body::StringTable { .. } => "StringTable",
        Body::Enum { .. } => "Enum",
        Body::Tail { .. } => "Struct",
        Body::Level { .. } => "Level",
        Body::World { .. } => "World",
        Body::Raw(_) => "Raw",
    }
}

/// everything the library shows equals the model
pub fn same_view(m: &Model, a: &LibAsset) -> Outcome {
    let v = View { m, code: a.get_engine_version() >= EngineVersion::VER_UE4_16 };
    let r = (|| -> Result<(), (String, String)> {
        let h = |e: String| ("header".to_owned(), e);
        want("folder", &a.folder_name, &m.folder).map_err(h)?;
        want("package guid", a.package_guid.0, m.guid).map_err(h)?;
        want("package flags", a.asset_data.summary.package_flags.bits(), m.flags).map_err(h)?;
        want("licensee version", a.asset_data.summary.file_licensee_version, m.licensee).map_err(h)?;
        want("object version", (a.asset_data.object_version as i32, a.asset_data.object_version_ue5 as i32), (m.ver.obj, m.ver.ue5)).map_err(h)?;
        want("package source", a.package_source, m.source).map_err(h)?;
        want("number of imports", a.imports.len(), m.imports.len()).map_err(h)?;
        {
            let names = a.get_name_map();
            let names = names.get_ref();
            want("names", names.get_name_map_index_list(), &m.names[..]).map_err(h)?;
        }
        for (k, (g, x)) in a.imports.iter().zip(&m.imports).enumerate() {
            (|| {
                v.nm("class package", &g.class_package, x.class_package)?;
                v.nm("class name", &g.class_name, x.class_name)?;
                v.nm("object name", &g.object_name, x.name)?;
                want("outer", g.outer_index.index, x.outer)?;
                if m.ver.ue5 >= 1003 {
                    want("optional", g.optional, x.optional)?;
                }
                Ok(())
            })()
            .map_err(|e: String| (format!("import {k}"), e))?;
            let gi = a.get_import(PackageIndex::new(-(k as i32) - 1));
            if gi.as_ref() != Some(g) {
                return Err(("import".into(), format!("import {k} is not found by its index")));
            }
        }
        want("number of exports", a.asset_data.exports.len(), m.exports.len()).map_err(h)?;
        for (k, (e, x)) in a.asset_data.exports.iter().zip(&m.exports).enumerate() {
            v.export(e, x).map_err(|e| (format!("export of class {}", crate::scen::class_name(m, k)), format!("export {k}: {e}")))?;
            if a.get_export(PackageIndex::new(k as i32 + 1)).map(|e| e.get_base_export() as *const _) != Some(e.get_base_export() as *const _) {
                return Err(("export".into(), format!("export {k} is not found by its index")));
            }
        }
        // indices of nothing
        let (ni, ne) = (m.imports.len() as i32, m.exports.len() as i32);
        for i in [0, ne + 1, ne + 2, i32::MAX, -1, -ni, i32::MIN + 1] {
            if (i <= 0 || i > ne) && a.get_export(PackageIndex::new(i)).is_some() {
                return Err(("export".into(), format!("there is an export with index {i}")));
            }
        }
        for i in [0, -ni - 1, -ni - 2, i32::MIN + 1, 1, ne] {
            if (i >= 0 || -i > ni) && a.get_import(PackageIndex::new(i)).is_some() {
                return Err(("import".into(), format!("there is an import with index {i}")));
            }
        }
        Ok(())
    })();
    r.map_err(|(w, e)| Violation::new(format!("shows-other-values:{w}"), e))
}
