//! Histories of edits: the same edits are made to the model and, through the library's API,
//! to the loaded asset; after every save the file has to be what the model stands for.
use crate::gen::{self, Flavor};
use crate::model::*;
use crate::scen::{load, same_files, LibAsset};
use simcore::stream::SimFile;
use simcore::{Ctx, Outcome, Violation};
use std::collections::HashMap;
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::flags::EFunctionFlags;
use unreal_asset::kismet::{EExprToken, ExIntConst, KismetExpression};
use unreal_asset::exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset::properties::{Property, PropertyDataTrait};
use unreal_asset::types::{fname::FName, PackageIndex};
use unreal_asset::{Guid, Import};

/// visits every name of a value
pub trait Names {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm));
}
impl Names for Nm {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        f(self)
    }
}
impl<T: Names> Names for Vec<T> {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        for x in self {
            x.names(f)
        }
    }
}
impl<T: Names> Names for Option<T> {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        if let Some(x) = self {
            x.names(f)
        }
    }
}
impl Names for F {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        match self {
            F::Nm(n) => f(n),
            F::Props(p) => p.names(f),
            _ => {}
        }
    }
}
impl Names for SBody {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        match self {
            SBody::Props(p) => p.names(f),
            SBody::Cust(c) => c.f.names(f),
        }
    }
}
impl Names for Val {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        match self {
            Val::Name(n) => f(n),
            Val::Text(_, TextKind::Table(n, _)) => f(n),
            Val::Soft(p, a, _) => {
                p.names(f);
                f(a)
            }
            Val::Enum(t, v) | Val::ByteN(t, v) => {
                t.names(f);
                f(v)
            }
            Val::ByteU(t, _) => t.names(f),
            Val::Array { items, .. } => items.names(f),
            Val::StructArray { name, sty, items, .. } => {
                f(name);
                f(sty);
                items.names(f)
            }
            Val::SVal(b) => b.names(f),
            Val::Struct { sty, body, .. } => {
                f(sty);
                body.names(f)
            }
            Val::Map { removed, items, .. } => {
                removed.names(f);
                for (k, v) in items {
                    k.names(f);
                    v.names(f);
                }
            }
            Val::Set { removed, items, .. } => {
                removed.names(f);
                items.names(f)
            }
            Val::Delegate(_, n) => f(n),
            Val::Multi(_, l) => {
                for (_, n) in l {
                    f(n)
                }
            }
            _ => {}
        }
    }
}
impl Names for Prop {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        f(&mut self.name);
        self.v.names(f)
    }
}
impl Names for Imp {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        f(&mut self.class_package);
        f(&mut self.class_name);
        f(&mut self.name);
    }
}
impl Names for Exp {
    fn names(&mut self, f: &mut dyn FnMut(&mut Nm)) {
        f(&mut self.name);
        if let Some(p) = self.body.props_mut() {
            p.names(f);
        }
        match &mut self.body {
            Body::DataTable { rows, .. } => {
                for (n, b) in rows {
                    f(n);
                    b.names(f);
                }
            }
            Body::Enum { rows, .. } => {
                for (n, _) in rows {
                    f(n);
                }
            }
            Body::Tail { tail, .. } => tail.names(f),
            _ => {}
        }
    }
}

/// moves a value from one name table to another, adding what is missing there
fn adopt<T: Names + Clone>(x: &T, from: &[String], to: &mut Vec<String>) -> T {
    let mut x = x.clone();
    x.names(&mut |n| {
        let s = &from[n.0 as usize];
        n.0 = match to.iter().position(|t| t == s) {
            Some(i) => i as i32,
            None => {
                to.push(s.clone());
                to.len() as i32 - 1
            }
        }
    });
    x
}

/// the name table of a saved file, read without the library
fn saved_names(m: &Model, file: &[u8], expect: &Files) -> Option<Vec<String>> {
    // the header has the same length whatever the table holds
    let mut at = expect.name_count_at;
    let i32_at = |p: usize| -> Option<i32> { Some(i32::from_le_bytes(file.get(p..p + 4)?.try_into().ok()?)) };
    let n = i32_at(at)?;
    at = i32_at(at + 4)? as usize;
    if n < 0 || n > 100_000 {
        return None;
    }
    let mut v = vec![];
    for _ in 0..n {
        let l = i32_at(at)?;
        at += 4;
        if l >= 0 {
            let b = file.get(at..at + (l as usize).max(1) - 1)?;
            v.push(String::from_utf8(b.to_vec()).ok()?);
            at += l as usize;
        } else {
            let l = l.unsigned_abs() as usize;
            let b = file.get(at..at + l * 2 - 2)?;
            let u: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            v.push(String::from_utf16(&u).ok()?);
            at += l * 2;
        }
        if m.ver.obj >= 504 {
            at += 4;
        }
    }
    Some(v)
}

struct St {
    m: Model,
    a: LibAsset,
    /// names the library may have in its table beyond the model's
    known: Vec<String>,
    foreign: bool,
    eng: EngineVersion,
}

const ROW: &str = "RowStruct";

impl St {
    fn fname(&mut self, s: &str, number: i32) -> (FName, Nm) {
        let mut n = self.m.intern(s);
        n.1 = number;
        // every way to get a name does the same
        let way = s.len() + self.m.names.len();
        let f = if number == 0 && way % 3 == 0 {
            self.a.add_fname(s)
        } else {
            if way % 3 == 1 {
                self.a.add_name_reference(s.to_owned(), false);
            }
            self.a.get_name_map().get_mut().add_fname_with_number(s, number)
        };
        (f, n)
    }
    /// what can be asked about the tables
    fn lookups(&self, ctx: &mut Ctx) -> Outcome {
        let ni = self.m.imports.len();
        let ne = self.m.exports.len();
        ctx.check();
        if ni > 0 {
            let want = &self.m.imports[ctx.draw(ni as u64) as usize];
            // the number of a name is not part of its content
            let mut ask = |n: Nm| FName::new_dummy(self.m.content(n).to_owned(), ctx.draw(2) as i32);
            let (p, c, o) = (ask(want.class_package), ask(want.class_name), ask(want.name));
            let alike = |i: &Imp| self.m.content(i.class_package) == self.m.content(want.class_package) && self.m.content(i.class_name) == self.m.content(want.class_name) && self.m.content(i.name) == self.m.content(want.name);
            let at = |k: Option<usize>| k.map(|k| -(k as i32) - 1);
            let first = at(self.m.imports.iter().position(|i| alike(i)));
            let exact = at(self.m.imports.iter().position(|i| alike(i) && i.outer == want.outer));
            let got = self.a.find_import_no_index(&p, &c, &o);
            if got != first {
                return Err(Violation::new("import-not-found", format!("find_import_no_index says {got:?} instead of {first:?}")));
            }
            let got = self.a.find_import(&p, &c, PackageIndex::new(want.outer), &o);
            if got != exact {
                return Err(Violation::new("import-not-found", format!("find_import says {got:?} instead of {exact:?}")));
            }
            let none = self.a.find_import(&p, &c, PackageIndex::new(i32::MAX), &o).or(self.a.find_import_no_index(&p, &c, &FName::new_dummy("Nowhere".into(), 0)));
            if none.is_some() {
                return Err(Violation::new("import-found", format!("an import which is not there is found at {none:?}")));
            }
        }
        let k = ctx.draw((ni + ne + 3) as u64) as i32 - ni as i32 - 1;
        let i = self.a.get_import(PackageIndex::new(k));
        let want = if k < 0 { self.m.imports.get((-k - 1) as usize) } else { None };
        if i.as_ref().map(|i| (i.object_name.get_owned_content(), i.object_name.get_number(), i.outer_index.index)) != want.map(|w| (self.m.content(w.name).to_owned(), w.name.1, w.outer)) {
            return Err(Violation::new("wrong-import", format!("import {k}: {i:?}")));
        }
        let e = self.a.get_export(PackageIndex::new(k));
        let want = if k > 0 { self.m.exports.get(k as usize - 1) } else { None };
        if e.map(|e| (e.get_base_export().object_name.get_owned_content(), e.get_base_export().class_index.index)) != want.map(|w| (self.m.content(w.name).to_owned(), w.class)) {
            return Err(Violation::new("wrong-export", format!("export {k}")));
        }
        let map = self.a.get_name_map();
        let list = map.get_ref().get_name_map_index_list().to_vec();
        if !list.is_empty() {
            let n = ctx.pick(&list).clone();
            let i = self.a.search_name_reference(&n);
            if i.map(|i| self.a.get_name_reference(i, |s| s.to_owned())).as_ref() != Some(&n) {
                return Err(Violation::new("name-not-found", format!("{n:?} is found at {i:?} of {list:?}")));
            }
            let other = format!("{n}{}", if ctx.chance(1, 2) { " " } else { "_x" });
            let i = self.a.search_name_reference(&other);
            if i.is_some() != list.contains(&other) {
                return Err(Violation::new("name-found", format!("{other:?} is found at {i:?} of {list:?}")));
            }
        }
        Ok(())
    }
    fn props(&mut self, k: usize) -> Option<(&mut Vec<Prop>, &mut Vec<Property>)> {
        let p = self.m.exports[k].body.props_mut()?;
        let l = &mut self.a.asset_data.exports[k].get_normal_export_mut()?.properties;
        Some((p, l))
    }
    /// exports which have properties
    fn with_props(m: &Model) -> Vec<usize> {
        (0..m.exports.len()).filter(|k| m.exports[*k].body.props().is_some()).collect()
    }

    /// save and compare; the table is whatever the library made of it, as long as it is right
    fn save(&mut self, ctx: &mut Ctx) -> Result<Files, Violation> {
        let before: Vec<String> = self.a.get_name_map().get_ref().get_name_map_index_list().to_vec();
        if self.foreign || ctx.chance(1, 3) {
            self.a.rebuild_name_map();
            self.foreign = false;
            ctx.event("rebuild_name_map");
        }
        let mut o = SimFile::new(vec![]);
        let mut ob = if self.m.split { Some(SimFile::new(vec![])) } else { None };
        o.disturb(ctx);
        self.a.write_data(&mut o, ob.as_mut()).map_err(|e| Violation::new("save-failed", format!("{e}")))?;
        o.drain(ctx);
        let mut m = self.m.clone();
        gen::collect_types(&mut m);
        let probe = encode(&m, &m.names);
        let file = o.content();
        let table = saved_names(&m, &file, &probe).ok_or_else(|| Violation::new("saved-name-table-unreadable", "the name table of the saved file cannot be parsed"))?;
        if table.len() < before.len() || table[..before.len()] != before[..] {
            return Err(Violation::new("saved-names-moved", format!("names before {before:?}, in the file {table:?}")));
        }
        let mut at: HashMap<&str, i32> = HashMap::new();
        let mine: std::collections::HashSet<&String> = m.names.iter().collect();
        for (k, n) in table.iter().enumerate() {
            if at.insert(n, k as i32).is_some() {
                return Err(Violation::new("saved-name-twice", format!("{n:?} is twice in {table:?}")));
            }
            if !mine.contains(n) && !self.known.contains(n) {
                return Err(Violation::new("saved-unknown-name", format!("{n:?} in {table:?}")));
            }
        }
        // the model with the library's choice of indices
        let names = m.names.clone();
        // a name which is not there only matters if the encoding asks for it
        let mut re = |n: &mut Nm| n.0 = at.get(names[n.0 as usize].as_str()).copied().unwrap_or(-1 - n.0);
        m.imports.names(&mut re);
        m.exports.names(&mut re);
        m.names = table;
        let f = encode(&m, &m.names);
        if let Some(n) = f.missing.iter().next() {
            return Err(Violation::new("saved-name-missing", format!("{n:?} is used but not in {:?} (before: {names:?})", m.names)));
        }
        ctx.check();
        same_files(&m, &f, &file, ob.map(|b| b.content()))?;
        // keep what is not written usable
        m.imports.names(&mut |n| n.0 = n.0.max(0));
        m.exports.names(&mut |n| n.0 = n.0.max(0));
        self.m = m;
        Ok(f)
    }

    fn reload(&mut self, f: &Files) -> Outcome {
        self.a = load(f, self.eng).map_err(|e| Violation::new("reload-failed", format!("{e}")))?;
        self.known.clear();
        let names = &self.m.names;
        self.m.zero_hash.retain(|n| names.contains(n));
        if let Some(d) = &mut self.m.depends {
            d.truncate(self.m.exports.len());
        }
        crate::view::same_view(&self.m, &self.a)
    }
}

pub fn edit_history(ctx: &mut Ctx) -> Outcome {
    let (m, eng) = gen::model(ctx, Flavor::Unique);
    let (mb, _) = gen::model_like(ctx, Flavor::Unique, Some(&m));
    let fa = encode(&m, &m.names);
    let fb = encode(&mb, &mb.names);
    ctx.event(format!("{} exports={} donor={}", m.ver.label, m.exports.len(), mb.exports.len()));
    let a = load(&fa, eng).map_err(|e| Violation::new("load-failed", format!("{e}")))?;
    let b = load(&fb, eng).map_err(|e| Violation::new("load-failed", format!("{e}")))?;
    let mut s = St { m, a, known: vec![], foreign: false, eng };
    let n = ctx.range(1, 8);
    for _ in 0..n {
        one_edit(ctx, &mut s, &mb, &b);
        if ctx.chance(1, 4) {
            s.lookups(ctx)?;
        }
        if ctx.chance(1, 4) {
            let f = s.save(ctx)?;
            ctx.event("saved");
            if ctx.chance(1, 2) {
                s.reload(&f)?;
                ctx.event("reloaded");
            }
        }
    }
    let f = s.save(ctx)?;
    s.reload(&f)
}

fn movable(m: &Model, p: &Prop) -> bool {
    m.content(p.name) != ROW
}

fn one_edit(ctx: &mut Ctx, s: &mut St, mb: &Model, b: &LibAsset) {
    let wp = St::with_props(&s.m);
    let kind = ctx.draw(18);
    match kind {
        // copy a property from the donor
        0..=2 => {
            let wb = St::with_props(mb);
            let (Some(_), Some(_)) = (wp.first(), wb.first()) else { return };
            let k = *ctx.pick(&wp);
            let j = *ctx.pick(&wb);
            let src = mb.exports[j].body.props().unwrap();
            let free: Vec<usize> = (0..src.len()).filter(|i| movable(mb, &src[*i])).collect();
            if free.is_empty() {
                return;
            }
            let i = *ctx.pick(&free);
            let p = adopt(&src[i], &mb.names, &mut s.m.names);
            let l = b.asset_data.exports[j].get_normal_export().unwrap().properties[i].clone();
            s.known.extend(mb.names.iter().cloned());
            s.foreign = true;
            let len = s.m.exports[k].body.props().unwrap().len();
            let at = ctx.draw(len as u64 + 1) as usize;
            ctx.event(format!("copy property {} of donor export {j} to export {k} at {at}", type_name(&p.v)));
            let (mp, lp) = s.props(k).unwrap();
            mp.insert(at, p);
            lp.insert(at, l);
        }
        3 => {
            // remove a property
            if wp.is_empty() {
                return;
            }
            let k = *ctx.pick(&wp);
            let src = s.m.exports[k].body.props().unwrap();
            let free: Vec<usize> = (0..src.len()).filter(|i| movable(&s.m, &src[*i])).collect();
            if free.is_empty() {
                return;
            }
            let i = *ctx.pick(&free);
            ctx.event(format!("remove property {i} of export {k}"));
            let (mp, lp) = s.props(k).unwrap();
            mp.remove(i);
            lp.remove(i);
        }
        4 => {
            // reorder properties, or copy one to another export
            if wp.is_empty() {
                return;
            }
            let k = *ctx.pick(&wp);
            let (mp, lp) = s.props(k).unwrap();
            if mp.is_empty() {
                return;
            }
            let i = ctx.draw(mp.len() as u64) as usize;
            let j = ctx.draw(mp.len() as u64) as usize;
            mp.swap(i, j);
            lp.swap(i, j);
            ctx.event(format!("swap properties {i} and {j} of export {k}"));
        }
        5..=7 => {
            // set values
            if wp.is_empty() {
                return;
            }
            let k = *ctx.pick(&wp);
            let word = format!("New{}", ctx.draw(6));
            let number = ctx.draw(3) as i32;
            let (f, n) = s.fname(&word, number);
            let x = ctx.draw(1 << 32);
            let (mp, lp) = s.props(k).unwrap();
            if mp.is_empty() {
                return;
            }
            let i = ctx.draw(mp.len() as u64) as usize;
            let what = set_deep(ctx, &mut mp[i], &mut lp[i], x, &f, n, &word);
            ctx.event(format!("set {what} in property {i} of export {k}"));
        }
        8 => {
            // rename a property or change its tag
            if wp.is_empty() {
                return;
            }
            let k = *ctx.pick(&wp);
            let (f, n) = s.fname(&format!("New{}", ctx.draw(6)), 0);
            let (m2, lp) = s.props(k).unwrap();
            let free: Vec<usize> = (0..m2.len()).filter(|i| !matches!(m2[*i].v, Val::Object(_) | Val::Map { .. } | Val::StructArray { .. })).collect();
            if free.is_empty() {
                return;
            }
            let i = *ctx.pick(&free);
            m2[i].name = n;
            *lp[i].get_name_mut() = f;
            ctx.event(format!("rename property {i} of export {k}"));
        }
        9 | 10 => {
            // copy an export with all imports of the donor
            let j = ctx.draw(mb.exports.len() as u64) as usize;
            let base = s.m.imports.len() as i32;
            for i in &mb.imports {
                let mut x = adopt(i, &mb.names, &mut s.m.names);
                if x.outer < 0 {
                    x.outer -= base;
                }
                s.m.imports.push(x);
            }
            for i in &b.imports {
                let mut x = i.clone();
                if x.outer_index.index < 0 {
                    x.outer_index = PackageIndex::new(x.outer_index.index - base);
                }
                s.a.add_import(x);
            }
            let mut e = adopt(&mb.exports[j], &mb.names, &mut s.m.names);
            let mut l = b.asset_data.exports[j].clone();
            if e.class < 0 {
                e.class -= base;
                l.get_base_export_mut().class_index = PackageIndex::new(e.class);
            }
            if let Body::DataTable { props, .. } = &mut e.body {
                let row = s.m.names.iter().position(|n| n == ROW).unwrap() as i32;
                let lp = &mut l.get_normal_export_mut().unwrap().properties;
                for (p, q) in props.iter_mut().zip(lp) {
                    if p.name.0 == row {
                        if let (Val::Object(x), Property::ObjectProperty(y)) = (&mut p.v, q) {
                            *x -= base;
                            y.value = PackageIndex::new(*x);
                        }
                    }
                }
            }
            ctx.event(format!("copy donor export {j} of class {}", crate::scen::class_name(mb, j)));
            s.known.extend(mb.names.iter().cloned());
            s.foreign = true;
            s.m.exports.push(e);
            s.a.asset_data.exports.push(l);
        }
        11 => {
            // new import
            let (cp, mcp) = s.fname("/Script/NewPackage", 0);
            let (cn, mcn) = s.fname("Package", 0);
            let number = ctx.draw(3) as i32;
            let word = format!("New{}", ctx.draw(6));
            let (on, mon) = s.fname(&word, number);
            let outer = ctx.draw(s.m.imports.len() as u64 + 1) as i32 * -1;
            let optional = ctx.chance(1, 3);
            let at = s.a.add_import(Import::new(cp, cn, PackageIndex::new(outer), on, optional));
            s.m.imports.push(Imp { class_package: mcp, class_name: mcn, outer, name: mon, optional });
            assert_eq!(at.index, -(s.m.imports.len() as i32), "add_import returned another index");
            ctx.event("new import");
        }
        12 => {
            // fields of the export map
            if s.m.exports.is_empty() {
                return;
            }
            let k = ctx.draw(s.m.exports.len() as u64) as usize;
            let (f, n) = s.fname(&format!("New{}", ctx.draw(6)), 1);
            let guid = ctx.draw(1 << 32) as u32;
            let x = &mut s.m.exports[k];
            let l = s.a.asset_data.exports[k].get_base_export_mut();
            match ctx.draw(6) {
                0 => {
                    x.name = n;
                    l.object_name = f;
                }
                1 => {
                    x.outer = -1;
                    l.outer_index = PackageIndex::new(-1);
                }
                2 => {
                    x.b[1] = !x.b[1];
                    l.not_for_client = x.b[1];
                }
                3 => {
                    x.guid = [guid as u8; 16];
                    l.package_guid = Guid::new(x.guid);
                }
                4 => {
                    x.is_asset = !x.is_asset;
                    l.is_asset = x.is_asset;
                    x.package_flags = guid;
                    l.package_flags = guid;
                }
                _ => {
                    if s.m.split {
                        let w = ctx.draw(4) as usize;
                        let d = match w {
                            0 => &mut l.serialization_before_serialization_dependencies,
                            1 => &mut l.create_before_serialization_dependencies,
                            2 => &mut l.serialization_before_create_dependencies,
                            _ => &mut l.create_before_create_dependencies,
                        };
                        if ctx.chance(1, 3) {
                            d.pop();
                            x.deps[w].pop();
                        } else {
                            d.push(PackageIndex::new(-1));
                            x.deps[w].push(-1);
                        }
                    }
                }
            }
            ctx.event(format!("fields of export {k}"));
        }
        13 => {
            // the last export is dropped
            if s.m.exports.len() > 1 {
                s.m.exports.pop();
                s.a.asset_data.exports.pop();
                ctx.event("drop last export");
            }
        }
        14 => {
            // header
            s.m.folder = format!("Folder{}", ctx.draw(1000));
            s.a.folder_name = s.m.folder.clone();
            s.m.guid = [ctx.draw(256) as u8; 16];
            s.a.package_guid = Guid::new(s.m.guid);
            s.m.source = ctx.draw(1 << 32) as u32;
            s.a.package_source = s.m.source;
            ctx.event("header fields");
        }
        15 => table_edit(ctx, s, mb, b),
        17 => tail_edit(ctx, s),
        _ => {
            // a name is changed for everything that uses it
            if s.foreign {
                return;
            }
            let free: Vec<usize> = (0..s.m.names.len()).filter(|i| gen::WORDS.contains(&s.m.names[*i].as_str()) || s.m.names[*i].starts_with("New")).collect();
            if free.is_empty() {
                return;
            }
            let i = *ctx.pick(&free);
            let mut nm = s.a.get_name_map();
            let Some(j) = nm.get_ref().get_name_map_index_list().iter().position(|n| *n == s.m.names[i]) else { return };
            let stem = if ctx.chance(1, 2) { "New" } else { "Renamed" };
            let word = (0..).map(|k| format!("{stem}{k}")).find(|w| !s.m.names.contains(w) && !s.known.contains(w)).unwrap();
            ctx.event(format!("name {:?} becomes {word}", s.m.names[i]));
            *nm.get_mut().get_name_reference_mut(j as i32) = word.clone();
            s.m.names[i] = word;
        }
    }
}

/// sets something somewhere below the property
fn set_deep(ctx: &mut Ctx, p: &mut Prop, l: &mut Property, x: u64, f: &FName, n: Nm, word: &str) -> &'static str {
    match (&mut p.v, l) {
        (Val::Bool(v), Property::BoolProperty(g)) => {
            *v = !*v;
            g.value = *v;
            "bool"
        }
        (Val::I32(v), Property::IntProperty(g)) => {
            *v = x as i32;
            g.value = x as i32;
            "int"
        }
        (Val::I8(v), Property::Int8Property(g)) => {
            *v = x as i8;
            g.value = *v;
            "int8"
        }
        (Val::I64(v), Property::Int64Property(g)) => {
            *v = -(x as i64);
            g.value = *v;
            "int64"
        }
        (Val::F32(v), Property::FloatProperty(g)) => {
            let q = x as u16 as f32 / 8.0;
            *v = q.to_bits();
            g.value.0 = q;
            "float"
        }
        (Val::Str(v), Property::StrProperty(g)) => {
            *v = Some(format!("ö{word}{x}"));
            g.value = v.clone();
            "str"
        }
        (Val::Name(v), Property::NameProperty(g)) => {
            *v = n;
            g.value = f.clone();
            "name"
        }
        (Val::Enum(_, v), Property::EnumProperty(g)) => {
            *v = n;
            g.value = Some(f.clone());
            "enum"
        }
        (Val::Text(_, TextKind::Base(a, b, c)), Property::TextProperty(g)) => {
            *a = Some(word.to_owned());
            *b = None;
            *c = Some(format!("日{x}"));
            g.namespace = a.clone();
            g.value = b.clone();
            g.culture_invariant_string = c.clone();
            "text"
        }
        (Val::Soft(_, v, t), Property::SoftObjectProperty(g)) => {
            *v = n;
            *t = Some(word.to_owned());
            g.value.asset_path.asset_name = f.clone();
            g.value.sub_path_string = t.clone();
            "soft object"
        }
        (Val::Struct { body, .. }, Property::StructProperty(g)) => set_sbody(ctx, body, &mut g.value, x, f, n, word),
        (Val::StructArray { items, .. }, Property::ArrayProperty(g)) if !items.is_empty() => {
            let i = ctx.draw(items.len() as u64) as usize;
            match ctx.draw(4) {
                0 if items.len() > 1 => {
                    items.remove(i);
                    g.value.remove(i);
                    "struct array (item removed)"
                }
                1 => {
                    let c = items[i].clone();
                    let d = g.value[i].clone();
                    items.push(c);
                    g.value.push(d);
                    "struct array (item duplicated)"
                }
                _ => {
                    let Property::StructProperty(q) = &mut g.value[i] else { return "nothing" };
                    set_sbody(ctx, &mut items[i], &mut q.value, x, f, n, word)
                }
            }
        }
        (Val::Array { items, .. }, Property::ArrayProperty(g)) if !items.is_empty() => {
            let i = ctx.draw(items.len() as u64) as usize;
            if ctx.chance(1, 2) {
                items.remove(i);
                g.value.remove(i);
                "array (item removed)"
            } else {
                let c = items[i].clone();
                let d = g.value[i].clone();
                items.insert(0, c);
                g.value.insert(0, d);
                "array (item duplicated)"
            }
        }
        (Val::Map { items, .. }, Property::MapProperty(g)) if !items.is_empty() => {
            // change a value in place, or remove an entry
            let i = ctx.draw(items.len() as u64) as usize;
            if ctx.chance(1, 3) {
                items.remove(i);
                let key = g.value.keys().nth(i).unwrap().clone();
                g.value.remove_by_key(&key);
                "map (entry removed)"
            } else {
                let (Val::I32(v), Some(Property::IntProperty(q))) = (&mut items[i].1, g.value.values_mut().nth(i)) else { return "nothing" };
                *v = x as i32;
                q.value = *v;
                "map value"
            }
        }
        (Val::Set { items, .. }, Property::SetProperty(g)) if !items.is_empty() => {
            items.pop();
            g.value.value.pop();
            "set (item removed)"
        }
        (Val::Multi(_, v), Property::MulticastDelegateProperty(g)) if !v.is_empty() => {
            v[0] = (1, n);
            g.value[0].object = PackageIndex::new(1);
            g.value[0].delegate = f.clone();
            "delegate"
        }
        _ => "nothing",
    }
}

fn set_sbody(ctx: &mut Ctx, b: &mut SBody, l: &mut Vec<Property>, x: u64, f: &FName, n: Nm, word: &str) -> &'static str {
    match b {
        SBody::Props(p) => {
            if p.is_empty() || p.len() != l.len() {
                return "nothing";
            }
            let i = ctx.draw(p.len() as u64) as usize;
            match ctx.draw(5) {
                0 => {
                    p.remove(i);
                    l.remove(i);
                    "struct (property removed)"
                }
                1 => {
                    let (a, b) = (p[i].clone(), l[i].clone());
                    p.push(a);
                    l.push(b);
                    "struct (property duplicated)"
                }
                _ => set_deep(ctx, &mut p[i], &mut l[i], x, f, n, word),
            }
        }
        SBody::Cust(c) => match (c.ty.as_str(), l.first_mut()) {
            ("Vector", Some(Property::VectorProperty(v))) => {
                let q = x as u16 as f64;
                c.f[1] = F::Lw(q.to_bits());
                v.value.y.0 = q;
                "vector"
            }
            ("GameplayTagContainer", Some(Property::GameplayTagContainerProperty(v))) => {
                c.f.push(F::Nm(n));
                c.f[0] = F::I32(c.f.len() as i32 - 1);
                v.value.push(f.clone());
                "tags"
            }
            ("Guid", Some(Property::GuidProperty(v))) => {
                c.f[0] = F::G([x as u8; 16]);
                v.value = Guid::new([x as u8; 16]);
                "guid"
            }
            _ => "nothing",
        },
    }
}

/// classes, functions and structs: what follows their properties
fn tail_edit(ctx: &mut Ctx, s: &mut St) {
    let ks: Vec<usize> = (0..s.m.exports.len()).filter(|k| matches!(s.m.exports[*k].body, Body::Tail { .. })).collect();
    if ks.is_empty() {
        return;
    }
    let k = *ctx.pick(&ks);
    let kind = ctx.draw(5);
    let x = ctx.draw(1000) as i32;
    let (f, n) = s.fname(&format!("New{}", x % 6), 7 + x);
    let fw = (s.m.ver.framework < 29) as usize;
    let Body::Tail { tail, .. } = &mut s.m.exports[k].body else { return };
    let e = &mut s.a.asset_data.exports[k];
    let st = match e {
        Export::FunctionExport(x) => &mut x.struct_export,
        Export::ClassExport(x) => &mut x.struct_export,
        Export::UserDefinedStructExport(x) => &mut x.struct_export,
        _ => return,
    };
    let marks: Vec<usize> = (0..tail.len()).filter(|i| matches!(tail[*i], F::Mark)).collect();
    let (m0, m1) = (marks[0], marks[1]);
    let bump = |f: &mut F, d: i32| match f {
        F::I32(v) => *v += d,
        _ => panic!("model"),
    };
    let what = match kind {
        0 => {
            let i = 1 + fw;
            tail[i] = F::I32(x % 3);
            st.super_struct = PackageIndex::new(x % 3);
            bump(&mut tail[i + 1], 1);
            tail.insert(i + 2, F::I32(x));
            st.children.insert(0, PackageIndex::new(x));
            "child added"
        }
        1 | 2 => {
            let Some(code) = &mut st.script_bytecode else { return };
            bump(&mut tail[m0 + 1], 5);
            bump(&mut tail[m0 + 2], 5);
            tail.insert(m0 + 3, F::U32(x as u32));
            tail.insert(m0 + 3, F::U8(0x1d));
            tail.insert(m0 + 3, F::Stmt);
            code.insert(0, KismetExpression::ExIntConst(ExIntConst { token: EExprToken::ExIntConst, value: x }));
            "bytecode added"
        }
        _ => match e {
            Export::FunctionExport(x) => {
                tail[m1 + 1] = F::U32(0x0400_0401);
                x.function_flags = EFunctionFlags::from_bits(0x0400_0401).unwrap();
                "function flags"
            }
            Export::ClassExport(c) if kind == 3 => {
                bump(&mut tail[m1 + 1], 1);
                let at = m1 + 2 + 2 * c.func_map.len();
                tail.insert(at, F::I32(x));
                tail.insert(at, F::Nm(n));
                if c.func_map.get_by_key(&f).is_some() {
                    // already there: set
                    tail.drain(at..at + 2);
                    bump(&mut tail[m1 + 1], -1);
                    return;
                }
                c.func_map.insert(f, PackageIndex::new(x));
                "function added"
            }
            Export::ClassExport(c) => {
                let l = tail.len() - 1;
                tail[l] = F::I32(x);
                c.class_default_object = PackageIndex::new(x);
                "default object"
            }
            _ => return,
        },
    };
    ctx.event(format!("{what} in export {k}"));
}

fn table_edit(ctx: &mut Ctx, s: &mut St, mb: &Model, b: &LibAsset) {
    let tables: Vec<usize> = (0..s.m.exports.len()).filter(|k| matches!(s.m.exports[*k].body, Body::DataTable { .. } | Body::StringTable { .. } | Body::Enum { .. } | Body::Level { .. })).collect();
    if tables.is_empty() {
        return;
    }
    let k = *ctx.pick(&tables);
    let word = format!("New{}", ctx.draw(6));
    let (f, n) = s.fname(&word, 2);
    let number = ctx.draw(200) as i64;
    let old_enums = s.m.ver.obj < 463;
    let what = match (&mut s.m.exports[k].body, &mut s.a.asset_data.exports[k]) {
        (Body::DataTable { rows, row, .. }, Export::DataTableExport(t)) => {
            // a row of a donor's table of the same kind
            let donors: Vec<usize> = (0..mb.exports.len()).filter(|j| matches!(&mb.exports[*j].body, Body::DataTable { row: r, rows, .. } if r == row && !rows.is_empty())).collect();
            if !donors.is_empty() && ctx.chance(2, 3) {
                let j = donors[ctx.draw(donors.len() as u64) as usize];
                let (Body::DataTable { rows: br, .. }, Export::DataTableExport(bt)) = (&mb.exports[j].body, &b.asset_data.exports[j]) else { return };
                let i = ctx.draw(br.len() as u64) as usize;
                rows.push((adopt(&br[i].0, &mb.names, &mut s.m.names), adopt(&br[i].1, &mb.names, &mut s.m.names)));
                t.table.data.push(bt.table.data[i].clone());
                s.known.extend(mb.names.iter().cloned());
                s.foreign = true;
                "row of the donor added"
            } else if !rows.is_empty() {
                let i = ctx.draw(rows.len() as u64) as usize;
                if ctx.chance(1, 2) {
                    rows.remove(i);
                    t.table.data.remove(i);
                    "row removed"
                } else {
                    rows[i].0 = n;
                    t.table.data[i].name = f;
                    "row renamed"
                }
            } else {
                "nothing"
            }
        }
        (Body::StringTable { rows, ns, .. }, Export::StringTableExport(t)) => match ctx.draw(3) {
            0 => {
                *ns = Some(word.clone());
                t.namespace = ns.clone();
                "namespace"
            }
            1 if !rows.is_empty() => {
                let i = ctx.draw(rows.len() as u64) as usize;
                let key = rows.remove(i).0.unwrap_or_default();
                t.table.remove_by_key(&key);
                "string removed"
            }
            _ => {
                let v = Some(format!("値{number}")).filter(|_| number != 1);
                let key = format!("key {word}");
                match rows.iter_mut().find(|r| r.0.as_deref() == Some(&key)) {
                    Some(r) => r.1 = v.clone(),
                    None => rows.push((Some(key.clone()), v.clone())),
                }
                match t.table.get_by_key_mut(&key) {
                    Some(x) => *x = v,
                    None => t.table.insert(key, v),
                }
                "string set"
            }
        },
        (Body::Enum { rows, .. }, Export::EnumExport(t)) => {
            // up to TIGHTLY_PACKED_ENUMS the position is the value
            let number = if old_enums { rows.len() as i64 } else { number };
            rows.push((n, number));
            t.value.names.push((f, number));
            "enum value added"
        }
        (Body::Level { actors, options, .. }, Export::LevelExport(t)) => {
            if !actors.is_empty() && ctx.chance(1, 3) {
                actors.remove(0);
                t.actors.remove(0);
                "actor removed"
            } else {
                actors.push(1);
                t.actors.push(PackageIndex::new(1));
                options.push(Some(word.clone()));
                t.url.options.push(Some(word));
                "actor added"
            }
        }
        _ => "nothing",
    };
    ctx.event(format!("{what} in export {k}"));
}
