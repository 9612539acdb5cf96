//! Loading and saving with faults at any I/O operation.
use crate::gen::{self, Flavor};
use crate::model::*;
use crate::scen::{load, same_files, LibAsset};
use simcore::stream::{Fault, SimFile};
use simcore::{Ctx, Outcome, Violation};
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_asset::containers::Chain;
use unreal_asset::Asset;

/// Any history of reads and seeks on the chained pair is the history on the concatenated file.
pub fn chain_history(ctx: &mut Ctx) -> Outcome {
    let la = ctx.draw(40) as usize;
    let lb = ctx.draw(40) as usize;
    let a: Vec<u8> = (0..la).map(|i| i as u8).collect();
    let b: Vec<u8> = (0..lb).map(|i| 128 + i as u8).collect();
    let two = ctx.chance(4, 5);
    let mut whole = a.clone();
    if two {
        whole.extend_from_slice(&b);
    }
    let fa = SimFile::new(a);
    let fb = SimFile::new(b);
    fa.disturb(ctx);
    fb.disturb(ctx);
    let faulty = ctx.chance(1, 2);
    if faulty {
        for _ in 0..ctx.range(1, 4) {
            let f = if ctx.chance(1, 2) { &fa } else { &fb };
            f.at(ctx.draw(30), Fault::Eio);
        }
    }
    // the files need not be at their start when they are handed over
    let mut ha = fa.reopen();
    let mut hb = fb.reopen();
    if ctx.chance(1, 2) {
        let _ = ha.seek(SeekFrom::Start(ctx.draw(20)));
        let _ = hb.seek(SeekFrom::Start(ctx.draw(20)));
    }
    let mut chain = Chain::new(ha, two.then_some(hb));
    let mut pos: u64 = 0;
    let mut lost = false;
    let total = whole.len() as u64;
    for _ in 0..ctx.range(1, 24) {
        let kind = if lost { 0 } else { ctx.draw(6) };
        match kind {
            0 | 1 => {
                let (to, target) = match if lost { 0 } else { ctx.draw(3) } {
                    0 => {
                        let p = ctx.draw(total + 6);
                        (SeekFrom::Start(p), p as i64)
                    }
                    1 => {
                        let d = ctx.draw(total + 6) as i64 - total as i64 - 2;
                        (SeekFrom::End(d), total as i64 + d)
                    }
                    _ => {
                        let d = ctx.draw(2 * total + 6) as i64 - total as i64 - 2;
                        (SeekFrom::Current(d), pos as i64 + d)
                    }
                };
                ctx.event(format!("seek {to:?}"));
                match chain.seek(to) {
                    Ok(p) => {
                        ctx.check();
                        if target < 0 || p != target as u64 {
                            return Err(Violation::new("chain-seek", format!("{to:?} at {pos} of {total} returned {p}")));
                        }
                        pos = p;
                        lost = false;
                    }
                    Err(e) => {
                        if target >= 0 && e.to_string().find("simulated").is_none() {
                            return Err(Violation::new("chain-seek-failed", format!("{to:?} at {pos} of {total}: {e}")));
                        }
                        // a refused seek stays where it was; after an I/O error anything goes
                        lost = target >= 0;
                    }
                }
            }
            2 => {
                let p = match chain.stream_position() {
                    Ok(p) => p,
                    Err(e) if e.to_string().contains("simulated") => {
                        lost = true;
                        continue;
                    }
                    Err(e) => return Err(Violation::new("chain-position", format!("{e}"))),
                };
                ctx.check();
                if p != pos {
                    return Err(Violation::new("chain-position", format!("position {p} should be {pos}")));
                }
            }
            3 => {
                let n = ctx.draw(24) as usize;
                let mut buf = vec![0xeeu8; n];
                ctx.event(format!("read {n} at {pos}"));
                let rest = whole.get(pos as usize..).unwrap_or(&[]);
                match chain.read(&mut buf) {
                    Ok(k) => {
                        ctx.check();
                        if k > n || k > rest.len() || buf[..k] != rest[..k] || (k == 0 && n > 0 && !rest.is_empty()) {
                            return Err(Violation::new("chain-read", format!("read({n}) at {pos} of {total} gave {k}: {:02x?}, the file has {:02x?}", &buf[..k.min(n)], &rest[..n.min(rest.len())])));
                        }
                        pos += k as u64;
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(e) if e.to_string().contains("simulated") => lost = true,
                    Err(e) => return Err(Violation::new("chain-read-failed", format!("read({n}) at {pos}: {e}"))),
                }
            }
            _ => {
                let n = ctx.draw(24) as usize;
                let mut buf = vec![0xeeu8; n];
                ctx.event(format!("read_exact {n} at {pos}"));
                let mut c = Cursor::new(&whole);
                c.set_position(pos);
                let mut want = vec![0u8; n];
                let ok = c.read_exact(&mut want).is_ok();
                match chain.read_exact(&mut buf) {
                    Ok(()) => {
                        ctx.check();
                        if !ok || buf != want {
                            return Err(Violation::new("chain-read", format!("read_exact({n}) at {pos} of {total} gave {buf:02x?}, the file has {want:02x?} (there: {ok})")));
                        }
                        pos += n as u64;
                    }
                    Err(e) => {
                        if ok && !e.to_string().contains("simulated") {
                            return Err(Violation::new("chain-read-failed", format!("read_exact({n}) at {pos}: {e}")));
                        }
                        lost = true;
                    }
                }
            }
        }
    }
    fa.drain(ctx);
    fb.drain(ctx);
    Ok(())
}

fn model(ctx: &mut Ctx) -> (Model, unreal_asset::engine_version::EngineVersion, Files) {
    let (m, eng) = gen::model(ctx, Flavor::Any);
    let f = encode(&m, &m.names);
    ctx.event(format!("{} split={} exports={} size={}", m.ver.label, m.split, m.exports.len(), f.uasset.len()));
    (m, eng, f)
}

fn save_clean(a: &LibAsset, split: bool) -> Result<(Vec<u8>, Option<Vec<u8>>), unreal_asset::Error> {
    let mut o = SimFile::new(vec![]);
    let mut ob = split.then(|| SimFile::new(vec![]));
    a.write_data(&mut o, ob.as_mut())?;
    Ok((o.content(), ob.map(|b| b.content())))
}

/// A failing, interrupted or shortened read at any operation: an error, or the same asset.
pub fn read_faults(ctx: &mut Ctx) -> Outcome {
    let (m, eng, f) = model(ctx);
    let open = || {
        let a = SimFile::new(f.uasset.clone());
        let b = f.uexp.clone().map(SimFile::new);
        (a, b)
    };
    // how many operations does an undisturbed load take?
    let (a, b) = open();
    load_from(&a, &b, eng).map_err(|e| Violation::new("load-failed", format!("{e}")))?;
    let (na, nb) = (a.ops(), b.as_ref().map_or(0, |b| b.ops()));
    // one EIO after the other, at a stretch of neighbouring operations
    if ctx.chance(1, 2) {
        let total = na + nb;
        let first = ctx.draw(total);
        let n = total.min(40);
        for k in (0..n).map(|i| (first + i) % total) {
            let (a, b) = open();
            if k < na {
                a.at(k, Fault::Eio);
            } else {
                b.as_ref().unwrap().at(k - na, Fault::Eio);
            }
            let r = load_from(&a, &b, eng);
            let errors = a.errors() + b.as_ref().map_or(0, |b| b.errors());
            ctx.fault("eio-sweep");
            ctx.check();
            match r {
                Err(e) if errors == 0 => return Err(Violation::new("error-without-fault", format!("{e}"))),
                Err(_) => {}
                Ok(x) => {
                    ctx.event(format!("EIO at operation {k} of {na}+{nb}"));
                    intact(&m, &f, &x)?;
                }
            }
        }
    }
    for _ in 0..2 {
        let (a, b) = open();
        let n = ctx.range(1, 2);
        for _ in 0..n {
            let k = ctx.draw(na + nb);
            let fault = match ctx.draw(8) {
                0..=4 => Fault::Eio,
                5 => Fault::Eintr,
                6 => Fault::Short(1 + ctx.draw(3) as usize),
                _ => Fault::Crash(0),
            };
            ctx.event(format!("{fault:?} at operation {k} of {na}+{nb}"));
            if k < na {
                a.at(k, fault);
            } else {
                b.as_ref().unwrap().at(k - na, fault);
            }
        }
        let r = load_from(&a, &b, eng);
        let errors = a.errors() + b.as_ref().map_or(0, |b| b.errors());
        a.drain(ctx);
        if let Some(b) = &b {
            b.drain(ctx);
        }
        ctx.check();
        match r {
            Err(e) => {
                if errors == 0 {
                    return Err(Violation::new("error-without-fault", format!("{e}")));
                }
            }
            Ok(x) => intact(&m, &f, &x)?,
        }
    }
    Ok(())
}

/// what was loaded in spite of a fault is the whole asset
fn intact(m: &Model, f: &Files, x: &LibAsset) -> Outcome {
    crate::view::same_view(m, x).map_err(|v| Violation::new(format!("read-error-swallowed:{}", v.class), v.detail))?;
    let (o, ob) = save_clean(x, m.split).map_err(|e| Violation::new("read-error-swallowed:save-failed", format!("{e}")))?;
    same_files(m, f, &o, ob).map_err(|v| Violation::new(format!("read-error-swallowed:{}", v.class), v.detail))
}

fn load_from(a: &SimFile, b: &Option<SimFile>, eng: unreal_asset::engine_version::EngineVersion) -> Result<LibAsset, unreal_asset::Error> {
    Asset::new(a.reopen(), b.as_ref().map(|b| b.reopen()), eng, None)
}

/// A failing write at any operation: save reports it; success means the whole file; a
/// later save of the same asset is complete.
pub fn write_faults(ctx: &mut Ctx) -> Outcome {
    let (m, eng, f) = model(ctx);
    let x = load(&f, eng).map_err(|e| Violation::new("load-failed", format!("{e}")))?;
    let o = SimFile::new(vec![]);
    let ob = m.split.then(|| SimFile::new(vec![]));
    x.write_data(&mut o.reopen(), ob.as_ref().map(|b| b.reopen()).as_mut()).map_err(|e| Violation::new("save-failed", format!("{e}")))?;
    let (na, nb) = (o.ops(), ob.as_ref().map_or(0, |b| b.ops()));
    // one EIO after the other, at a stretch of neighbouring operations
    if ctx.chance(1, 2) {
        let total = na + nb;
        let first = ctx.draw(total);
        let n = total.min(40);
        for k in (0..n).map(|i| (first + i) % total) {
            let o = SimFile::new(vec![]);
            let ob = m.split.then(|| SimFile::new(vec![]));
            if k < na {
                o.at(k, Fault::Eio);
            } else {
                ob.as_ref().unwrap().at(k - na, Fault::Eio);
            }
            let r = x.write_data(&mut o.reopen(), ob.as_ref().map(|b| b.reopen()).as_mut());
            let errors = o.errors() + ob.as_ref().map_or(0, |b| b.errors());
            ctx.fault("eio-sweep");
            ctx.check();
            match r {
                Ok(()) => {
                    ctx.event(format!("EIO at operation {k} of {na}+{nb}"));
                    same_files(&m, &f, &o.content(), ob.as_ref().map(|b| b.content())).map_err(|v| Violation::new(format!("success-but-{}", v.class), format!("{errors} errors were returned to the library; {}", v.detail)))?
                }
                Err(e) if errors == 0 => return Err(Violation::new("error-without-fault", format!("{e}"))),
                Err(_) => {}
            }
        }
    }
    for _ in 0..2 {
        let o = SimFile::new(vec![]);
        let ob = m.split.then(|| SimFile::new(vec![]));
        let kind = ctx.draw(10);
        let second = nb > 0 && ctx.chance(1, 2);
        let (file, n) = if second { (ob.as_ref().unwrap(), nb) } else { (&o, na) };
        let len = if second { f.uexp.as_ref().unwrap().len() } else { f.uasset.len() };
        if kind == 9 {
            let cap = ctx.draw(len as u64 + 1) as usize;
            ctx.event(format!("disk full at {cap} of {len}"));
            file.st.borrow_mut().capacity = Some(cap);
        } else {
            if kind == 8 {
                file.st.borrow_mut().chunker = Some((ctx.sub_prng(), 1 << 30));
                file.disturb(ctx);
            }
            let fault = match kind {
                0..=2 => Fault::Eio,
                3 => Fault::Eintr,
                4 => Fault::Short(1 + ctx.draw(3) as usize),
                5 => Fault::Zero,
                6 => Fault::Torn(ctx.draw(6) as usize),
                _ => Fault::Crash(ctx.draw(6) as usize),
            };
            let k = ctx.draw(n);
            ctx.event(format!("{fault:?} at operation {k} of {n}, second={second}"));
            file.at(k, fault);
        }
        let r = x.write_data(&mut o.reopen(), ob.as_ref().map(|b| b.reopen()).as_mut());
        let errors = o.errors() + ob.as_ref().map_or(0, |b| b.errors());
        o.drain(ctx);
        if let Some(b) = &ob {
            b.drain(ctx);
        }
        ctx.check();
        match r {
            Ok(()) => same_files(&m, &f, &o.content(), ob.as_ref().map(|b| b.content())).map_err(|v| Violation::new(format!("success-but-{}", v.class), format!("{errors} errors were returned to the library; {}", v.detail)))?,
            Err(e) if errors == 0 => return Err(Violation::new("error-without-fault", format!("{e}"))),
            Err(_) => {}
        }
        // the disk is back: the same asset can be saved after all, to fresh files or over the remains
        if ctx.chance(1, 3) {
            let (o, ob) = if ctx.chance(1, 2) {
                o.clear_faults();
                if let Some(b) = &ob {
                    b.clear_faults();
                }
                let mut o = o.reopen();
                let mut ob = ob.as_ref().map(|b| b.reopen());
                x.write_data(&mut o, ob.as_mut()).map_err(|e| Violation::new("save-failed", format!("after a failed save: {e}")))?;
                (o.content(), ob.map(|b| b.content()))
            } else {
                save_clean(&x, m.split).map_err(|e| Violation::new("save-failed", format!("after a failed save: {e}")))?
            };
            same_files(&m, &f, &o, ob)?;
        }
    }
    Ok(())
}

/// For bigger files the fixed bound of one allocation (256 MiB) would not be out of proportion:
/// a parsed expression or property takes up to 700 bytes for one in the file.
pub const BIG: usize = 150_000;

/// Cut off or damaged files: loading ends with an error or an asset, and what it loads as
/// can be looked at and saved again; no panic, no endless loop, no allocation far beyond the file.
pub fn damaged(ctx: &mut Ctx) -> Outcome {
    let (m, eng, f) = model(ctx);
    if f.uasset.len() + f.uexp.as_ref().map_or(0, |b| b.len()) > BIG {
        return Ok(());
    }
    if ctx.chance(1, 100) {
        nested(ctx, &m, eng);
    }
    for _ in 0..4 {
        let mut ua = f.uasset.clone();
        let mut ue = f.uexp.clone();
        for _ in 0..ctx.range(1, 3) {
            let second = ue.as_ref().is_some_and(|b| !b.is_empty()) && ctx.chance(1, 2);
            let v = if second { ue.as_mut().unwrap() } else { &mut ua };
            if v.is_empty() {
                continue;
            }
            damage(ctx, v, if second { " (second file)" } else { "" });
        }
        ctx.fault("damage");
        ctx.check();
        let files = Files { uasset: ua, uexp: ue, starts: vec![], missing: Default::default(), name_count_at: 0 };
        let r = load(&files, eng);
        if let Ok(x) = r {
            // whatever was accepted can be saved or refused
            let s = save_clean(&x, m.split);
            if s.is_ok() {
                ctx.probe("damaged-but-saved");
            }
        }
    }
    Ok(())
}

/// The content is nested far deeper than any compiler would do; the main thread has 8 MiB of stack.
fn nested(ctx: &mut Ctx, m: &Model, eng: unreal_asset::engine_version::EngineVersion) {
    let mut m = m.clone();
    let times = 1usize << ctx.range(6, 15);
    let name = m.intern("Inner");
    let array = m.intern("ArrayProperty");
    let Some(k) = (0..m.exports.len()).find(|k| m.exports[*k].body.props().is_some()) else { return };
    let kind = ctx.draw(3);
    match (kind, &mut m.exports[k].body) {
        (0, Body::Tail { tail, .. }) => {
            let Some(at) = tail.iter().position(|f| matches!(f, F::Mark)) else { return };
            // the sizes which precede it do not fit any more
            let op = *ctx.pick(&[0x04u8, 0x4f, 0x4e, 0x5d, 0x67]);
            let at = at + 1 + 2.min(tail.len() - at - 1);
            tail.insert(at, F::B(vec![op; times]));
        }
        (1, Body::Tail { tail, .. }) if m.ver.core >= 4 => {
            let Some(at) = tail.iter().position(|f| matches!(f, F::Mark)) else { return };
            let mut one = vec![F::Nm(array), F::Nm(name), F::U32(0), F::I32(1), F::I32(1), F::I64(0), F::U16(0), F::Nm(name), F::U8(0)];
            let all: Vec<F> = (0..times).flat_map(|_| one.clone()).collect();
            one.truncate(0);
            tail.splice(at..at, all);
            // counted as one more
            if let Some(F::I32(n)) = tail[..at].iter_mut().rev().find(|f| matches!(f, F::I32(0))) {
                *n = 1
            }
        }
        (_, body) => {
            let mut v = Val::I32(1);
            for _ in 0..times {
                v = Val::Struct { sty: name, guid: [0; 16], body: SBody::Props(vec![Prop { name, dup: 0, guid: None, v }]) };
            }
            body.props_mut().unwrap().push(Prop { name, dup: 0, guid: None, v });
        }
    }
    let f = encode(&m, &m.names);
    ctx.event(format!("nested {times} times, kind {kind}"));
    ctx.fault("deep-nesting");
    ctx.check();
    let split = m.split;
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let f = Files { starts: vec![], missing: Default::default(), name_count_at: 0, ..f };
            if let Ok(x) = load(&f, eng) {
                let _ = save_clean(&x, split);
            }
        })
        .unwrap()
        .join()
        .unwrap();
}

/// one piece of damage to a stored file
pub fn damage(ctx: &mut Ctx, v: &mut Vec<u8>, second: &str) {
    if v.is_empty() {
        return;
    }
    // most of the interesting fields are early on
    let len = v.len() as u64;
    let at = if ctx.chance(1, 2) { ctx.draw(len) } else { ctx.draw(len.min(400)) } as usize;
    let kind = if ctx.chance(1, 24) { 8 } else { ctx.draw(8) };
    match kind {
        8 => {
            // part of the file again and again
            let n = if ctx.chance(1, 3) { ctx.range(1, 4) } else { ctx.range(5, 120) } as usize;
            let part: Vec<u8> = v[at..(at + n).min(v.len())].to_vec();
            let times = 1usize << ctx.draw(15);
            let times = times.min(200_000 / part.len());
            ctx.event(format!("{} bytes at {at} repeated {times} times{second}", part.len()));
            let tail = v.split_off(at);
            for _ in 0..times {
                v.extend_from_slice(&part);
            }
            v.extend_from_slice(&tail);
        }
        0 => {
            ctx.event(format!("cut at {at} of {len}{second}"));
            v.truncate(at);
        }
        1 => {
            let b = ctx.draw(256) as u8;
            ctx.event(format!("byte {at} = {b}{second}"));
            v[at] = b;
        }
        2 => {
            let bit = ctx.draw(8);
            ctx.event(format!("bit {bit} of byte {at}{second}"));
            v[at] ^= 1 << bit;
        }
        3 => {
            // a lost sector
            let n = ctx.range(1, 64) as usize;
            ctx.event(format!("{n} bytes at {at} are zero{second}"));
            for x in v.iter_mut().skip(at).take(n) {
                *x = 0;
            }
        }
        _ => {
            let at = at & !if ctx.chance(1, 2) { 3 } else { 0 };
            let x: i32 = *ctx.pick(&[-1, i32::MIN, i32::MAX, 0x7fff_fff0, 0x4000_0000, 1 << 24, 65536, 256, 3, 2, 1, 0, -2, -3, -256]);
            ctx.event(format!("int at {at} = {x}{second}"));
            for (p, b) in v.iter_mut().skip(at).zip(x.to_le_bytes()) {
                *p = b;
            }
        }
    }
}
