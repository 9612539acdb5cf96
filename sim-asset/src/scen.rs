use crate::gen::{self, Flavor};
use crate::model::*;
use simcore::stream::SimFile;
use simcore::{Ctx, Outcome, Violation};
use unreal_asset::asset_data::ExportReaderTrait;
use unreal_asset::exports::{Export, ExportBaseTrait};
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::types::PackageIndex;
use unreal_asset::Asset;

pub type LibAsset = Asset<SimFile>;

pub fn load(files: &Files, eng: EngineVersion) -> Result<LibAsset, unreal_asset::Error> {
    let a = SimFile::new(files.uasset.clone());
    let b = files.uexp.clone().map(SimFile::new);
    Asset::new(a, b, eng, None)
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} vs {}, first difference at {k} ({:02x?} vs {:02x?})", a.len(), b.len(), &a[k..a.len().min(k + 16)], &b[k..b.len().min(k + 16)])
}

pub fn roundtrip_generated(ctx: &mut Ctx) -> Outcome {
    let (m, eng) = gen::model(ctx, Flavor::Any);
    let f = encode(&m, &m.names);
    ctx.event(format!("{} versioned={} legacy={} exports={} size={}", m.ver.label, m.ver.versioned, m.legacy, m.exports.len(), f.uasset.len()));
    if std::env::var("DUMP").is_ok() {
        eprintln!("{m:#?}\nstarts {:?}", f.starts);
        std::fs::write("/tmp/dump.uasset", &f.uasset).unwrap();
    }
    let a = SimFile::new(f.uasset.clone());
    a.disturb(ctx);
    let b = f.uexp.clone().map(SimFile::new);
    if let Some(b) = &b {
        b.disturb(ctx);
    }
    let mut asset: LibAsset = Asset::new(a.reopen(), b.clone(), eng, None).map_err(|e| Violation::new("load-failed", format!("{e}")))?;
    a.drain(ctx);
    for (k, x) in m.exports.iter().enumerate() {
        let raw = matches!(asset.asset_data.exports[k], Export::RawExport(_));
        if raw != matches!(x.body, Body::Raw(_)) {
            let base = asset.asset_data.exports[k].get_base_export().clone();
            let end = f.starts.get(k + 1).copied().unwrap_or(f.uasset.len() + f.uexp.as_ref().map_or(0, |b| b.len()) - 4) as u64;
            let why = match asset.read_export_no_raw(base, end) {
                Ok(_) => "read past its end".to_owned(),
                Err(e) => format!("{e}"),
            };
            return Err(Violation::new("degraded-to-raw", format!("export {k} of class {} read as raw={raw}: {why}", class_name(&m, k))));
        }
    }
    crate::view::same_view(&m, &asset)?;
    let ne = m.exports.len() as i32;
    for i in [0, 1, ne, ne + 1, i32::MAX, -1] {
        let want = (1..=ne).contains(&i).then(|| asset.asset_data.exports[i as usize - 1].get_base_export().clone());
        let got = asset.get_export_mut(PackageIndex::new(i)).map(|e| e.get_base_export().clone());
        if got != want {
            return Err(Violation::new("wrong-export", format!("get_export_mut({i}) of {ne} gives another export")));
        }
    }
    let mut o = SimFile::new(vec![]);
    let mut ob = f.uexp.as_ref().map(|_| SimFile::new(vec![]));
    asset.write_data(&mut o, ob.as_mut()).map_err(|e| Violation::new("save-failed", format!("{e}")))?;
    ctx.check();
    same_files(&m, &f, &o.content(), ob.map(|b| b.content()))
}

/// the saved bytes have to be the expected ones
pub fn same_files(m: &Model, f: &Files, ua: &[u8], ue: Option<Vec<u8>>) -> Outcome {
    let join = |a: &[u8], b: &Option<Vec<u8>>| -> Vec<u8> {
        let mut v = a.to_vec();
        if let Some(b) = b {
            v.extend_from_slice(b);
        }
        v
    };
    let want = join(&f.uasset, &f.uexp);
    let got = join(ua, &ue);
    if want == got && ua.len() == f.uasset.len() {
        return Ok(());
    }
    // the first difference at or after the first export, if there is one, says most
    let base = f.starts.first().copied().unwrap_or(want.len());
    if ua.len() >= base.min(f.uasset.len()) && got.len() >= base {
        if let Some(k) = (base..want.len().min(got.len())).find(|k| want[*k] != got[*k]) {
            let e = f.starts.iter().rposition(|s| *s <= k).unwrap_or(0);
            let at = k - f.starts[e];
            let s = f.starts[e] + at.saturating_sub(24);
            return Err(Violation::new(
                format!("export-differs:{}", class_name(m, e)),
                format!("export {e} (size {} in all) at +{at}: from +{} want {:02x?} got {:02x?}", want.len(), s - f.starts[e], &want[s..want.len().min(k + 40)], &got[s..got.len().min(k + 40)]),
            ));
        }
    }
    Err(Violation::new("file-differs", first_diff(&want, &got)))
}

pub fn class_name(m: &Model, k: usize) -> &str {
    let c = m.exports[k].class;
    if c >= 0 {
        return "?";
    }
    m.content(m.imports[(-c - 1) as usize].name)
}
