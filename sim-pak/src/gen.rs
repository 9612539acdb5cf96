//! Workload generation: archives as a history of operations.
use simcore::{Ctx, Prng};
use unreal_pak::pakversion::PakVersion;

pub const VERSIONS: [PakVersion; 8] = [
    PakVersion::FnameBasedCompressionMethod,
    PakVersion::NoTimestamps,
    PakVersion::CompressionEncryption,
    PakVersion::IndexEncryption,
    PakVersion::RelativeChunkOffsets,
    PakVersion::DeleteRecords,
    PakVersion::EncryptionKeyGuid,
    PakVersion::FrozenIndex,
];

pub fn version(ctx: &mut Ctx) -> PakVersion {
    *ctx.pick(&VERSIONS)
}

pub fn block_size(ctx: &mut Ctx) -> u32 {
    *ctx.pick(&[0x010000u32, 64, 32, 100, 255, 256, 17, 4096, 1000, 1, 40000])
}

pub fn fill(p: &mut Prng, len: usize, style: u64) -> Vec<u8> {
    match style {
        0 => vec![b'a'; len],
        1 => (0..len).map(|_| p.next() as u8).collect(),
        2 => {
            // compressible text
            let words = [b"mesh ".as_slice(), b"actor ", b"/Game/", b"0.125,", b"\n"];
            let mut v = Vec::with_capacity(len + 8);
            while v.len() < len {
                v.extend_from_slice(words[p.below(5) as usize]);
            }
            v.truncate(len);
            v
        }
        3 => (0..len).map(|i| (i % 251) as u8).collect(),
        _ => {
            // runs of noise and zeroes
            let mut v = Vec::with_capacity(len);
            while v.len() < len {
                let n = 1 + p.below(300) as usize;
                if p.below(2) == 0 {
                    v.extend(std::iter::repeat(0).take(n));
                } else {
                    for _ in 0..n {
                        v.push(p.next() as u8);
                    }
                }
            }
            v.truncate(len);
            v
        }
    }
}

/// Entry payload; sizes cluster on the boundaries that matter (0, the 32-byte
/// compression threshold, multiples of the block size).
pub fn payload(ctx: &mut Ctx, bs: u32) -> Vec<u8> {
    let bs = bs as u64;
    let len = match ctx.draw(12) {
        0 => ctx.draw(4),
        1 => 30 + ctx.draw(5),
        2 => ctx.draw(80),
        3 => bs.min(70_000),
        4 => bs.min(70_000).saturating_sub(1),
        5 => (bs + 1).min(70_000),
        6 => (bs * (2 + ctx.draw(4))).min(90_000),
        7 => (bs * (1 + ctx.draw(5)) + ctx.draw(3)).min(90_000),
        8 => ctx.draw(5000),
        9 => ctx.draw(300),
        10 => 32 + ctx.draw(64),
        _ => {
            if ctx.chance(1, 6) {
                60_000 + ctx.draw(80_000)
            } else {
                ctx.draw(1000)
            }
        }
    };
    // a block size of one byte makes enormous block tables: keep them bounded
    let len = if bs < 16 { len.min(400) } else { len };
    let style = ctx.draw(5);
    let mut p = ctx.sub_prng();
    let mut d = fill(&mut p, len as usize, style);
    strip_magic(&mut d);
    d
}

/// Generated payloads never embed the archive magic (an archive nested inside an
/// archive and cut at exactly its end is indistinguishable from a whole file).
pub fn strip_magic(d: &mut [u8]) {
    for i in 3..d.len() {
        if d[i - 3..=i] == [0xE1, 0x12, 0x6F, 0x5A] {
            d[i] = 0;
        }
    }
}

pub fn name(ctx: &mut Ctx) -> String {
    let i = ctx.draw(24);
    match ctx.draw(10) {
        0 | 1 | 2 => format!("Content/f{i}.uasset"),
        3 => format!("f{i}"),
        4 => format!("Content/\u{43c}\u{430}\u{43f}/\u{e9}{i}.umap"),
        5 => format!("Content/\u{1F980}{i}.uexp"),
        6 => {
            if ctx.chance(1, 4) {
                String::new()
            } else {
                format!("a b/{i} .txt")
            }
        }
        7 => format!("{}{}", "d/".repeat(1 + ctx.draw(120) as usize), i),
        8 => format!("CONTENT/F{i}.UASSET"),
        _ => {
            // the library takes names as they are
            let odd = ["", "./", "../", "/", "Content//", "a\\b", " ", "e\u{301}/", "tab\t", "c:/", "Content/./", "nl\n"];
            let k = ctx.draw(odd.len() as u64 * 2) as usize;
            match odd.get(k) {
                Some(o) if ctx.chance(1, 2) => format!("{o}metadata{i}.json"),
                Some(o) => format!("metadata{i}{o}"),
                None => format!("metadata{i}.json"),
            }
        }
    }
}

pub fn mount(ctx: &mut Ctx) -> Option<String> {
    match ctx.draw(5) {
        0 | 1 => None,
        2 => Some(String::new()),
        3 => Some("../../../Astro/".into()),
        _ => Some("../../../\u{44f}\u{1F980}/".into()),
    }
}
