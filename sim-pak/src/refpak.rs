//! Independent reference reader: decodes an archive from the published layout of
//! Unreal .pak v2..v9 without using any code of unreal_pak.
use sha1::{Digest, Sha1};
use std::collections::BTreeMap;
use std::io::Read;

pub struct RefPak {
    pub version: u32,
    pub mount: String,
    pub entries: BTreeMap<String, Vec<u8>>,
}

struct Cur<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.d.len() - self.p.min(self.d.len()) {
            return Err(format!("short read of {n} at {}", self.p));
        }
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn fstring(&mut self) -> Result<String, String> {
        let n = self.u32()? as i32;
        if n == 0 {
            return Ok(String::new());
        }
        if n < 0 {
            let n = -(n as i64) as usize;
            let b = self.take(n * 2)?;
            let mut u: Vec<u16> = b
                .chunks(2)
                .map(|c| u16::from_le_bytes([c[0], c[1]]))
                .collect();
            if u.pop() != Some(0) {
                return Err("wide terminator".into());
            }
            String::from_utf16(&u).map_err(|e| e.to_string())
        } else {
            let b = self.take(n as usize)?;
            if b[b.len() - 1] != 0 {
                return Err("terminator".into());
            }
            String::from_utf8(b[..b.len() - 1].to_vec()).map_err(|e| e.to_string())
        }
    }
}

#[derive(PartialEq, Debug)]
struct Rec {
    offset: u64,
    size: u64,
    usize_: u64,
    method: u32,
    hash: [u8; 20],
    blocks: Vec<(u64, u64)>,
    flags: u8,
    bs: u32,
}

fn rec(c: &mut Cur, v: u32) -> Result<Rec, String> {
    let offset = c.u64()?;
    let size = c.u64()?;
    let usize_ = c.u64()?;
    let method = c.u32()?;
    let hash = c.take(20)?.try_into().unwrap();
    let mut blocks = vec![];
    let (mut flags, mut bs) = (0, 0);
    if v >= 3 {
        if method != 0 {
            let n = c.u32()?;
            for _ in 0..n {
                blocks.push((c.u64()?, c.u64()?));
            }
        }
        flags = c.take(1)?[0];
        bs = c.u32()?;
    }
    Ok(Rec {
        offset,
        size,
        usize_,
        method,
        hash,
        blocks,
        flags,
        bs,
    })
}

pub fn parse(d: &[u8]) -> Result<RefPak, String> {
    parse_at(d, 0)
}

/// The same for a file which begins with a hole of `hole` bytes.
pub fn parse_at(d: &[u8], hole: u64) -> Result<RefPak, String> {
    let magic = [0xE1, 0x12, 0x6F, 0x5A];
    let mut at = None;
    for off in [0x2Cusize, 0xCC, 0xCD] {
        if d.len() >= off && d[d.len() - off..d.len() - off + 4] == magic {
            let p = d.len() - off;
            let v = u32::from_le_bytes(d[p + 4..p + 8].try_into().unwrap());
            let want = match v {
                1..=7 => 0x2C,
                8 => 0xCC,
                9 => 0xCD,
                _ => 0,
            };
            if want == off {
                at = Some((p, v));
            }
        }
    }
    let (p, v) = at.ok_or("no footer")?;
    let mut c = Cur { d, p: p + 8 };
    let ioff = c.u64()?.checked_sub(hole).ok_or("index in the hole")? as usize;
    let isz = c.u64()? as usize;
    let ihash: [u8; 20] = c.take(20)?.try_into().unwrap();
    let mut methods = vec![];
    if v == 9 {
        c.take(1)?;
    }
    if v >= 8 {
        for _ in 0..5 {
            let m = c.take(32)?;
            let e = m.iter().position(|b| *b == 0).unwrap_or(32);
            methods.push(String::from_utf8_lossy(&m[..e]).into_owned());
        }
    }
    if c.p != d.len() {
        return Err("trailing bytes after the footer".into());
    }
    // encryption guid and flag directly precede the magic; index precedes them
    let pre = match v {
        7.. => 17,
        4..=6 => 1,
        _ => 0,
    };
    if v >= 4 && d[p - 1] != 0 {
        return Err("index marked encrypted".into());
    }
    let iend = ioff.checked_add(isz).ok_or("index range")?;
    if iend != p - pre {
        return Err(format!("index range {ioff}+{isz} does not meet footer {}", p - pre));
    }
    let idx = &d[ioff..iend];
    let h: [u8; 20] = Sha1::digest(idx).into();
    if h != ihash {
        return Err("index hash mismatch".into());
    }
    let mut ic = Cur { d: idx, p: 0 };
    let mount = ic.fstring()?;
    let n = ic.u32()?;
    let mut entries = BTreeMap::new();
    for _ in 0..n {
        let name = ic.fstring()?;
        let r = rec(&mut ic, v)?;
        let mut dc = Cur {
            d,
            p: r.offset.checked_sub(hole).ok_or("record in the hole")? as usize,
        };
        let r2 = rec(&mut dc, v)?;
        if r2.offset != 0 {
            return Err(format!("{name}: in-place record offset {}", r2.offset));
        }
        if (Rec { offset: r.offset, ..r2 }) != r {
            return Err(format!("{name}: index record and in-place record differ"));
        }
        let hend = dc.p;
        let stored = dc.take(r.size as usize)?;
        if dc.p > ioff {
            return Err(format!("{name}: data overlaps the index"));
        }
        let h: [u8; 20] = Sha1::digest(stored).into();
        if h != r.hash {
            return Err(format!("{name}: data hash mismatch"));
        }
        let data = if r.method == 0 {
            if r.size != r.usize_ {
                return Err(format!("{name}: sizes differ uncompressed"));
            }
            stored.to_vec()
        } else {
            if v >= 8 {
                match methods.get(r.method as usize - 1) {
                    Some(m) if m == "Zlib" => {}
                    m => return Err(format!("{name}: method {:?}", m)),
                }
            } else if r.method != 1 {
                return Err(format!("{name}: method {}", r.method));
            }
            let base = if v >= 5 { r.offset } else { 0 };
            let mut out = vec![];
            let mut expect = hend as u64;
            for (k, (s, e)) in r.blocks.iter().enumerate() {
                let (Some(s), Some(e)) = ((s + base).checked_sub(hole), (e + base).checked_sub(hole)) else {
                    return Err(format!("{name}: block {k} in the hole"));
                };
                if s != expect || e < s || e as usize > d.len() {
                    return Err(format!("{name}: block {k} at {s}..{e}, expected start {expect}"));
                }
                expect = e;
                let before = out.len();
                flate2::read::ZlibDecoder::new(&d[s as usize..e as usize])
                    .read_to_end(&mut out)
                    .map_err(|e| format!("{name}: block {k}: {e}"))?;
                let got = (out.len() - before) as u64;
                let last = k + 1 == r.blocks.len();
                if got > r.bs as u64 || (!last && got != r.bs as u64) {
                    return Err(format!("{name}: block {k} holds {got}, block size {}", r.bs));
                }
            }
            if expect != hend as u64 + r.size {
                return Err(format!("{name}: blocks do not cover the data"));
            }
            out
        };
        if data.len() as u64 != r.usize_ {
            return Err(format!("{name}: uncompressed size field"));
        }
        if r.flags != 0 {
            return Err(format!("{name}: flags {}", r.flags));
        }
        if entries.insert(name.clone(), data).is_some() {
            return Err(format!("{name}: listed twice"));
        }
    }
    if ic.p != idx.len() {
        return Err("index has trailing bytes".into());
    }
    Ok(RefPak {
        version: v,
        mount,
        entries,
    })
}

// ---------------------------------------------------------------- reference writer

pub struct Foreign {
    /// 1..=11; 80 stands for 8A (UE 4.22)
    pub version: u32,
    pub mount: String,
    pub block_size: u32,
    /// name, data, compressed?, gap of unrelated bytes before the record
    pub files: Vec<(String, Vec<u8>, bool, usize)>,
    /// which of (offset, uncompressed size, size) use 64 bits in encoded records
    pub wide: u32,
    pub with_path_hash: bool,
    /// encryption key guid / methods slot used for Zlib (0..5)
    pub slot: usize,
    pub legacy_method: u32,
    /// the archive begins behind a hole of this many bytes
    pub base: u64,
}

fn fstr(o: &mut Vec<u8>, s: &str) {
    if s.is_ascii() {
        o.extend_from_slice(&(s.len() as u32 + 1).to_le_bytes());
        o.extend_from_slice(s.as_bytes());
        o.push(0);
    } else {
        let u: Vec<u16> = s.encode_utf16().collect();
        o.extend_from_slice(&(-(u.len() as i32) - 1).to_le_bytes());
        for c in u {
            o.extend_from_slice(&c.to_le_bytes());
        }
        o.extend_from_slice(&[0, 0]);
    }
}

struct W {
    offset: u64,
    size: u64,
    usz: u64,
    method: u32,
    hash: [u8; 20],
    blocks: Vec<(u64, u64)>,
    bs: u32,
}

fn put_rec(o: &mut Vec<u8>, v: u32, w: &W, offset: u64) {
    o.extend_from_slice(&offset.to_le_bytes());
    o.extend_from_slice(&w.size.to_le_bytes());
    o.extend_from_slice(&w.usz.to_le_bytes());
    o.extend_from_slice(&w.method.to_le_bytes());
    if v == 1 {
        o.extend_from_slice(&0x1122_3344_5566u64.to_le_bytes());
    }
    o.extend_from_slice(&w.hash);
    if v >= 3 {
        if w.method != 0 {
            o.extend_from_slice(&(w.blocks.len() as u32).to_le_bytes());
            for (s, e) in &w.blocks {
                o.extend_from_slice(&s.to_le_bytes());
                o.extend_from_slice(&e.to_le_bytes());
            }
        }
        o.push(0);
        o.extend_from_slice(&w.bs.to_le_bytes());
    }
}

/// Lay out an archive the way the engine does.
pub fn encode(f: &Foreign) -> Vec<u8> {
    use std::io::Write;
    let eight_a = f.version == 80;
    let v = if eight_a { 8 } else { f.version };
    let wide = if f.base > 0 { f.wide | 1 } else { f.wide };
    let mut o: Vec<u8> = vec![];
    let mut recs: Vec<(String, W)> = vec![];
    for (name, data, comp, gap) in &f.files {
        o.extend(std::iter::repeat(0xA5).take(*gap));
        let offset = f.base + o.len() as u64;
        let comp = *comp && v >= 3 && !data.is_empty();
        let mut stored = vec![];
        let mut blocks = vec![];
        let mut bs = 0;
        if comp {
            let chunks: Vec<&[u8]> = data.chunks(f.block_size as usize).collect();
            bs = if chunks.len() == 1 { data.len() as u32 } else { f.block_size };
            let hlen = 28 + 20 + 4 + 16 * chunks.len() as u64 + 5;
            let base = if v >= 5 { hlen } else { hlen + offset };
            for c in chunks {
                let s = stored.len() as u64;
                let mut z =
                    flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(6));
                z.write_all(c).unwrap();
                stored.extend(z.finish().unwrap());
                blocks.push((base + s, base + stored.len() as u64));
            }
        } else {
            stored = data.clone();
        }
        let method = if !comp {
            0
        } else if v >= 8 && !eight_a {
            f.slot as u32 + 1
        } else if eight_a {
            1
        } else {
            f.legacy_method
        };
        let w = W {
            offset,
            size: stored.len() as u64,
            usz: data.len() as u64,
            method,
            hash: Sha1::digest(&stored).into(),
            blocks,
            bs,
        };
        put_rec(&mut o, v, &w, 0);
        o.extend_from_slice(&stored);
        recs.push((name.clone(), w));
    }
    let ioff = f.base + o.len() as u64;
    let mut idx = vec![];
    fstr(&mut idx, &f.mount);
    idx.extend_from_slice(&(recs.len() as u32).to_le_bytes());
    let mut tail = vec![];
    if v < 10 {
        for (n, w) in &recs {
            fstr(&mut idx, n);
            put_rec(&mut idx, v, w, w.offset);
        }
    } else {
        idx.extend_from_slice(&77u64.to_le_bytes());
        // encoded records
        let mut enc: Vec<u8> = vec![];
        let mut pos = BTreeMap::new();
        for (n, w) in &recs {
            pos.insert(n.clone(), enc.len() as u32);
            let mut bits = 0u32;
            let shifted = w.bs >> 11;
            let big = w.bs != 0 && (shifted << 11 != w.bs || shifted >= 0x3f);
            bits |= if big { 0x3f } else { shifted };
            bits |= (w.blocks.len() as u32 & 0xffff) << 6;
            bits |= w.method << 23;
            for b in 0..3 {
                if wide >> b & 1 == 0 {
                    bits |= 1 << (31 - b);
                }
            }
            enc.extend_from_slice(&bits.to_le_bytes());
            if big {
                enc.extend_from_slice(&w.bs.to_le_bytes());
            }
            let put = |enc: &mut Vec<u8>, x: u64, b: u32| {
                if wide >> b & 1 == 0 {
                    enc.extend_from_slice(&(x as u32).to_le_bytes())
                } else {
                    enc.extend_from_slice(&x.to_le_bytes())
                }
            };
            put(&mut enc, w.offset, 0);
            put(&mut enc, w.usz, 1);
            if w.method != 0 {
                put(&mut enc, w.size, 2);
                if w.blocks.len() > 1 {
                    for (s, e) in &w.blocks {
                        enc.extend_from_slice(&((e - s) as u32).to_le_bytes());
                    }
                }
            }
        }
        // directory index
        let mut dirs: BTreeMap<String, Vec<(String, u32)>> = BTreeMap::new();
        for (n, _) in &recs {
            let (d, fnm) = match n.rfind('/') {
                Some(i) => (n[..i + 1].to_string(), n[i + 1..].to_string()),
                None => ("/".to_string(), n.clone()),
            };
            dirs.entry(d).or_default().push((fnm, pos[n]));
        }
        let mut fdi = vec![];
        fdi.extend_from_slice(&(dirs.len() as u32).to_le_bytes());
        for (d, fs) in &dirs {
            fstr(&mut fdi, d);
            fdi.extend_from_slice(&(fs.len() as u32).to_le_bytes());
            for (n, p) in fs {
                fstr(&mut fdi, n);
                fdi.extend_from_slice(&p.to_le_bytes());
            }
        }
        let phi = vec![0u8; 8];
        let rest = 4 + if f.with_path_hash { 36 } else { 0 } + 4 + 36 + 4 + enc.len() + 4;
        let after = ioff + idx.len() as u64 + rest as u64;
        if f.with_path_hash {
            idx.extend_from_slice(&1u32.to_le_bytes());
            idx.extend_from_slice(&after.to_le_bytes());
            idx.extend_from_slice(&(phi.len() as u64).to_le_bytes());
            idx.extend_from_slice(&Sha1::digest(&phi));
            tail.extend_from_slice(&phi);
        } else {
            idx.extend_from_slice(&0u32.to_le_bytes());
        }
        let fat = after + tail.len() as u64;
        idx.extend_from_slice(&1u32.to_le_bytes());
        idx.extend_from_slice(&fat.to_le_bytes());
        idx.extend_from_slice(&(fdi.len() as u64).to_le_bytes());
        idx.extend_from_slice(&Sha1::digest(&fdi));
        idx.extend_from_slice(&(enc.len() as u32).to_le_bytes());
        idx.extend_from_slice(&enc);
        idx.extend_from_slice(&0u32.to_le_bytes());
        tail.extend_from_slice(&fdi);
    }
    o.extend_from_slice(&idx);
    o.extend_from_slice(&tail);
    if v >= 7 {
        o.extend_from_slice(&[0u8; 16]);
    }
    if v >= 4 {
        o.push(0);
    }
    o.extend_from_slice(&[0xE1, 0x12, 0x6F, 0x5A]);
    o.extend_from_slice(&v.to_le_bytes());
    o.extend_from_slice(&ioff.to_le_bytes());
    o.extend_from_slice(&(idx.len() as u64).to_le_bytes());
    o.extend_from_slice(&Sha1::digest(&idx));
    if v == 9 {
        o.push(0);
    }
    if v >= 8 {
        for i in 0..if eight_a { 4 } else { 5 } {
            let mut m = [0u8; 32];
            if i == f.slot {
                m[..4].copy_from_slice(b"Zlib");
            } else if i < f.slot {
                m[..5].copy_from_slice(b"Oodle");
            }
            o.extend_from_slice(&m);
        }
    }
    o
}
