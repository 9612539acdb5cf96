//! Seeded generator of blueprint bytecode: appends the on-disk fields of one
//! expression and returns the number of bytes it takes in memory.
use crate::gen::G;
use crate::model::*;

fn lw_size(g: &G) -> i32 {
    if g.m.ver.ue5 >= 1004 {
        8
    } else {
        4
    }
}
fn prop_ptr(g: &mut G, f: &mut Vec<F>) -> i32 {
    if g.m.ver.obj >= 518 {
        let n = g.count(3);
        f.push(F::I32(n as i32));
        for _ in 0..n {
            f.push(F::Nm(g.nm()));
        }
    }
    f.push(F::I32(g.pidx()));
    8
}
fn list(g: &mut G, f: &mut Vec<F>, end: u8, depth: u32, n: u64) -> i32 {
    let mut mem = 1;
    for _ in 0..n {
        mem += expr(g, f, depth + 1);
    }
    f.push(F::U8(end));
    mem
}
fn ascii(g: &mut G) -> String {
    format!("s{}{}", g.c.draw(1000), "k".repeat(g.count(1) as usize))
}

pub fn expr(g: &mut G, f: &mut Vec<F>, depth: u32) -> i32 {
    let simple: &[u8] = &[0x25, 0x0b, 0x17, 0x27, 0x28, 0x26, 0x2a, 0x2d, 0x1d, 0x1e, 0x1f, 0x34, 0x20, 0x21, 0x22, 0x23, 0x24, 0x2b, 0x2c, 0x35, 0x36, 0x00, 0x01, 0x02, 0x48, 0x06, 0x4c, 0x4b, 0x33, 0x4d, 0x15, 0x4a, 0x50, 0x5a, 0x5e, 0x37, 0x5b, 0x6c];
    let nested: &[u8] = &[0x04, 0x07, 0x0f, 0x14, 0x19, 0x1b, 0x1c, 0x2e, 0x2f, 0x31, 0x18, 0x13, 0x12, 0x1a, 0x38, 0x39, 0x3b, 0x3d, 0x3f, 0x42, 0x43, 0x44, 0x45, 0x46, 0x4e, 0x4f, 0x51, 0x52, 0x54, 0x55, 0x5c, 0x5d, 0x5f, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x29, 0x09, 0x6d];
    let t = if depth >= 3 || g.c.chance(1, 2) { simple[g.c.draw(simple.len() as u64) as usize] } else { nested[g.c.draw(nested.len() as u64) as usize] };
    f.push(F::U8(t));
    let body = match t {
        0x0b | 0x15 | 0x17 | 0x25..=0x28 | 0x2a | 0x2d | 0x4a | 0x4d | 0x50 | 0x5a | 0x5e => 0,
        0x37 => {
            f.push(F::I64(((g.any_u32() as u64) << 32 | g.any_u32() as u64) as i64 & 0x7fef_ffff_ffff_ffff));
            8
        }
        0x5b => {
            f.push(F::U32(g.any_u32()));
            4
        }
        0x00 | 0x01 | 0x02 | 0x48 | 0x33 | 0x6c => prop_ptr(g, f),
        0x1d => {
            f.push(F::U32(g.any_u32()));
            4
        }
        0x1e => {
            f.push(F::F32(0x3fc0_0000 + g.c.draw(256) as u32));
            4
        }
        0x1f => {
            let s = ascii(g);
            let n = s.len() as i32 + 1;
            let mut b = s.into_bytes();
            b.push(0);
            f.push(F::B(b));
            n
        }
        0x34 => {
            let s = format!("{}é日", ascii(g));
            let mut b = vec![];
            for c in s.encode_utf16() {
                b.extend(c.to_le_bytes());
            }
            b.extend([0, 0]);
            let n = b.len() as i32;
            f.push(F::B(b));
            n
        }
        0x20 => {
            f.push(F::I32(g.pidx()));
            8
        }
        0x21 | 0x4b => {
            f.push(F::Nm(g.nm()));
            12
        }
        0x22 | 0x23 => {
            for _ in 0..3 {
                let v = g.one_lw();
                f.push(v);
            }
            3 * lw_size(g)
        }
        0x2b => {
            for _ in 0..10 {
                let v = g.one_lw();
                f.push(v);
            }
            10 * lw_size(g)
        }
        0x24 | 0x2c => {
            f.push(F::U8(g.any_u32() as u8));
            1
        }
        0x35 | 0x36 => {
            f.push(F::I64(g.any_u32() as i64 * 77));
            8
        }
        0x06 | 0x4c => {
            f.push(F::U32(g.any_u32()));
            4
        }
        // one sub-expression
        0x04 | 0x4f | 0x4e | 0x51 | 0x5d | 0x67 | 0x6d => expr(g, f, depth + 1),
        // two sub-expressions
        0x14 | 0x43 | 0x44 | 0x5c | 0x5f | 0x60 | 0x62 | 0x6b => expr(g, f, depth + 1) + expr(g, f, depth + 1),
        0x07 | 0x18 => {
            f.push(F::U32(g.any_u32()));
            4 + expr(g, f, depth + 1)
        }
        0x09 => {
            f.push(F::U16(g.any_u32() as u16));
            f.push(F::U8(g.c.draw(2) as u8));
            3 + expr(g, f, depth + 1)
        }
        0x0f => prop_ptr(g, f) + expr(g, f, depth + 1) + expr(g, f, depth + 1),
        0x64 | 0x42 => prop_ptr(g, f) + expr(g, f, depth + 1),
        0x12 | 0x19 | 0x1a => {
            let a = expr(g, f, depth + 1);
            f.push(F::U32(g.any_u32()));
            a + 4 + prop_ptr(g, f) + expr(g, f, depth + 1)
        }
        0x1b | 0x45 => {
            f.push(F::Nm(g.nm()));
            let n = g.count(3);
            12 + list(g, f, 0x16, depth, n)
        }
        0x1c | 0x46 | 0x68 => {
            f.push(F::I32(g.pidx()));
            let n = g.count(3);
            8 + list(g, f, 0x16, depth, n)
        }
        0x63 => {
            f.push(F::I32(g.pidx()));
            let a = expr(g, f, depth + 1);
            let n = g.count(3);
            8 + a + list(g, f, 0x16, depth, n)
        }
        0x13 | 0x2e | 0x52 | 0x54 | 0x55 => {
            f.push(F::I32(g.pidx()));
            8 + expr(g, f, depth + 1)
        }
        0x2f => {
            f.push(F::I32(g.pidx()));
            f.push(F::I32(g.pidx()));
            let n = g.count(3);
            12 + list(g, f, 0x30, depth, n)
        }
        0x31 => {
            let a = expr(g, f, depth + 1);
            let n = g.count(3);
            a + list(g, f, 0x32, depth, n)
        }
        0x39 | 0x3b => {
            let a = expr(g, f, depth + 1);
            let n = g.count(3);
            f.push(F::I32(n as i32));
            4 + a + list(g, f, if t == 0x39 { 0x3a } else { 0x3c }, depth, n)
        }
        0x3d | 0x65 => {
            let a = prop_ptr(g, f);
            let n = g.count(3);
            f.push(F::I32(n as i32));
            4 + a + list(g, f, if t == 0x3d { 0x3e } else { 0x66 }, depth, n)
        }
        0x3f => {
            let a = prop_ptr(g, f) + prop_ptr(g, f);
            let n = g.count(3);
            f.push(F::I32(n as i32));
            4 + a + list(g, f, 0x40, depth, n)
        }
        0x38 => {
            f.push(F::U8(if g.m.ver.ue5 >= 1004 { g.c.draw(3) as u8 } else { 0x46 }));
            1 + expr(g, f, depth + 1)
        }
        0x61 => {
            f.push(F::Nm(g.nm()));
            12 + expr(g, f, depth + 1) + expr(g, f, depth + 1)
        }
        0x69 => {
            let n = g.count_to(3, 65535);
            f.push(F::U16(n as u16));
            f.push(F::U32(g.any_u32()));
            let mut mem = 6 + expr(g, f, depth + 1);
            for _ in 0..n {
                mem += expr(g, f, depth + 1);
                f.push(F::U32(g.any_u32()));
                mem += 4 + expr(g, f, depth + 1);
            }
            mem + expr(g, f, depth + 1)
        }
        0x6a => {
            // any instrumentation event but the inline one
            f.push(F::U8(0));
            1
        }
        0x29 => {
            let k = g.c.draw(5) as u8;
            f.push(F::U8(k));
            let n = [0, 3, 1, 1, 0][k as usize];
            let mut mem = 1;
            if k == 4 {
                f.push(F::I32(g.pidx()));
                mem += 8;
                mem += expr(g, f, depth + 1) + expr(g, f, depth + 1);
            }
            for _ in 0..n {
                mem += expr(g, f, depth + 1);
            }
            mem
        }
        _ => unreachable!(),
    };
    1 + body
}
