//! Randomness seam: `getrandom` is defined here, so std's hash keys and the
//! `rand` crate draw from a per-run deterministic stream.  Every run executes on
//! a fresh thread, so thread-local hash keys start from the same point.
use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def1) };
}

pub fn reseed(seed: u64) {
    STATE.with(|s| s.set(seed | 1));
}

/// # Safety
/// same contract as getrandom(2)
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let fill = |s: &Cell<u64>| {
        let mut i = 0;
        while i < len {
            let mut z = s.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
            s.set(z);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^= z >> 31;
            for b in z.to_le_bytes() {
                if i < len {
                    *buf.add(i) = b;
                    i += 1;
                }
            }
        }
    };
    if STATE.try_with(fill).is_err() {
        for i in 0..len {
            *buf.add(i) = 0x5a;
        }
    }
    len as isize
}
