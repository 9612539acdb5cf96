//! One integer decides everything: every decision of a simulated run is a draw
//! from a single choice stream.  The stream is either produced by a PRNG seeded
//! with the run's seed, or replayed from a (possibly minimised) list of draws.

#[derive(Clone)]
pub struct Prng(u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(seed ^ 0x5851_F42D_4C95_7F2D)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.next() % n
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut p = Prng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(17));
    p.next() ^ p.next().rotate_left(23)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

enum Source {
    Seeded(Prng),
    Replay(Vec<u64>),
}

pub struct Choices {
    source: Source,
    pub log: Vec<u64>,
    /// while set, draws come from here and are not logged
    bulk: Option<Prng>,
    /// set only when re-running a seed that kills its process
    record: Option<std::fs::File>,
}

fn recorder() -> Option<std::fs::File> {
    std::env::var_os("SIM_RECORD").and_then(|p| std::fs::File::create(p).ok())
}

impl Choices {
    pub fn seeded(seed: u64) -> Self {
        Choices {
            source: Source::Seeded(Prng::new(seed)),
            log: Vec::new(),
            bulk: None,
            record: recorder(),
        }
    }
    pub fn replay(values: Vec<u64>) -> Self {
        Choices {
            source: Source::Replay(values),
            log: Vec::new(),
            bulk: None,
            record: recorder(),
        }
    }
    /// A value in 0..n. 0 is by convention the simplest alternative.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        if let Some(p) = &mut self.bulk {
            return p.below(n);
        }
        let pos = self.log.len();
        let v = match &mut self.source {
            Source::Seeded(p) => p.below(n),
            Source::Replay(vals) => vals.get(pos).copied().unwrap_or(0).min(n - 1),
        };
        self.log.push(v);
        if let Some(f) = &mut self.record {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    /// From here to `end_bulk` one draw stands for all of them.
    pub fn begin_bulk(&mut self) {
        if self.bulk.is_none() {
            let v = self.draw(1 << 32);
            self.bulk = Some(Prng::new(mix(v, 0xb01c)));
        }
    }
    pub fn end_bulk(&mut self) {
        self.bulk = None;
    }
}
