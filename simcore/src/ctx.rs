use crate::choice::{mix, Choices, Prng};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identifier of what went wrong (no seeds, offsets or random data).
    pub class: String,
    pub detail: String,
}

impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Self {
        Violation {
            class: class.into(),
            detail: detail.into(),
        }
    }
}

pub type Outcome = Result<(), Violation>;

/// Everything one simulated run owns.
pub struct Ctx {
    pub choices: Choices,
    pub events: Vec<String>,
    digest: u64,
    /// fault kinds that actually fired
    pub faults: BTreeMap<String, u64>,
    /// "this rare condition was hit" counters
    pub probes: BTreeMap<String, u64>,
    /// checks the oracle actually evaluated
    pub checks: u64,
    /// simulated time, in simulated microseconds
    pub sim_us: u64,
    pub keep_events: bool,
    widened: bool,
}

impl Ctx {
    pub fn new(choices: Choices, keep_events: bool) -> Self {
        Ctx {
            choices,
            events: Vec::new(),
            digest: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            checks: 0,
            sim_us: 0,
            keep_events,
            widened: false,
        }
    }
    pub fn draw(&mut self, n: u64) -> u64 {
        self.choices.draw(n)
    }
    /// true with probability num/den; false is the simplest alternative
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.choices.draw(den);
        v >= den - num
    }
    /// lo..=hi, lo simplest
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.choices.draw(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.choices.draw(items.len() as u64) as usize;
        &items[i]
    }
    /// A derived generator for bulk data: one draw stands for all of it.
    pub fn sub_prng(&mut self) -> Prng {
        let v = self.choices.draw(1 << 32);
        Prng::new(mix(v, 0xdada))
    }
    /// Until `end_bulk`, one draw stands for all.
    pub fn begin_bulk(&mut self) {
        self.choices.begin_bulk()
    }
    pub fn end_bulk(&mut self) {
        self.widened = true;
        self.choices.end_bulk()
    }
    /// A size in 0..max, or now and then (one in `rare`) one around the powers of 2^8 and, up to
    /// `top`, 2^16 where a count which is kept in too few bytes wraps; the flag tells.
    pub fn size(&mut self, max: u64, rare: u64, top: u64) -> (u64, bool) {
        let v = self.choices.draw(max * rare);
        if v < max * (rare - 1) {
            return (v % max, false);
        }
        let near = if self.choices.draw(40) == 39 { 65535 } else { 255 };
        let n = near + self.choices.draw(3);
        (n.min(top), true)
    }
    /// How many of something, once per run possibly a size as of `size`; from there to `end_bulk`
    /// (after which there is none) one draw stands for all.
    pub fn many(&mut self, max: u64, top: u64) -> u64 {
        if self.widened {
            return self.draw(max);
        }
        let (n, wide) = self.size(max, 400, top);
        if wide {
            self.widened = true;
            self.probe(if n > 1000 { "wide-count-16" } else { "wide-count-8" });
            self.begin_bulk();
        }
        n
    }
    /// Event log of the run. Never draws and never reads a clock.
    pub fn event(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        self.digest = mix(self.digest, crate::choice::fnv(s.as_bytes()));
        if self.keep_events {
            if self.events.len() < 20_000 {
                self.events.push(s.to_owned());
            }
        }
    }
    pub fn fault(&mut self, kind: &str) {
        self.event(format!("FAULT {kind}"));
        *self.faults.entry(kind.to_owned()).or_default() += 1;
    }
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_owned()).or_default() += 1;
    }
    pub fn digest(&self) -> u64 {
        self.digest
    }
    pub fn check(&mut self) {
        self.checks += 1;
    }
}
