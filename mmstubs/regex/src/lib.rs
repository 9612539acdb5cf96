//! The real `regex`, searching on a thread of its own: its caches are pooled per
//! thread id and contain hash maps, so that searching on a simulated thread would
//! make that thread's later hash keys depend on what the process did before.
use std::ops::Deref;

pub use real::{escape, Captures, Error, Match};

#[derive(Clone, Debug)]
pub struct Regex(real::Regex);

fn aside<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    })
}

impl Regex {
    pub fn new(re: &str) -> Result<Regex, Error> {
        aside(|| real::Regex::new(re)).map(Regex)
    }
    pub fn is_match(&self, haystack: &str) -> bool {
        aside(|| self.0.is_match(haystack))
    }
    pub fn captures<'h>(&self, haystack: &'h str) -> Option<Captures<'h>> {
        aside(|| self.0.captures(haystack))
    }
    pub fn find<'h>(&self, haystack: &'h str) -> Option<Match<'h>> {
        aside(|| self.0.find(haystack))
    }
}

impl Deref for Regex {
    type Target = real::Regex;
    fn deref(&self) -> &real::Regex {
        &self.0
    }
}

impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
