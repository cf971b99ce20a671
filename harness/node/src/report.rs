//! What a case saw, on its way back from the thread it ran on.
use std::collections::BTreeMap;
use vmon::Case;

#[derive(Default)]
pub struct Report {
    pub wrong: Vec<(String, String)>,
    pub events: BTreeMap<String, u64>,
    pub shapes: Vec<u64>,
    pub sample: Option<String>,
    pub evals: u64,
}
impl Report {
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok && self.wrong.iter().filter(|w| w.0 == sig).count() < 8 {
            self.wrong.push((sig.to_string(), detail()));
        }
        ok
    }
    pub fn event(&mut self, k: &str) {
        self.events(k, 1)
    }
    pub fn events(&mut self, k: &str, n: u64) {
        *self.events.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn give(self, c: &mut Case) {
        for (k, n) in &self.events {
            c.events(k, *n);
        }
        for s in &self.shapes {
            c.nontrivial(s);
        }
        c.eval(self.evals);
        if let Some(s) = self.sample {
            c.sample(|| s);
        }
        for (s, d) in self.wrong {
            c.violate(&s, d);
        }
    }
}
/// Runs a case where all that is random follows from it; what it found about `about` (prefixes) counts, and panics.
pub fn apart_for(c: &mut Case, about: &[&str], f: impl FnOnce(vmon::Rng, vmon::Tier) -> Report + Send) {
    let r = vmon::Rng::new(c.rng.u64());
    let s = c.rng.u64();
    let tier = c.tier;
    let mut rep = crate::rnd::apart(s, move || f(r, tier));
    rep.wrong.retain(|(k, _)| k == "panic" || about.iter().any(|p| k.starts_with(p)));
    rep.give(c);
}
