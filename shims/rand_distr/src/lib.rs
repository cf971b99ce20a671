//! Stand-in for rand_distr 0.4 (tests only).
pub use rand::distributions::*;
#[derive(Clone, Copy, Debug)]
pub struct Normal {
    m: f64,
    s: f64,
}
impl Normal {
    pub fn new(m: f64, s: f64) -> Result<Normal, String> {
        Ok(Normal { m, s })
    }
}
impl Distribution<f64> for Normal {
    fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> f64 {
        let (a, b): (f64, f64) = (1.0 - r.gen::<f64>(), r.gen());
        self.m + self.s * (-2.0 * a.ln()).sqrt() * (std::f64::consts::TAU * b).cos()
    }
}
