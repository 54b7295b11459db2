//! Small statistics. Streams are reproducible, so thresholds only have to be far out in the tail.

/// Standard normal score of a chi-square value (Wilson-Hilferty).
pub fn chi_z(x: f64, dof: f64) -> f64 {
    let a = 2.0 / (9.0 * dof);
    ((x / dof).powf(1.0 / 3.0) - (1.0 - a)) / a.sqrt()
}

pub fn chi_uniform(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    chi_z(x, counts.len() as f64 - 1.0)
}

/// Goodness of fit against probabilities; cells expected below 5 are pooled.
pub fn chi_fit(counts: &[u64], probs: &[f64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let mut x = 0.0;
    let mut dof = 0.0;
    let (mut pc, mut pe) = (0.0, 0.0);
    for (c, p) in counts.iter().zip(probs) {
        let e = p * n as f64;
        if e < 5.0 {
            pc += *c as f64;
            pe += e;
        } else {
            x += (*c as f64 - e).powi(2) / e;
            dof += 1.0;
        }
    }
    if pe >= 1.0 {
        x += (pc - pe).powi(2) / pe;
        dof += 1.0;
    }
    if dof < 2.0 {
        return 0.0;
    }
    chi_z(x, dof - 1.0)
}

/// Score of an observed proportion.
pub fn prop_z(k: u64, n: u64, p: f64) -> f64 {
    (k as f64 - n as f64 * p) / (n as f64 * p * (1.0 - p)).sqrt().max(1e-12)
}

pub const FAR: f64 = 7.0;
