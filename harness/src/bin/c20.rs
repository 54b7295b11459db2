//! C20: moves are sampled in proportion to their weight.
use die_e::alphazero::alphazero::AlphaZero;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tch::{Kind, Tensor};
use vh::runner::with_entropy;
use vh::stats::*;
use vh::{ensure, sut, Obs, Prop, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct W {
    w: Vec<f64>,
    double: bool,
    scale: i8,
}

fn weights() -> BoxedStrategy<Vec<f64>> {
    let one = prop_oneof![3 => Just(0.0f64), 3 => 0.001f64..1.0, 1 => 1e-9f64..1e-6, 1 => 1.0f64..50.0];
    let sparse = (1usize..1353, vec((any::<u16>(), 0.01f64..1.0), 1..8)).prop_map(|(n, e)| {
        let mut v = vec![0.0; n];
        for (i, x) in e {
            v[i as usize % n] = x;
        }
        v
    });
    let visits = vec(0u32..200, 2..30).prop_map(|v| {
        let t: u32 = v.iter().sum();
        v.iter().map(|x| *x as f64 / t.max(1) as f64).collect::<Vec<f64>>()
    });
    let one_hot = (1usize..60, any::<u16>(), 1e-6f64..10.0).prop_map(|(n, i, x)| {
        let mut v = vec![0.0; n];
        v[i as usize % n] = x;
        v
    });
    // weight on both ends of the two action spaces
    let ends = (prop_oneof![Just(9usize), Just(1352), 2usize..1353], vec((0usize..3, any::<bool>(), 0.01f64..1.0), 1..5)).prop_map(|(n, e)| {
        let mut v = vec![0.0; n];
        for (i, last, x) in e {
            let i = i.min(n - 1);
            v[if last { n - 1 - i } else { i }] = x;
        }
        v
    });
    prop_oneof![2 => vec(one, 1..12), 2 => sparse, 2 => visits, 1 => one_hot, 2 => ends]
        .prop_map(|mut v| {
            if v.iter().all(|x| *x == 0.0) {
                v[0] = 1.0;
            }
            v
        })
        .boxed()
}

fn tensor(w: &[f64], double: bool, factor: f64) -> (Tensor, Vec<f64>) {
    if double {
        let v: Vec<f64> = w.iter().map(|x| x * factor).collect();
        (Tensor::from_slice(&v).to_kind(Kind::Double), v)
    } else {
        let v: Vec<f32> = w.iter().map(|x| (*x as f32) * factor as f32).collect();
        (Tensor::from_slice(&v), v.iter().map(|x| *x as f64).collect())
    }
}

/// Draws from a fresh thread; also tells whether the weights were left as they were.
fn draw(seed: u64, w: &[f64], double: bool, factor: f64, n: usize) -> Res<(Vec<usize>, bool)> {
    with_entropy(seed, || {
        let (t, _) = tensor(w, double, factor);
        let mut v = vec![];
        for _ in 0..n {
            v.push(sut("weighted_select_tensor_idx", || AlphaZero::weighted_select_tensor_idx(&t))?);
        }
        Ok((v, t.equal(&tensor(w, double, factor).0)))
    })
}

fn proportions(c: &(W, u64), o: &mut Obs) -> Res {
    let (W { w, double, scale }, seed) = c;
    let (_, v) = tensor(w, *double, 1.0);
    let total: f64 = v.iter().sum();
    let n = if w.len() > 200 { 300 } else { 1500 };
    let (ks, kept) = draw(*seed, w, *double, 1.0, n)?;
    let mut counts = vec![0u64; w.len()];
    for k in &ks {
        ensure!(*k < w.len(), "range", "index {} of {} weights", k, w.len());
        ensure!(v[*k] > 0.0, "zero-weight", "index {} has weight {}: {:?}", k, v[*k], &v[..v.len().min(20)]);
        counts[*k] += 1;
        o.eval();
    }
    ensure!(kept, "weights-changed", "drawing changed the weights");
    for i in 0..w.len() {
        let p = v[i] / total;
        let e = p.min(1.0 - p) * n as f64;
        if e >= 5.0 {
            let z = prop_z(counts[i], n as u64, p).abs();
            ensure!(z < FAR, "proportion", "index {} with share {:.4} was drawn {} times of {} (score {:.1})", i, p, counts[i], n, z);
        }
    }
    let z = chi_fit(&counts, &v.iter().map(|x| x / total).collect::<Vec<_>>());
    ensure!(z < FAR, "proportion", "counts {:?} for weights {:?} (score {:.1})", &counts[..counts.len().min(20)], &v[..v.len().min(20)], z);
    let pos = v.iter().filter(|x| **x > 0.0).count();
    if pos == 1 {
        o.class("one positive entry");
    } else {
        o.nontrivial(v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        o.class("several positive entries");
    }
    // a power of two scales exactly
    // (double precision leaves far more room)
    let factor = 2f64.powi(if *double { *scale as i32 * 6 } else { (*scale % 20) as i32 });
    let (ks2, _) = draw(*seed, w, *double, factor, n.min(200))?;
    ensure!(ks[..ks2.len()] == ks2[..], "scaling", "scaling all weights by {} changes what is drawn", factor);
    o.class(if *double { "double" } else { "float" });
    o.class_if(w.len() > 200, "long vector");
    o.sample(|| format!("{} weights, {} positive, {:?}: counts {:?}", w.len(), pos, &v[..v.len().min(8)], &counts[..counts.len().min(8)]));
    Ok(())
}

/// Two runs of the program do not draw the same.
fn two_runs(c: &(u8, bool, u64, u64), o: &mut Obs) -> Res {
    let (n, double, s1, s2) = c;
    if s1 == s2 {
        return Ok(());
    }
    let w: Vec<f64> = (0..*n).map(|i| 1.0 + i as f64 / 50.0).collect();
    let (a, _) = draw(*s1, &w, *double, 1.0, 160)?;
    let (b, _) = draw(*s2, &w, *double, 1.0, 160)?;
    ensure!(a != b && a[..80] != a[80..], "same-draws", "two runs with different entropy draw the same from {} weights: {:?}", n, &a[..20]);
    o.class("two runs compared");
    o.nontrivial((n, s1));
    Ok(())
}

/// Also for C33.
pub fn fresh(p: &mut Prop) {
    p.family("draws of two runs", (400, 20_000), (3u8..60, any::<bool>(), any::<u64>(), any::<u64>()), two_runs);
}

fn main() {
    let mut p = Prop::new("C20", "distinct weight vectors with at least two positive entries")
        .assume("proportions are judged at a score of 7");
    let s = (weights(), any::<bool>(), any::<i8>()).prop_map(|(w, double, scale)| W { w, double, scale });
    p.family("proportions", (1500, 60_000), (s, any::<u64>()), proportions);
    fresh(&mut p);
    p.finish()
}
