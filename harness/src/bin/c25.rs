//! C25: training takes one correct optimiser step per batch.
use die_e::alphazero::alphazero::MemoryFragment;
use die_e::base::LearnableGame;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tch::Tensor;
use vh::bg::*;
use vh::glue::{Az, Mc};
use vh::optim::*;
use vh::samples::*;
use vh::synth::{times, sample, Syn};
use vh::ttt::TPos;
use vh::{ensure, fail, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Set {
    batch: u32,
    lr: f64,
    wd: f64,
    passes: u8,
    loaded: bool,
    rough: bool,
    policy: f64,
    value: f64,
}

fn set() -> impl Strategy<Value = Set> + Clone {
    let lr = prop_oneof![1 => Just(0.0f64), 6 => 1e-4f64..2e-2];
    let wd = prop_oneof![1 => Just(0.0f64), 1 => Just(1e-4f64), 3 => 0.01f64..1.0];
    (1u32..12, lr, wd, 1u8..4, any::<bool>(), any::<bool>(), 0.3f64..4.0, 0.3f64..8.0)
        .prop_map(|(batch, lr, wd, passes, loaded, rough, policy, value)| Set { batch, lr, wd, passes, loaded, rough, policy, value })
}

fn plain<P: Posn>(s: &Samp<P>) -> (Tensor, Vec<f32>, i8) {
    (s.pos.game().as_tensor().squeeze_dim(0), s.target(P::G::ACTION_SPACE_SIZE), s.outcome)
}

fn samples_kept<P: Posn>(mem: &[MemoryFragment], want: &[Samp<P>]) -> Res<Vec<usize>> {
    ensure!(mem.len() == want.len(), "samples-lost", "{} samples before, {} after", want.len(), mem.len());
    let w = fragments(want);
    let mut used = vec![false; w.len()];
    let mut order = vec![];
    for m in mem {
        match (0..w.len()).find(|i| !used[*i] && same_sample::<P::G>(m, &w[*i]).is_none()) {
            Some(i) => {
                used[i] = true;
                order.push(i)
            }
            None => return fail("samples-changed", "after training the list holds a sample it did not hold before, or holds one twice"),
        }
    }
    Ok(order)
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for o in orders(n - 1) {
        for k in 0..=o.len() {
            let mut p = o.clone();
            p.insert(k, n - 1);
            out.push(p);
        }
    }
    out
}

/// Batches of an order; the order inside a batch does not matter.
fn batches(order: &[usize], b: usize) -> Vec<Vec<usize>> {
    order
        .chunks(b)
        .map(|c| {
            let mut c = c.to_vec();
            c.sort();
            c
        })
        .collect()
}

fn run<P: Posn>(ps: &[Samp<P>], s: &Set, o: &mut Obs) -> Res {
    let n = ps.len();
    let b = s.batch as usize;
    let mut az = glue::learner::<P::G>(&Mc::default(), &Az { batch: s.batch, lr: s.lr, wd: s.wd, ..Az::default() });
    if s.rough {
        glue::roughen(&az.model.vs);
    }
    glue::sharpen::<P::G>(&az.model.vs, s.policy, s.value);
    let start = glue::snapshot(&az.model.vs);
    let mut mem = if s.loaded && n > 0 { stored(&az, ps)? } else { fragments(ps) };
    let same = ps.iter().all(|x| x == &ps[0]);
    // several passes only where the order cannot matter
    let passes = if b >= n || same { s.passes as usize } else { 1 };
    let mut order = vec![];
    for _ in 0..passes {
        sut("train", || az.train(&mut mem))?;
        order = samples_kept(&mem, ps)?;
        o.eval();
    }
    let after = glue::snapshot(&az.model.vs);
    for (k, v) in &after {
        ensure!(v.isfinite().all().int64_value(&[]) == 1, "not-finite", "{} is not finite after training", k);
        if k.contains("running") && n > 0 {
            ensure!(!v.equal(&start[k]), "statistics", "training left the statistics {} alone", k);
        }
        if s.lr == 0.0 && !k.contains("running") {
            ensure!(v.equal(&start[k]), "moved-without-rate", "with learning rate 0 training changed {}", k);
        }
    }
    if s.lr == 0.0 {
        o.class("learning rate 0");
    }
    let steps = passes * ((n + b - 1) / b);
    let by_order = |order: &[usize], shake: bool| -> Vars {
        let mut m = Model::new::<P::G>(&start, s.lr, s.wd);
        if shake {
            m.shake();
        }
        for _ in 0..passes {
            for c in batches(order, b) {
                m.step(&c.iter().map(|i| plain(&ps[*i])).collect::<Vec<_>>());
            }
        }
        glue::snapshot(&m.net.vs)
    };
    let try_order = |order: &[usize]| distance(&after, &by_order(order, false), s.lr, steps);
    let mut best = try_order(&order);
    let mut tried = 1;
    if best.0 > TOL && !(b >= n || same) && n <= 4 {
        // the list may not tell in which order its samples were used
        let mut seen = std::collections::BTreeSet::new();
        for p in orders(n) {
            if seen.insert(batches(&p, b)) {
                tried += 1;
                let d = try_order(&p);
                if d.0 < best.0 {
                    best = d;
                    order = p;
                }
            }
            if best.0 <= TOL {
                break;
            }
        }
    }
    if std::env::var("VERIF_CALIBRATE").is_ok() {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open("/tmp/cal25").unwrap();
        writeln!(f, "CAL {:.6} {} steps {} {:?}", best.0, best.1, steps, s).unwrap();
    }
    if best.0 > TOL {
        // where rounding alone decides, nothing can be said
        let base = by_order(&order, false);
        if (0..5).any(|_| distance(&base, &by_order(&order, true), s.lr, steps).0 > TOL / 10.0) {
            o.class("ill-conditioned, left out");
            return Ok(());
        }
    }
    ensure!(best.0 <= TOL, "wrong-step", "after {} steps on {} samples in batches of {} the weights are not those of the optimiser ({} tried orders): {} is off by {:.4} learning rates", steps, n, b, tried, best.1, best.0);
    o.class(format!("{} steps", if steps > 4 { "5+".into() } else { steps.to_string() }));
    o.class_if(n % b != 0, "smaller last batch");
    o.class_if(s.loaded, "samples as loaded");
    if n > 1 && s.lr > 0.0 {
        o.nontrivial((ps.to_vec(), s.batch, s.lr.to_bits()));
    }
    o.sample(|| format!("{} samples, {:?}: {} steps, furthest variable {} by {:.5}", n, s, steps, best.1, best.0));
    Ok(())
}

/// What Adam makes of a weight whose gradient is the decay alone.
fn decayed(w: f64, lr: f64, wd: f64, steps: usize) -> f64 {
    let (mut x, mut m, mut v) = (w, 0.0, 0.0);
    for t in 1..=steps as i32 {
        let g = wd * x;
        m = 0.9 * m + 0.1 * g;
        v = 0.999 * v + 0.001 * g * g;
        x -= lr * (m / (1.0 - 0.9f64.powi(t))) / ((v / (1.0 - 0.999f64.powi(t))).sqrt() + 1e-8);
    }
    x
}

/// Long lists: with an overwhelming weight decay every weight shrinks alike, whatever the samples, so the steps can be counted.
fn counted<P: Posn>(c: &(Vec<Samp<P>>, usize, u32, bool, bool), o: &mut Obs) -> Res {
    let (some, n, batch, loaded, twice) = c;
    let (lr, wd) = (1e-5, 1e6);
    let mut az = glue::learner::<P::G>(&Mc::default(), &Az { batch: *batch, lr, wd, ..Az::default() });
    let start = glue::snapshot(&az.model.vs);
    let all: Vec<Samp<P>> = (0..*n).map(|i| some[i % some.len()].clone()).collect();
    let mut mem = if *loaded { stored(&az, &all)? } else { fragments(&all) };
    let passes = if *twice { 2 } else { 1 };
    for _ in 0..passes {
        sut("train", || az.train(&mut mem))?;
    }
    ensure!(mem.len() == *n, "samples-lost", "{} samples before, {} after", n, mem.len());
    let steps = passes * n.div_ceil(*batch as usize);
    let after = glue::snapshot(&az.model.vs);
    let mut off: Vec<f64> = vec![];
    for (k, v) in &start {
        if v.size().len() < 2 {
            continue;
        }
        let (a, b) = (glue::vecf(v), glue::vecf(&after[k]));
        for (x, y) in a.iter().zip(&b).filter(|x| x.0.abs() > 0.02).take(60) {
            off.push((*y as f64 - decayed(*x as f64, lr, wd, steps)) / lr * (*x as f64).signum());
        }
    }
    ensure!(off.len() > 20, "harness", "only {} large weights", off.len());
    off.sort_by(|a, b| a.total_cmp(b));
    let mid = off[off.len() / 2];
    if std::env::var("VERIF_CALIBRATE").is_ok() {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open("/tmp/cal25").unwrap();
        writeln!(f, "COUNT {:.6} of {} steps batch {} n {}", mid, steps, batch, n).unwrap();
    }
    ensure!(mid.abs() < 0.1, "steps", "{} passes over {} samples in batches of {} are {} steps, but the weights moved {:.3} steps less far", passes, n, batch, steps, mid);
    o.eval();
    o.class(format!("{} steps", if steps > 256 { "257+" } else if steps > 64 { "65 to 256" } else { "at most 64" }));
    o.nontrivial((n, batch, loaded, twice));
    o.sample(|| format!("{} samples in batches of {}, {} passes: {} steps, off by {:.4}", n, batch, passes, steps, mid));
    Ok(())
}

/// The weights that tell orders apart.
fn told(v: &Vars) -> Tensor {
    Tensor::cat(&v.iter().filter(|(k, t)| !k.contains("running") && t.size().len() > 1).map(|(_, t)| t.flatten(0, -1)).collect::<Vec<_>>(), 0)
}

/// The same list trained on from the same weights again and again: every order is drawn alike, in every pass.
fn drawn<P: Posn>(c: &(Vec<Samp<P>>, u32, u8), o: &mut Obs) -> Res {
    let (ps, b, passes) = (&c.0, c.1 as usize, c.2 as usize);
    let n = ps.len();
    // how a pass can go
    let mut ways: Vec<Vec<Vec<usize>>> = if n <= 5 {
        orders(n).iter().map(|p| batches(p, b)).collect()
    } else {
        (0..n).map(|i| vec![(0..n).filter(|j| *j != i).collect(), vec![i]]).collect()
    };
    ways.sort();
    ways.dedup();
    let all = ways.len().pow(passes as u32);
    if all < 2 || all > 40 {
        return Ok(());
    }
    let lr = 0.01;
    let mut az = glue::learner::<P::G>(&Mc::default(), &Az { batch: b as u32, lr, ..Az::default() });
    let start = glue::snapshot(&az.model.vs);
    let refs: Vec<Tensor> = (0..all)
        .map(|mut w| {
            let mut m = Model::new::<P::G>(&start, lr, Az::default().wd);
            for _ in 0..passes {
                for c in &ways[w % ways.len()] {
                    m.step(&c.iter().map(|i| plain(&ps[*i])).collect::<Vec<_>>());
                }
                w /= ways.len();
            }
            told(&glue::snapshot(&m.net.vs))
        })
        .collect();
    let refs = Tensor::stack(&refs, 0);
    let apart = (0..all).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| (refs.get(i as i64) - refs.get(j as i64)).abs().mean(None).double_value(&[])).fold(f64::MAX, f64::min) / lr;
    if apart < 0.1 {
        o.class("orders too much alike");
        return Ok(());
    }
    let mut counts = vec![0u64; all];
    for _ in 0..all * 16 {
        let mut mem = fragments(ps);
        az = glue::learner::<P::G>(&Mc::default(), &Az { batch: b as u32, lr, ..Az::default() });
        {
            let _g = tch::no_grad_guard();
            for (k, mut v) in az.model.vs.variables() {
                v.copy_(&start[&k]);
            }
        }
        for _ in 0..passes {
            sut("train", || az.train(&mut mem))?;
        }
        let d = (&refs - told(&glue::snapshot(&az.model.vs)).unsqueeze(0)).abs().mean_dim(1, false, None);
        counts[d.argmin(None, false).int64_value(&[]) as usize] += 1;
        o.eval();
    }
    let z = vh::stats::chi_uniform(&counts);
    ensure!(z < vh::stats::FAR, "order", "{} passes over {} samples in batches of {}: the {} ways to do so come up {:?} times ({:.1} standard deviations off)", passes, n, b, all, counts, z);
    o.class(format!("{} passes of {} samples", passes, if n > 5 { "6+".into() } else { n.to_string() }));
    o.nontrivial((ps.clone(), b, passes));
    o.sample(|| format!("{} passes over {} samples in batches of {}: {} ways, {:?}", passes, n, b, all, counts));
    Ok(())
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let one = |c: &(Vec<Samp<Syn<A, C, W, D>>>, Set, u32), o: &mut Obs| run(&c.0, &Set { batch: if c.0.len() > 4 { 20 } else { c.2 }, ..c.1 }, o);
    p.family_opts(&format!("training {}", name), times((80, 2_500), k), 20, (vec(sample::<A, C, W, D>(), 1..9), set(), 1u32..5), one);
}

fn main() {
    let mut p = Prop::new("C25", "distinct sample lists of at least two samples trained on with a positive learning rate")
        .assume("weights are compared with an optimiser step of the check's own to 2% of the learning rate on average per variable; biases without gradient are only bounded");
    let one = |c: &(Vec<Samp<TPos>>, Set), o: &mut Obs| {
        let mut s = c.1;
        s.batch = s.batch.max(c.0.len() as u32);
        run(&c.0, &s, o)
    };
    p.family_opts("one-batch", (1000, 15_000), 30, (vec(tsamp(), 1..11), set()), one);
    p.family_opts("orders", (600, 8_000), 20, (vec(tsamp(), 2..5), set(), 1u32..4), |c, o| run(&c.0, &Set { batch: c.2.min(c.0.len() as u32 - 1).max(1), ..c.1 }, o));
    p.family_opts("equal-samples", (480, 8_000), 20, (tsamp(), 1usize..30, set()), |c, o| run(&vec![c.0.clone(); c.1], &c.2, o));
    p.family_opts("backgammon", (16, 300), 2, (vec(bsamp(), 1..4), set()), |c: &(Vec<Samp<Pos>>, Set), o| {
        let mut s = c.1;
        s.passes = 1;
        s.batch = s.batch.max(c.0.len() as u32);
        run(&c.0, &s, o)
    });
    let one_synthetic = |c: &(Vec<Samp<Syn<9, 1, 8, false>>>, Set), o: &mut Obs| {
        let mut s = c.1;
        s.batch = s.batch.max(c.0.len() as u32);
        run(&c.0, &s, o)
    };
    p.family_opts("synthetic", (600, 8_000), 30, (vec(sample::<9, 1, 8, false>(), 1..11), set()), one_synthetic);
    p.family_opts("synthetic-orders", (300, 3_000), 20, (vec(sample::<40, 2, 5, true>(), 2..5), set(), 1u32..4), |c, o| run(&c.0, &Set { batch: c.2.min(c.0.len() as u32 - 1).max(1), ..c.1 }, o));
    // many steps of a small rate: what goes wrong late in a list
    let late = (1u32..4, -6.0f64..-4.0).prop_map(|(b, e)| (b, 10f64.powf(e)));
    p.family_opts("late-steps", (40, 1_000), 6, (sample::<9, 1, 8, false>(), 40usize..300, late, set()), |c, o| {
        let (s, n, (batch, lr), set) = c;
        run(&vec![s.clone(); *n], &Set { batch: *batch, lr: *lr, passes: 1, ..*set }, o)
    });
    let small = prop_oneof![
        (2usize..3, 1u32..2, 1u8..6),
        (3usize..4, 1u32..3, 1u8..4),
        (4usize..5, 1u32..4, 1u8..3),
        (5usize..6, 3u32..5, 1u8..3),
    ];
    let shape = prop_oneof![3 => small, 1 => (6usize..36).prop_map(|n| (n, n as u32 - 1, 1))];
    let list = shape.prop_flat_map(|(n, b, p)| (vec(sample::<9, 1, 8, false>(), n), Just(b), Just(p)));
    p.family_opts("drawn-orders", (40, 800), 4, list, drawn);
    // a single step on hundreds of samples
    p.family_opts("large-batch", (16, 400), 2, (vec(sample::<9, 1, 8, false>(), 3..40), 100usize..1300, 0u32..400, set()), |c, o| {
        let (some, n, more, set) = c;
        let all: Vec<_> = (0..*n).map(|i| some[(i * i + i / some.len()) % some.len()].clone()).collect();
        o.class(format!("batch of {}+", n / 256 * 256));
        run(&all, &Set { batch: *n as u32 + more, passes: set.passes.min(2), ..*set }, o)
    });
    let flags = || (any::<bool>(), prop::bool::weighted(0.2));
    p.family_opts("counted", (150, 2_000), 6, (vec(sample::<9, 3, 9, false>(), 2..12), 1usize..700, 1u32..5, flags()).prop_map(|(v, n, b, (l, t))| (v, n, b, l, t)), counted);
    p.family_opts("counted-tictactoe", (16, 200), 2, (vec(tsamp(), 2..12), 100usize..400, 1u32..3, flags()).prop_map(|(v, n, b, (l, t))| (v, n, b, l, t)), counted);
    p.finish()
}
