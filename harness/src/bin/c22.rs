//! C22: a saved model loads back as the same model.
use die_e::alphazero::alphazero::{AlphaZero, AlphaZeroConfig, OptimizerParams};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::MctsConfig;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use tch::Tensor;
use vh::bg::*;
use vh::glue::{Az, Mc};
use vh::samples::*;
use vh::search::Ref;
use vh::synth::{sample, times, Syn};
use vh::ttt::TPos;
use vh::{ensure, fail, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct How {
    rough: bool,
    policy: f64,
    value: f64,
    /// training passes before saving
    passes: u8,
    /// from where it is loaded
    best: bool,
    by_config: bool,
    ext: u8,
    fault: u8,
    cut: u16,
    seed: u64,
}

fn how() -> impl Strategy<Value = How> + Clone {
    (any::<bool>(), 0.2f64..4.0, 0.2f64..4.0, 0u8..3, any::<bool>(), any::<bool>(), any::<u8>(), any::<u8>(), any::<u16>(), any::<u64>())
        .prop_map(|(rough, policy, value, passes, best, by_config, ext, fault, cut, seed)| How { rough, policy, value, passes, best, by_config, ext, fault, cut, seed })
}

fn answers<T: Ref>(net: &ResNet, gs: &[T]) -> Vec<Tensor> {
    let _g = tch::no_grad_guard();
    let x = Tensor::cat(&gs.iter().map(|g| g.as_tensor()).collect::<Vec<_>>(), 0);
    let (p, v) = net.forward_t(&x, false);
    let (l, w) = net.forward_train(&x, false);
    vec![p, v, l, w, net.forward_policy(&x, false)]
}

fn same(a: &[Tensor], b: &[Tensor]) -> bool {
    a.iter().zip(b).all(|(x, y)| x.size() == y.size() && x.equal(y))
}

fn new_learner<T: LearnableGame>(path: Option<PathBuf>, by_config: bool, m: &Mc, a: &Az) -> AlphaZero {
    let c = glue::full_config(m, a);
    if by_config {
        AlphaZero::from_config::<T>(path, &c)
    } else {
        AlphaZero::new::<T>(path, AlphaZeroConfig::from_config(&c).unwrap(), MctsConfig::from_config(&c).unwrap(), OptimizerParams::from_config(&c).unwrap())
    }
}

fn prepare<T: LearnableGame>(h: &How, net: &ResNet) {
    if h.rough {
        glue::roughen(&net.vs);
    }
    glue::sharpen::<T>(&net.vs, h.policy, h.value);
}

fn roundtrip<P: Posn>(ps: &[Samp<P>], h: &How, o: &mut Obs) -> Res {
    let gs: Vec<P::G> = ps.iter().map(|s| s.pos.game()).collect();
    let dir = Dir::new();
    let (m, a) = (Mc::default(), Az { batch: 1 + h.cut as u32 % 8, lr: 0.01, ..Az::default() });
    dir.within(|| {
        // no model anywhere yet
        let mut az = sut("AlphaZero::new", || new_learner::<P::G>(None, h.by_config, &m, &a))?;
        prepare::<P::G>(h, &az.model);
        for _ in 0..h.passes {
            let mut mem = fragments(ps);
            sut("train", || az.train(&mut mem))?;
        }
        let before = glue::snapshot(&az.model.vs);
        let out = answers(&az.model, &gs);
        let name = format!("./models/{}", <P::G as LearnableGame>::name());
        std::fs::create_dir_all(&name).unwrap();
        let best = PathBuf::from(format!("{}/best_model.ot", name));
        let path = if h.best { best.clone() } else { PathBuf::from(["m.ot", "model_3.ot", "sub dir/m.v2.ot", "model", "x.safetensors"][h.ext as usize % 5]) };
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p).unwrap();
        }
        match sut("save_current_model", || az.save_current_model(&path))? {
            Ok(()) => {}
            Err(e) => return fail("save", format!("saving to {:?} failed: {}", path, e)),
        }
        if let Some(d) = glue::same_vars(&before, &glue::snapshot(&az.model.vs)) {
            return fail("save-changed", format!("saving changed the model: {}", d));
        }
        // as a network
        let net = sut("ResNet::from_path", || ResNet::from_path::<P::G>(&path))?;
        if let Some(d) = glue::same_vars(&before, &glue::snapshot(&net.vs)) {
            return fail("network-differs", format!("the network loaded from {:?}: {}", path, d));
        }
        ensure!(same(&out, &answers(&net, &gs)), "network-answers", "the loaded network answers differently");
        drop(net);
        // as a learner: by its path, or as the stored best model
        let given = if h.best { None } else { Some(path.clone()) };
        if !h.best && h.cut % 2 == 0 {
            // another model is the best one: the given path decides
            let other = glue::net::<P::G>();
            other.vs.save(&best).unwrap();
        }
        let mut az2 = sut("AlphaZero::new", || new_learner::<P::G>(given.clone(), h.by_config, &m, &a))?;
        if let Some(d) = glue::same_vars(&before, &glue::snapshot(&az2.model.vs)) {
            return fail("learner-differs", format!("the learner started from {:?} ({}): {}", path, if h.best { "as best model" } else { "given" }, d));
        }
        ensure!(same(&out, &answers(&az2.model, &gs)), "learner-answers", "the learner started from the model answers differently");
        // going on to learn from it is learning from the saved weights
        if h.fault % 2 == 0 {
            let mut fresh = sut("AlphaZero::new", || {
                let d = Dir::new();
                d.within(|| new_learner::<P::G>(None, h.by_config, &m, &a))
            })?;
            fresh.model.vs.copy(&az2.model.vs).expect("copy");
            let mut m1 = fragments(ps);
            let mut m2 = fragments(ps);
            // one batch: the order of samples does not matter
            if a.batch as usize >= ps.len() {
                sut("train", || fresh.train(&mut m1))?;
                sut("train", || az2.train(&mut m2))?;
                let (x, y) = (glue::snapshot(&fresh.model.vs), glue::snapshot(&az2.model.vs));
                for (k, v) in &x {
                    // one step of Adam moves a weight by about the learning rate; the order of summation may
                    // decide the sign of vanishing gradients here and there
                    let d = (v - &y[k]).abs().mean(None).double_value(&[]);
                    ensure!(k.contains("bias") || d <= 1e-3, "learning-on", "one training pass after loading gives other weights: {} by {} on average", k, d);
                }
                ensure!(glue::same_vars(&before, &y).is_some(), "not-learning", "training the loaded learner moved nothing");
                o.class("learned on");
            }
        }
        o.class(if h.best { "best model" } else { "given path" });
        o.class_if(h.passes > 0, "trained model");
        o.class_if(h.rough, "moved statistics");
        o.nontrivial((ps.to_vec(), h.passes, h.rough, h.policy.to_bits()));
        o.sample(|| format!("{:?}: {} variables, values {:?}", h, before.len(), glue::vecf(&out[1]).iter().take(4).collect::<Vec<_>>()));
        Ok(())
    })
}

fn faults<G: Ref, F: LearnableGame>(h: &How, o: &mut Obs) -> Res {
    let dir = Dir::new();
    dir.within(|| {
        let models = format!("./models/{}", G::name());
        std::fs::create_dir_all(&models).unwrap();
        let path = if h.best { PathBuf::from(format!("{}/best_model.ot", models)) } else { PathBuf::from("m.ot") };
        let kind = h.fault % 5;
        match kind {
            0 => {
                if h.best {
                    // a missing best model is not an error: start from scratch
                    let az = sut("AlphaZero::new", || new_learner::<G>(None, h.by_config, &Mc::default(), &Az::default()))?;
                    let az2 = sut("AlphaZero::new", || new_learner::<G>(None, h.by_config, &Mc::default(), &Az::default()))?;
                    ensure!(glue::same_vars(&glue::snapshot(&az.model.vs), &glue::snapshot(&az2.model.vs)).is_some(), "scratch", "two learners from scratch are the same");
                    o.class("no best model");
                    return Ok(());
                }
            }
            1 => glue::net::<F>().vs.save(&path).unwrap(),
            2 => {
                let b: Vec<u8> = (0..h.cut as usize % 600).map(|i| (h.seed >> (i % 57)) as u8).collect();
                std::fs::write(&path, b).unwrap()
            }
            3 => {
                let net = glue::net::<G>();
                net.vs.save(&path).unwrap();
                let b = std::fs::read(&path).unwrap();
                std::fs::write(&path, &b[..b.len() * (h.cut as usize % 100) / 100]).unwrap();
            }
            _ => {
                // a tensor file that lacks some of the variables
                let net = glue::net::<G>();
                let mut v: Vec<(String, Tensor)> = net.vs.variables().into_iter().collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                let n = v.len();
                let _ = v.remove(h.cut as usize % n);
                let v: Vec<(&str, &Tensor)> = v.iter().map(|(a, b)| (a.as_str(), b)).collect();
                Tensor::save_multi(&v, &path).unwrap();
            }
        }
        let given = if h.best { None } else { Some(path.clone()) };
        let r = sut("AlphaZero::new", || new_learner::<G>(given, h.by_config, &Mc::default(), &Az::default()));
        let what = ["missing", "model of the other game", "garbage", "truncated", "incomplete"][kind as usize];
        ensure!(r.is_err(), "silent", "a {} model file ({}) was accepted by the learner", what, if h.best { "best" } else { "given" });
        let r = sut("ResNet::from_path", || ResNet::from_path::<G>(&path));
        ensure!(r.is_err(), "silent", "a {} model file was accepted as a network", what);
        o.class(what);
        o.nontrivial((h.fault, h.cut, h.best, h.by_config));
        o.sample(|| format!("{} model file, {}", what, if h.best { "best" } else { "given" }));
        Ok(())
    })
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    p.family_opts(&format!("stored models {}", name), times((24, 800), k), 10, (vec(sample::<A, C, W, D>(), 1..8), how()), |c, o| roundtrip::<Syn<A, C, W, D>>(&c.0, &c.1, o));
}

fn main() {
    let mut p = Prop::new("C22", "distinct models saved and loaded (samples, training, statistics), distinct faulty files")
        .assume("parameters and answers are compared bit by bit; the effect of learning on within the size of one optimiser step");
    p.family_opts("tictactoe", (260, 8_000), 20, (vec(tsamp(), 1..8), how()), |c, o| roundtrip::<TPos>(&c.0, &c.1, o));
    p.family_opts("backgammon", (16, 240), 4, (vec(bsamp(), 1..3), how()), |c, o| roundtrip::<Pos>(&c.0, &c.1, o));
    p.family_opts("faults", (120, 4_000), 20, how(), faults::<die_e::tictactoe::TicTacToe, die_e::backgammon::backgammon_logic::Backgammon>);
    p.finish()
}
