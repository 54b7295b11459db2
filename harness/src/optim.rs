//! A training step of the check's own.
use crate::glue;
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use std::collections::BTreeMap;
use tch::nn::{Adam, Optimizer, OptimizerConfig};
use tch::{Kind, Tensor};

pub type Vars = BTreeMap<String, Tensor>;

/// The same network with an optimiser of its own.
pub struct Model {
    pub net: ResNet,
    opt: Optimizer,
}

impl Model {
    pub fn new<T: LearnableGame>(from: &Vars, lr: f64, wd: f64) -> Model {
        let net = glue::net::<T>();
        {
            let _g = tch::no_grad_guard();
            for (k, mut v) in net.vs.variables() {
                v.copy_(&from[&k]);
            }
        }
        let opt = Adam { beta1: 0.9, beta2: 0.999, wd, eps: 1e-8, amsgrad: false }.build(&net.vs, lr).unwrap();
        Model { net, opt }
    }
    /// One step on samples given as (input, target, outcome).
    pub fn step(&mut self, b: &[(Tensor, Vec<f32>, i8)]) {
        let n = b.len() as i64;
        // with or without a batch dimension
        let one = |t: &Tensor| t.reshape(&t.size()[t.dim() - 3..]);
        let x = Tensor::stack(&b.iter().map(|s| one(&s.0)).collect::<Vec<_>>(), 0);
        let t: Vec<f32> = b.iter().flat_map(|s| s.1.clone()).collect();
        let t = Tensor::from_slice(&t).view([n, -1]);
        let z: Vec<f32> = b.iter().map(|s| s.2 as f32).collect();
        let z = Tensor::from_slice(&z).view([n, 1]);
        let (l, v) = self.net.forward_train(&x, true);
        let m = l.amax([1], true).detach();
        let logp = (&l - &m) - (&l - &m).exp().sum_dim_intlist(1, true, Kind::Float).log();
        let ce = -(t * logp).sum(Kind::Float) / n as f64;
        let d = v - z;
        let loss = ce + (&d * &d).sum(Kind::Float) / n as f64;
        self.opt.backward_step(&loss);
    }
    /// Moves every variable by rounding errors.
    pub fn shake(&mut self) {
        let _g = tch::no_grad_guard();
        for (_, mut v) in self.net.vs.variables() {
            let r = &v * (1.0 + (Tensor::rand_like(&v) - 0.5) * 1e-6);
            v.copy_(&r);
        }
    }
}

/// Variables that the computation leaves to rounding: biases right before a normalisation have no gradient.
fn vague(name: &str) -> bool {
    name.starts_with("bias")
}

/// Largest disagreement, in learning rates (statistics: relative), and where.
pub fn distance(a: &Vars, b: &Vars, lr: f64, steps: usize) -> (f64, String) {
    let mut worst = (0.0, String::new());
    let (mut total, mut count) = (0.0, 0.0);
    for (k, x) in a {
        let y = &b[k];
        let d = if k.contains("running_mean") {
            // shifted by the biases before it
            let d = (x - y).abs().mean(None).double_value(&[]);
            TOL * d / (0.2 * lr * steps as f64 + 1e-3 * y.abs().mean(None).double_value(&[]) + 1e-5)
        } else if k.contains("running") {
            ((x - y).abs() / (y.abs() + 1e-2)).mean(None).double_value(&[])
        } else if vague(k) {
            let d = (x - y).abs().max().double_value(&[]) / lr.max(1e-9);
            (d / 100.0 - 0.2).max(0.0)
        } else {
            let e = (x - y).abs().sum(Kind::Float).double_value(&[]) / lr.max(1e-9);
            total += e;
            count += x.numel() as f64;
            // a single small variable may hold vanishing gradients
            e / x.numel() as f64 * TOL / 0.5
        };
        if !(d <= worst.0) {
            worst = (d, k.clone());
        }
    }
    if total / count > worst.0 {
        worst = (total / count, "all weights on average".into());
    }
    worst
}

pub const TOL: f64 = 0.02;

