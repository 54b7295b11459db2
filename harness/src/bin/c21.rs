//! C21: network evaluation is well formed, pure and batch independent.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tch::{Kind, Tensor};
use vh::bg::*;
use vh::search::Ref;
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, fail, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Kindof {
    rough: bool,
    policy: f64,
    value: f64,
    guard: bool,
}

fn kindof() -> impl Strategy<Value = Kindof> + Clone {
    (any::<bool>(), 0.2f64..5.0, prop_oneof![4 => 0.2f64..5.0, 1 => 20.0f64..100.0], any::<bool>()).prop_map(|(rough, policy, value, guard)| Kindof { rough, policy, value, guard })
}

fn close(a: &Tensor, b: &Tensor, tol: f64) -> bool {
    a.size() == b.size() && {
        let d = (a.to_kind(Kind::Double) - b.to_kind(Kind::Double)).abs();
        d.numel() == 0 || d.max().double_value(&[]) <= tol
    }
}

fn run<T: Ref>(gs: &[T], k: &Kindof, o: &mut Obs) -> Res {
    let net: ResNet = glue::net::<T>();
    if k.rough {
        glue::roughen(&net.vs);
    }
    glue::sharpen::<T>(&net.vs, k.policy, k.value);
    let _g = if k.guard { Some(tch::no_grad_guard()) } else { None };
    let before = glue::snapshot(&net.vs);
    let xs: Vec<Tensor> = gs.iter().map(|g| g.as_tensor()).collect();
    let x = Tensor::cat(&xs, 0);
    let x0 = x.copy();
    let n = gs.len() as i64;
    let a = T::ACTION_SPACE_SIZE;
    let (p, v) = sut("forward_t", || net.forward_t(&x, false))?;
    let (p, v) = (p.detach(), v.detach());
    ensure!(p.size() == [n, a], "shape", "policy of shape {:?} for {} positions", p.size(), n);
    ensure!(v.size() == [n, 1], "shape", "value of shape {:?} for {} positions", v.size(), n);
    let pv = glue::vecf(&p);
    ensure!(pv.iter().all(|q| *q >= 0.0 && *q <= 1.0 + 1e-5), "policy-range", "a probability outside [0,1]: {:?}", pv.iter().find(|q| !(**q >= 0.0 && **q <= 1.0 + 1e-5)));
    for i in 0..n as usize {
        let s: f64 = pv[i * a as usize..(i + 1) * a as usize].iter().map(|q| *q as f64).sum();
        ensure!((s - 1.0).abs() < 1e-4, "policy-sum", "the policy of {} sums to {}", gs[i].show(), s);
    }
    let vv = glue::vecf(&v);
    ensure!(vv.iter().all(|q| *q >= -1.0 && *q <= 1.0), "value-range", "values {:?}", vv);
    // again
    let (p2, v2) = sut("forward_t", || net.forward_t(&x, false))?;
    ensure!(p2.detach().equal(&p) && v2.detach().equal(&v), "repeat", "the same evaluation twice differs");
    // the other forms
    let pp = sut("forward_policy", || net.forward_policy(&x, false))?.detach();
    ensure!(close(&pp, &p, 1e-5), "policy-only", "forward_policy differs from forward_t");
    let (lt, vt) = sut("forward_train", || net.forward_train(&x, false))?;
    let (lt, vt) = (lt.detach(), vt.detach());
    ensure!(lt.size() == [n, a], "shape", "training logits of shape {:?}", lt.size());
    ensure!(close(&lt.softmax(1, Kind::Float), &p, 1e-5), "training-form", "forward_train normalised differs from forward_t");
    ensure!(close(&vt, &v, 1e-5), "training-form", "the value of forward_train differs from forward_t");
    ensure!(x.equal(&x0), "input-changed", "the input was changed");
    if let Some(d) = glue::same_vars(&before, &glue::snapshot(&net.vs)) {
        return fail("net-changed", format!("evaluating changed the network: {}", d));
    }
    // every position alone, and the batch in another order
    for i in (0..n).filter(|i| n <= 40 || i % (n / 8) == 0 || *i == n - 1) {
        let (p1, v1) = sut("forward_t", || net.forward_t(&xs[i as usize], false))?;
        ensure!(p1.size() == [1, a] && v1.size() == [1, 1], "shape", "policy {:?} and value {:?} for one position", p1.size(), v1.size());
        ensure!(close(&p1.detach().get(0), &p.get(i), 2e-4), "batch-dependence", "policy of {} in a batch of {} differs from the one alone", gs[i as usize].show(), n);
        ensure!(close(&v1.detach().get(0), &v.get(i), 2e-3), "batch-dependence", "value of {} in a batch of {} is {:?}, alone {:?}", gs[i as usize].show(), n, glue::vecf(&v.get(i)), glue::vecf(&v1));
        o.eval();
    }
    let (p3, v3) = sut("forward_t", || net.forward_t(&x.flip([0]), false))?;
    ensure!(close(&p3.detach().flip([0]), &p, 2e-4) && close(&v3.detach().flip([0]), &v, 2e-3), "batch-order", "reversing the batch of {} changes the answers", n);
    // different positions are told apart by the heads
    let distinct = gs.iter().any(|g| !g.same_state(&gs[0]));
    if distinct && !k.guard {
        o.class("several different positions");
    }
    o.class(match n {
        0..=8 => format!("batch of {}", n),
        9..=64 => "batch of 9 to 64".into(),
        _ => "batch of 65 or more".into(),
    });
    o.class(if k.rough { "moved statistics" } else { "fresh network" });
    if n > 1 && distinct {
        o.nontrivial((gs.iter().map(|g| g.show()).collect::<Vec<_>>(), k.rough));
    }
    o.sample(|| format!("{} positions {:?}: values {:?}, first {}", n, k, &vv[..vv.len().min(4)], gs[0].show()));
    Ok(())
}

fn tictactoe(c: &(Vec<(bool, Vec<u8>)>, Kindof), o: &mut Obs) -> Res {
    let gs: Vec<TicTacToe> = c.0.iter().map(|(f, p)| glue::tgame(TPos::run(if *f { 1 } else { -1 }, p).last().unwrap())).collect();
    run(&gs, &c.1, o)
}

fn backgammon(c: &(Vec<Pos>, Kindof), o: &mut Obs) -> Res {
    let gs: Vec<Backgammon> = c.0.iter().map(glue::bgame).collect();
    run(&gs, &c.1, o)
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let games = (world(1..=12, 1..=branch), vec((any::<u8>(), vec(any::<u8>(), 0..12)), 1..20), kindof());
    p.family_opts(&format!("evaluation {}", name), times((60, 2_000), k), 20, games, |c: &(World, Vec<(u8, Vec<u8>)>, Kindof), o| {
        c.0.set();
        let gs: Vec<Syn<A, C, W, D>> = c.1.iter().map(|(n, p)| *Syn::run(c.0, *n as u32, p).last().unwrap()).collect();
        run(&gs, &c.2, o)
    });
}

fn main() {
    let mut p = Prop::new("C21", "distinct batches of at least two different positions")
        .assume("rows are compared with the position alone within 2e-4 (policy) and 2e-3 (value), the forms within 1e-5");
    p.family_opts("tictactoe", (600, 20_000), 40, (vec((any::<bool>(), vec(any::<u8>(), 0..9)), 1..20), kindof()), tictactoe);
    p.family_opts("backgammon", (160, 6_000), 20, (vec(gen::position(), 1..12), kindof()), backgammon);
    let large = |a: usize, b: usize| prop_oneof![4 => a..b, 1 => Just(64usize), 1 => Just(65), 1 => Just(128), 1 => Just(129)];
    p.family_opts("tictactoe-large", (24, 1_000), 20, (large(40, 600).prop_flat_map(|n| vec((any::<bool>(), vec(any::<u8>(), 0..9)), n)), kindof()), tictactoe);
    p.family_opts("backgammon-large", (8, 300), 20, (large(40, 260).prop_flat_map(|n| vec(gen::constructed(), n)), kindof()), backgammon);
    p.finish()
}
