//! C16: the network search follows the PUCT rule.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::tictactoe::TicTacToe;
use indicatif::ProgressBar;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::bg::*;
use vh::glue::Mc;
use vh::search::*;
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Set {
    iterations: u32,
    c: f64,
    policy: f64,
    value: f64,
}

fn set(max: u32) -> impl Strategy<Value = Set> + Clone {
    (prop_oneof![1 => 1u32..6, 4 => 1u32..max], prop_oneof![Just(0.05f64), 0.1f64..4.0, Just(20.0)], 0.3f64..8.0, 0.3f64..6.0)
        .prop_map(|(iterations, c, policy, value)| Set { iterations, c, policy, value })
}

fn close_call(gap: f64, s: &Set) -> bool {
    gap < 2e-5 * (1.0 + s.c)
}

/// Every node of every tree has the visits and the value that the rule gives.
fn batched<T: Ref>(gs: &[T], net: &ResNet, s: &Set, o: &mut Obs) -> Res<Vec<Option<Vec<(u32, f64)>>>> {
    let mc = Mc { iterations: s.iterations, c: s.c, limit: 100, alpha: 0.3, eps: 0.0 }.build();
    let mut st = NodeStore::new();
    sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut st, gs, net, &mc, Some(ProgressBar::hidden())))?;
    let nodes = audit(&st)?;
    let said = said(net, &nodes);
    let mut out = vec![];
    for (i, g) in gs.iter().enumerate() {
        let want = puct(&nodes, i, &said, s.c, s.iterations as usize);
        if close_call(want.gap, s) {
            o.class("near tie: not compared");
            out.push(None);
            continue;
        }
        let mut todo = vec![i];
        while let Some(k) = todo.pop() {
            let n = &nodes[k];
            ensure!(n.visits as f64 == want.visits[k], "visits", "node {} of the tree of {} has {} visits, the rule gives {} ({:?}, closest choice {:.1e})", k, g.show(), n.visits, want.visits[k], s, want.gap);
            ensure!((n.value as f64 - want.value[k]).abs() < 1e-3 * (1.0 + n.visits as f64), "value", "node {} of the tree of {} has value {}, the rule gives {:.4} ({:?})", k, g.show(), n.value, want.value[k], s);
            todo.extend(&n.children);
            o.eval();
        }
        let plays = nodes[i].children.len();
        o.class("compared");
        o.class(format!("depth {}", if want.depth > 5 { "6+".into() } else { want.depth.to_string() }));
        o.class_if(want.finished > 0, "finished games credited");
        if plays > 1 && s.iterations > 1 {
            o.nontrivial((g.show(), s.iterations, s.c.to_bits()));
        }
        o.sample(|| format!("{} {:?}: depth {}, {} finished games, closest choice {:.1e}", g.show(), s, want.depth, want.finished, want.gap));
        let total: f64 = nodes[i].children.iter().map(|k| want.visits[*k]).sum();
        out.push(Some(nodes[i].children.iter().map(|k| (g.encode(nodes[*k].action_taken.as_ref().unwrap()), want.visits[*k] / total.max(1.0))).collect()));
    }
    Ok(out)
}

fn tictactoe(c: &(Vec<(bool, Vec<u8>)>, Set), o: &mut Obs) -> Res {
    let s = &c.1;
    let ps: Vec<TPos> = c.0.iter().map(|(f, p)| *TPos::run(if *f { 1 } else { -1 }, p).iter().filter(|p| p.outcome().is_none()).last().unwrap()).collect();
    let gs: Vec<TicTacToe> = ps.iter().map(glue::tgame).collect();
    both(&gs, s, o)
}

fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<(u8, Vec<u8>)>, Set), o: &mut Obs) -> Res {
    c.0.set();
    let gs: Vec<Syn<A, C, W, D>> = c.1.iter().map(|(n, p)| Syn::open(c.0, *n as u32, p)).collect();
    o.class_if(c.0.stay > 0, "repeated turns");
    both(&gs, &c.2, o)
}

fn both<T: Ref>(gs: &[T], s: &Set, o: &mut Obs) -> Res {
    let net = glue::net::<T>();
    glue::sharpen::<T>(&net.vs, s.policy, s.value);
    let shares = batched(gs, &net, s, o)?;
    let a = T::ACTION_SPACE_SIZE as usize;
    // the single-position search gives the same distribution
    let mc = Mc { iterations: s.iterations, c: s.c, limit: 100, alpha: 0.3, eps: 0.0 }.build();
    for (g, want) in gs.iter().zip(shares) {
        let want = match want {
            Some(w) => w,
            None => continue,
        };
        let pi = match sut("alpha_mcts", || alpha_mcts(g, &net, &mc))? {
            Some(pi) => glue::vecf(&pi),
            None if !g.ref_any() => continue,
            None => return vh::fail("no-answer", format!("alpha_mcts has no answer for {}", g.show())),
        };
        ensure!(pi.len() == a, "shape", "{} probabilities", pi.len());
        let mut full = vec![0.0; a];
        for (k, v) in &want {
            full[*k as usize] = *v;
        }
        ensure!((0..a).all(|k| (pi[k] as f64 - full[k]).abs() < 1e-5), "single", "single search of {} gives {:?}, the rule gives {:?} ({:?})", g.show(), &pi[..a.min(40)], &full[..a.min(40)], s);
        o.class("single search compared");
    }
    Ok(())
}

fn backgammon(c: &(Vec<Pos>, Set), o: &mut Obs) -> Res {
    let gs: Vec<Backgammon> = c.0.iter().map(glue::bgame).collect();
    let net = glue::net::<Backgammon>();
    glue::sharpen::<Backgammon>(&net.vs, c.1.policy.min(3.0), c.1.value.min(1.0));
    batched(&gs, &net, &c.1, o)?;
    Ok(())
}

/// Thousands of iterations. Near ties cannot be avoided there, but a tree's state depends on the visits
/// only, so that the other outcome of a tie moves single visits: shares are compared instead of numbers.
fn patient(c: &(Vec<(bool, Vec<u8>)>, Set), o: &mut Obs) -> Res {
    let s = &c.1;
    let ps: Vec<TPos> = c.0.iter().map(|(f, p)| *TPos::run(if *f { 1 } else { -1 }, p).iter().filter(|p| p.outcome().is_none()).last().unwrap()).filter(|p| p.empty_cells().len() < 5).collect();
    if ps.is_empty() {
        return Ok(());
    }
    let gs: Vec<TicTacToe> = ps.iter().map(glue::tgame).collect();
    let net = glue::net::<TicTacToe>();
    glue::sharpen::<TicTacToe>(&net.vs, s.policy, s.value);
    let mc = Mc { iterations: s.iterations, c: s.c, limit: 100, alpha: 0.3, eps: 0.0 }.build();
    let mut st = NodeStore::new();
    sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut st, &gs, &net, &mc, Some(ProgressBar::hidden())))?;
    let nodes = audit(&st)?;
    let said = said(&net, &nodes);
    for (i, g) in gs.iter().enumerate() {
        let want = puct(&nodes, i, &said, s.c, s.iterations as usize);
        let mut open = 0;
        for k in &nodes[i].children {
            let (v, w) = (nodes[*k].visits as f64, want.visits[*k]);
            ensure!((v - w).abs() < 8.0 + 0.01 * s.iterations as f64, "many-visits", "play {:?} of {} has {} visits after {} iterations, the rule gives {} ({:?})", nodes[*k].action_taken, g.show(), v, s.iterations, w, s);
            open += (w > 0.05 * s.iterations as f64) as u32;
            o.eval();
        }
        o.class("many iterations compared");
        o.class_if(open > 1, "several plays with a share of the many");
        if nodes[i].children.len() > 1 {
            o.nontrivial((g.show(), s.iterations, s.c.to_bits()));
        }
        o.sample(|| format!("{} {:?}: {:?}", g.show(), s, nodes[i].children.iter().map(|k| (nodes[*k].visits, want.visits[*k])).collect::<Vec<_>>()));
    }
    Ok(())
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let starts = vec((any::<u8>(), vec(any::<u8>(), 0..6)), 1..4);
    p.family_opts(&format!("network search {}", name), times((100, 4_000), k), 30, (world(1..=10, 1..=branch), starts, set(60)), synthetic::<A, C, W, D>);
}

fn main() {
    let mut p = Prop::new("C16", "distinct positions with several plays and at least two iterations, compared node by node")
        .assume("trees in which a choice was closer than 2e-5*(1+c) are not compared and counted as near ties; with thousands of iterations the visits of a play may differ by 8 + 1 % of them");
    p.family_opts("tictactoe", (700, 30_000), 40, (vec((any::<bool>(), vec(any::<u8>(), 0..9)), 1..5), set(90)), tictactoe);
    let pos = || prop_oneof![2 => gen::open_position(), 1 => ending()];
    p.family_opts("backgammon", (240, 8_000), 20, (vec(pos(), 1..3), set(30)), backgammon);
    p.family_opts("wide", (60, 2_000), 15, (vec(gen::wide(), 1..3), set(60)), backgammon);
    let many = (set(2), 1025u32..6000, 0.5f64..20.0).prop_map(|(s, iterations, c)| Set { iterations, c, ..s });
    p.family_opts("many-iterations", (150, 4_000), 10, (vec((any::<bool>(), vec(any::<u8>(), 5..9)), 1..5), many), patient);
    let starts = || vec((any::<u8>(), vec(any::<u8>(), 0..6)), 1..4);
    p.family_opts("synthetic", (500, 20_000), 40, (world(1..=10, 1..=7), starts(), set(70)), synthetic::<9, 3, 9, false>);
    p.family_opts("synthetic-dice", (400, 15_000), 40, (world(1..=10, 1..=12), starts(), set(70)), synthetic::<40, 2, 5, true>);
    p.family_opts("synthetic-large", (60, 2_000), 20, (world(1..=10, 1..=60), starts(), set(40)), synthetic::<2000, 1, 8, false>);
    p.finish()
}

/// A few checkers left on each side.
fn ending() -> BoxedStrategy<Pos> {
    (vec(1u8..=8, 1..=3), vec(1u8..=8, 1..=3), prop_oneof![Just(-1i8), Just(1i8)], gen::dice(), any::<bool>())
        .prop_map(|(mut a, mut b, player, roll, s)| {
            a.resize(15, 0);
            b.resize(15, 0);
            Pos { board: gen::compose(&a, &b, player), player, roll, second: s && roll.0 == roll.1 }
        })
        .boxed()
}
