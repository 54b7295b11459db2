//! C15: the batched network search accounts for every iteration.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::mcts::alpha_mcts::alpha_mcts_parallel;
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::tictactoe::TicTacToe;
use indicatif::ProgressBar;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use vh::bg::*;
use vh::glue::Mc;
use vh::search::*;
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Set {
    iterations: u32,
    c: f64,
    eps: f64,
    alpha: f64,
    policy: f64,
    value: f64,
}

fn set(max: u32) -> impl Strategy<Value = Set> + Clone {
    (prop_oneof![1 => 0u32..3, 4 => 1u32..max], 0.1f64..4.0, prop_oneof![2 => Just(0.0f64), 1 => 0.01f64..0.6], 0.3f64..2.0, prop_oneof![3 => 0.1f64..3.0, 2 => 0.5f64..40.0], prop_oneof![3 => 0.1f64..2.0, 2 => 0.5f64..30.0])
        .prop_map(|(iterations, c, eps, alpha, policy, value)| Set { iterations, c, eps, alpha, policy, value })
}

fn run<T: Ref>(gs: &[T], net: &ResNet, s: &Set) -> Res<NodeStore<T>> {
    let mc = Mc { iterations: s.iterations, c: s.c, limit: 100, alpha: s.alpha, eps: s.eps }.build();
    let mut store = NodeStore::new();
    sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut store, gs, net, &mc, Some(ProgressBar::hidden())))?;
    Ok(store)
}

/// Every rule about the trees left behind.
fn judge<T: Ref>(gs: &[T], st: &NodeStore<T>, net: &ResNet, s: &Set, o: &mut Obs) -> Res<(Vec<Node<T>>, Said)> {
    let nodes = audit(st)?;
    ensure!(nodes.len() >= gs.len(), "roots", "{} nodes for {} positions", nodes.len(), gs.len());
    let said = said(net, &nodes);
    let root_player: Vec<i8> = {
        let mut v = vec![0; nodes.len()];
        for i in 0..nodes.len() {
            v[i] = match nodes[i].parent {
                None => nodes[i].state.get_player(),
                Some(p) => { let mut k = p; while let Some(q) = nodes[k].parent { k = q } nodes[k].state.get_player() }
            };
        }
        v
    };
    for (i, n) in nodes.iter().enumerate() {
        ensure!(n.parent.is_some() == (i >= gs.len()), "roots", "node {} has parent {:?} with {} positions in the batch", i, n.parent, gs.len());
        if i < gs.len() {
            ensure!(n.state.same_state(&gs[i]), "root-state", "tree {} is about {}, position {} was given", i, n.state.show(), gs[i].show());
            ensure!(n.visits == 1.0 + s.iterations as f32, "budget", "tree {} of {} has {} visits after {} iterations, in {}", i, gs.len(), n.visits, s.iterations, n.state.show());
        }
        let over = n.state.ref_outcome().is_some();
        let plays = n.state.ref_count();
        let evaluated = i < gs.len() || (n.visits > 0.0 && !over);
        let want = if evaluated { plays } else { 0 };
        ensure!(n.children.len() == want, "children", "node {} with {} visits has {} children, the position has {} plays: {}", i, n.visits, n.children.len(), plays, n.state.show());
        let sum: f32 = n.children.iter().map(|c| nodes[*c].visits).sum();
        if !n.children.is_empty() {
            ensure!(n.visits == 1.0 + sum, "visit-sum", "node {} has {} visits, its children {}", i, n.visits, sum);
            let pr: Vec<f32> = n.children.iter().map(|c| nodes[*c].policy).collect();
            let ps: f32 = pr.iter().sum();
            ensure!(pr.iter().all(|x| *x >= 0.0) && (ps - 1.0).abs() < 1e-3, "priors", "priors of node {} sum to {}: {:?}", i, ps, &pr[..pr.len().min(8)]);
            o.class_if(said.weight[i] == 0.0, "policy without weight on the plays");
            if (i >= gs.len() || s.eps == 0.0) && said.weight[i] > 1e-25 {
                for c in &n.children {
                    let w = said.prior[*c].unwrap_or(f64::NAN);
                    ensure!((nodes[*c].policy as f64 - w).abs() < 1e-3, "prior-source", "child {} of {} has prior {}, the network gives {:.5}", c, i, nodes[*c].policy, w);
                }
            }
        }
        ensure!(n.value.abs() <= n.visits + 1e-3, "value-range", "node {} has value {} with {} visits", i, n.value, n.visits);
        // own evaluations = value minus what came through the children
        let chooser = n.parent.map_or(root_player[i], |p| nodes[p].state.get_player());
        let sign = if n.state.get_player() == chooser { 1.0 } else { -1.0 };
        let through: f64 = n.children.iter().map(|c| nodes[*c].value as f64).sum::<f64>() * sign;
        let own = n.value as f64 - through;
        let own_visits = if i < gs.len() { n.visits as f64 - 1.0 - sum as f64 } else { n.visits as f64 - sum as f64 };
        let each = match n.state.ref_outcome() {
            Some(w) => (w * chooser) as f64,
            None if own_visits > 0.0 => said.value[i].unwrap_or(f64::NAN) * sign,
            None => 0.0,
        };
        let w = each * own_visits;
        ensure!((own - w).abs() < 2e-3 * (1.0 + n.visits as f64), "value", "node {} ({} visits, {} of its own) was credited {:.4} by itself, expected {:.4}: {}", i, n.visits, own_visits, own, w, n.state.show());
        o.class_if(over && n.visits > 0.0, "finished game visited");
        o.class_if(!over && plays == 0 && n.visits > 0.0, if i < gs.len() { "root without plays" } else { "inner node without plays" });
        o.class_if(plays == 1, "single play");
        o.eval();
    }
    Ok((nodes, said))
}

fn net_for<T: Ref>(s: &Set) -> ResNet {
    let n = glue::net::<T>();
    glue::sharpen::<T>(&n.vs, s.policy, s.value);
    n
}

fn check<T: Ref>(gs: &[T], s: &Set, o: &mut Obs) -> Res<(ResNet, Vec<Node<T>>, Said)> {
    let net = net_for::<T>(s);
    let before = glue::snapshot(&net.vs);
    let st = run(gs, &net, s)?;
    if let Some(d) = glue::same_vars(&before, &glue::snapshot(&net.vs)) {
        return vh::fail("net-changed", format!("the search changed the network: {}", d));
    }
    let (nodes, said) = judge(gs, &st, &net, s, o)?;
    o.class(format!("batch of {}", if gs.len() > 3 { "4+".to_string() } else { gs.len().to_string() }));
    o.class_if(s.eps > 0.0, "with root noise");
    o.nontrivial(format!("{:?} {:?}", gs.iter().map(|g| g.show()).collect::<Vec<_>>(), s.iterations));
    o.sample(|| format!("{} positions, {:?}: {} nodes, first {}", gs.len(), s, nodes.len(), gs[0].show()));
    Ok((net, nodes, said))
}

fn tictactoe(c: &(Vec<(bool, Vec<u8>)>, Set), o: &mut Obs) -> Res {
    let gs: Vec<TicTacToe> = c.0.iter().map(|(f, p)| glue::tgame(TPos::run(if *f { 1 } else { -1 }, p).iter().filter(|p| p.outcome().is_none()).last().unwrap())).collect();
    let s = &c.1;
    check_alone(&gs, s, o)
}

fn check_alone<T: Ref>(gs: &[T], s: &Set, o: &mut Obs) -> Res {
    let (net, nodes, said) = check(gs, s, o)?;
    if s.eps == 0.0 {
        // the same positions alone
        for (i, g) in gs.iter().enumerate() {
            let alone = audit(&run(&[*g], &net, s)?)?;
            let gap = puct(&nodes, i, &said, s.c, s.iterations as usize).gap;
            if !(gap > 1e-4) {
                o.class("near tie: not compared");
                continue;
            }
            let v = |t: &[Node<T>], r: usize| -> Vec<(String, f32)> {
                let mut v: Vec<(String, f32)> = t[r].children.iter().map(|k| (g.ref_key(t[*k].action_taken.as_ref().unwrap()), t[*k].visits)).collect();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                v
            };
            let (a, b) = (v(&nodes, i), v(&alone, 0));
            ensure!(a == b, "batch-dependence", "visits of {} in a batch of {}: {:?}, alone: {:?}", g.show(), gs.len(), a, b);
            o.class("compared with the position alone");
        }
    }
    Ok(())
}

fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<(u8, Vec<u8>)>, Set), o: &mut Obs) -> Res {
    c.0.set();
    let gs: Vec<Syn<A, C, W, D>> = c.1.iter().map(|(n, p)| Syn::open(c.0, *n as u32, p)).collect();
    check_alone(&gs, &c.2, o)
}

/// Counters of many iterations must not run over.
fn large(c: &(Vec<(bool, Vec<u8>)>, Set), o: &mut Obs) -> Res {
    let gs: Vec<TicTacToe> = c.0.iter().map(|(f, p)| glue::tgame(TPos::run(if *f { 1 } else { -1 }, p).iter().filter(|p| p.outcome().is_none()).last().unwrap())).collect();
    if gs.iter().any(|g| g.ref_count() > 2) {
        return Ok(());
    }
    check(&gs, &c.1, o)?;
    Ok(())
}

/// Batches of hundreds of positions: every one of them gets its iterations.
fn crowd(c: &(u16, u64, Set), o: &mut Obs) -> Res {
    let mut r = rand::rngs::StdRng::seed_from_u64(c.1);
    let gs: Vec<TicTacToe> = (0..c.0).map(|_| {
        let picks: Vec<u8> = (0..r.gen_range(3..9)).map(|_| r.gen()).collect();
        glue::tgame(TPos::run(if r.gen() { 1 } else { -1 }, &picks).iter().filter(|p| p.outcome().is_none()).last().unwrap())
    }).collect();
    o.class(format!("{}+ positions", c.0 / 256 * 256));
    check(&gs, &c.2, o)?;
    Ok(())
}

fn backgammon(c: &(Vec<Pos>, Set), o: &mut Obs) -> Res {
    let gs: Vec<Backgammon> = c.0.iter().map(glue::bgame).collect();
    check(&gs, &c.1, o)?;
    Ok(())
}

/// Nearly finished or shut out positions.
fn special() -> BoxedStrategy<Pos> {
    let near = (vec(1u8..=6, 1..=3), vec(1u8..=24, 1..=3), prop_oneof![Just(-1i8), Just(1i8)], gen::dice(), any::<bool>()).prop_map(|(mut a, mut b, player, roll, s)| {
        a.resize(15, 0);
        b.resize(15, 0);
        Pos { board: gen::compose(&a, &b, player), player, roll, second: s && roll.0 == roll.1 }
    });
    let blocked = (1usize..=2, vec(1u8..=24, 15), 1u8..=7, gen::dice(), prop_oneof![Just(-1i8), Just(1i8)], any::<bool>()).prop_map(|(bar, mut a, gap, roll, player, swap)| {
        for x in a.iter_mut().take(bar) {
            *x = 25;
        }
        let mut b: Vec<u8> = (1u8..=6).filter(|d| *d != gap).flat_map(|d| [d, d]).collect();
        b.resize(15, 8);
        Pos { board: gen::compose(&a, &b, player), player: if swap { -player } else { player }, roll, second: false }
    });
    prop_oneof![near, blocked].boxed()
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let starts = vec((any::<u8>(), vec(any::<u8>(), 0..6)), 1..6);
    p.family_opts(&format!("batched search {}", name), times((80, 3_000), k), 30, (world(1..=8, 1..=branch), starts, set(40)), synthetic::<A, C, W, D>);
}

fn main() {
    let mut p = Prop::new("C15", "distinct batches and budgets")
        .assume("visits are compared with the position searched alone only when no choice in the tree was closer than 1e-4; evaluations are compared within 2e-3");
    p.family_opts("tictactoe", (500, 20_000), 40, (vec((any::<bool>(), vec(any::<u8>(), 0..9)), 1..7), set(60)), tictactoe);
    p.family_opts("backgammon", (120, 4_000), 20, (vec(gen::open_position(), 1..4), set(25)), backgammon);
    p.family_opts("special", (120, 4_000), 20, (vec(special(), 1..4), set(25)), backgammon);
    let many = prop_oneof![Just(65_535u32), Just(65_536), Just(65_537), Just(70_000), Just(131_072)];
    p.family_opts("large-budgets", (6, 100), 2, (vec((any::<bool>(), vec(any::<u8>(), 8..14)), 1..3), set(60), many).prop_map(|(v, s, iterations)| (v, Set { iterations, ..s })), large);
    p.family_opts("crowds", (14, 300), 6, (prop_oneof![30u16..250, 250u16..600, 600u16..1400], any::<u64>(), set(8)), crowd);
    let starts = || vec((any::<u8>(), vec(any::<u8>(), 0..6)), 1..6);
    p.family_opts("synthetic", (400, 15_000), 40, (world(1..=8, 1..=7), starts(), set(50)), synthetic::<9, 3, 9, false>);
    p.family_opts("synthetic-dice", (300, 10_000), 40, (world(1..=8, 1..=12), starts(), set(50)), synthetic::<40, 2, 5, true>);
    p.family_opts("synthetic-large", (60, 2_000), 20, (world(1..=8, 1..=60), starts(), set(25)), synthetic::<2000, 1, 8, false>);
    p.finish()
}
