//! C18: priors and visit counts become distributions over legal plays.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::utils::*;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use tch::Tensor;
use vh::bg::*;
use vh::search::Ref;
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, fail, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Shape {
    Flat,
    Random,
    /// most entries zero
    Sparse,
    /// nearly everything on one entry
    Peaked,
    /// entries over many orders of magnitude
    Wide,
    /// no weight on legal plays
    Elsewhere,
}

fn shape() -> impl Strategy<Value = Shape> + Clone {
    prop_oneof![Just(Shape::Flat), Just(Shape::Random), Just(Shape::Sparse), Just(Shape::Peaked), Just(Shape::Wide), Just(Shape::Elsewhere)]
}

fn policy(n: usize, legal: &[usize], s: Shape, seed: u64, normalised: bool) -> Vec<f32> {
    let mut r = rand::rngs::StdRng::seed_from_u64(seed);
    let mut v: Vec<f64> = (0..n)
        .map(|_| match s {
            Shape::Flat => 1.0,
            Shape::Random => r.gen::<f64>(),
            Shape::Sparse => if r.gen_bool(0.15) { r.gen::<f64>() } else { 0.0 },
            Shape::Peaked => 1e-6 * r.gen::<f64>(),
            Shape::Wide => 10f64.powf(-r.gen::<f64>() * 20.0),
            Shape::Elsewhere => r.gen::<f64>(),
        })
        .collect();
    if s == Shape::Peaked {
        v[r.gen_range(0..n)] = 1.0;
    }
    if s == Shape::Elsewhere {
        for k in legal {
            v[*k] = 0.0;
        }
    }
    let t: f64 = v.iter().sum();
    let k = if normalised && t > 0.0 { 1.0 / t } else { 1.0 };
    v.iter().map(|x| (x * k) as f32).collect()
}

fn distribution(v: &[f32], legal: &[usize], what: &str) -> Res {
    let s: f64 = v.iter().map(|x| *x as f64).sum();
    ensure!(v.iter().all(|x| *x >= 0.0), "negative", "{}: a negative or undefined entry {:?}", what, v.iter().find(|x| !(**x >= 0.0)));
    ensure!((s - 1.0).abs() < 1e-4, "sum", "{}: the entries sum to {}", what, s);
    for (i, x) in v.iter().enumerate() {
        ensure!(*x == 0.0 || legal.contains(&i), "illegal-mass", "{}: entry {} has {} and is no legal play", what, i, x);
    }
    Ok(())
}

fn same(a: &[f32], b: &[f64], what: &str) -> Res {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!((*x as f64 - y).abs() < 2e-5, "proportion", "{}: entry {} is {}, expected {:.6}", what, i, x, y);
    }
    Ok(())
}

fn run<T: Ref>(gs: &[T], shapes: &[Shape], seed: u64, normalised: bool, o: &mut Obs) -> Res {
    let a = T::ACTION_SPACE_SIZE as usize;
    let mut st: NodeStore<T> = NodeStore::new();
    for g in gs {
        sut("add_node", || st.add_node(*g, None, None, 0.0))?;
    }
    // priors
    let mut rows = vec![];
    let mut legals: Vec<Vec<usize>> = vec![];
    let mut wants = vec![];
    for (i, g) in gs.iter().enumerate() {
        let n = st.get_node(i);
        let legal: Vec<usize> = n.expandable_moves.iter().map(|m| g.encode(m) as usize).collect();
        ensure!(legal.len() == g.ref_count(), "plays", "a node of {} knows {} plays", g.show(), legal.len());
        let p = policy(a, &legal, shapes[i % shapes.len()], seed ^ i as u64, normalised);
        let t = Tensor::from_slice(&p);
        if !legal.is_empty() {
            let w: f64 = legal.iter().map(|k| p[*k] as f64).sum();
            let want: Option<Vec<f64>> = if w > 1e-25 {
                Some((0..a).map(|k| if legal.contains(&k) { p[k] as f64 / w } else { 0.0 }).collect())
            } else {
                None
            };
            let v = sut("turn_policy_to_probs", || turn_policy_to_probs(&t, &n))?;
            ensure!(v.len() >= a, "length", "{} priors", v.len());
            distribution(&v, &legal, &format!("turn_policy_to_probs of {}", g.show()))?;
            let tv = glue::vecf(&sut("turn_policy_to_probs_tensor", || turn_policy_to_probs_tensor(&t, &n))?);
            ensure!(tv.len() == a, "length", "{} priors", tv.len());
            distribution(&tv, &legal, &format!("turn_policy_to_probs_tensor of {}", g.show()))?;
            match &want {
                Some(w) => {
                    same(&v[..a], w, &format!("turn_policy_to_probs of {}", g.show()))?;
                    same(&tv, w, &format!("turn_policy_to_probs_tensor of {}", g.show()))?;
                }
                None => o.class("no weight on legal plays"),
            }
            ensure!(v[..a].iter().zip(&tv).all(|(x, y)| (x - y).abs() < 2e-5), "forms", "the forms disagree for {}", g.show());
            ensure!(glue::vecf(&t) == p, "input-changed", "the policy was changed");
            wants.push(Some((want, tv)));
            o.class(format!("{:?}", shapes[i % shapes.len()]));
            o.class_if(legal.len() == 1, "one play");
            if legal.len() > 1 {
                o.nontrivial((g.show(), seed));
            }
        } else {
            o.class("no plays");
            wants.push(None);
        }
        rows.push(t);
        legals.push(legal);
        o.eval();
    }
    let idx: Vec<usize> = (0..gs.len()).collect();
    let all = Tensor::stack(&rows, 0);
    let par = sut("turn_policy_to_probs_tensor_parallel", || turn_policy_to_probs_tensor_parallel(&st, &idx, &all))?;
    ensure!(par.size() == [gs.len() as i64, a as i64], "shape", "batched priors of shape {:?}", par.size());
    ensure!(all.equal(&Tensor::stack(&rows, 0)), "input-changed", "the policies were changed");
    for i in 0..gs.len() {
        if let Some((want, tv)) = &wants[i] {
            let v = glue::vecf(&par.get(i as i64));
            let what = format!("turn_policy_to_probs_tensor_parallel row {} of {} ({})", i, gs.len(), gs[i].show());
            distribution(&v, &legals[i], &what)?;
            if let Some(w) = want {
                same(&v, w, &what)?;
            }
            ensure!(v.iter().zip(tv).all(|(x, y)| (x - y).abs() < 2e-5), "forms", "{}: differs from the single form", what);
        }
    }
    // visits
    let mut r = rand::rngs::StdRng::seed_from_u64(seed ^ 77);
    let mut visit_rows: Vec<Option<Vec<f64>>> = vec![];
    for (i, g) in gs.iter().enumerate() {
        let mut nd = st.get_node(i);
        let pol = vec![0.5f32; a.max(1352)];
        sut("alpha_expand", || nd.alpha_expand(&mut st, pol.clone()))?;
        let ch = st.get_node(i).children;
        if ch.is_empty() {
            ensure!(sut("get_prob_tensor", || get_prob_tensor(g, i, &st))?.is_none(), "no-children", "get_prob_tensor gives something for {} without plays", g.show());
            visit_rows.push(None);
            continue;
        }
        let style = r.gen_range(0..4);
        let mut total = 0.0;
        for (k, c) in ch.iter().enumerate() {
            let v = match style {
                0 => r.gen_range(0..5),
                1 => if k == 0 { 1 } else { 0 },
                2 => r.gen_range(1..400),
                _ => if r.gen_bool(0.3) { r.gen_range(1..100_000) } else { 0 },
            } as f32;
            st.get_node_as_mut(*c).visits = v;
            total += v as f64;
        }
        if total == 0.0 {
            st.get_node_as_mut(*ch.last().unwrap()).visits = 3.0;
            total = 3.0;
        }
        let mut want = vec![0.0; a];
        for c in &ch {
            let n = st.get_node_ref(*c);
            want[g.encode(n.action_taken.as_ref().unwrap()) as usize] = n.visits as f64 / total;
        }
        let v = match sut("get_prob_tensor", || get_prob_tensor(g, i, &st))? {
            Some(t) => glue::vecf(&t),
            None => return fail("no-children", format!("get_prob_tensor has no answer for {}", g.show())),
        };
        ensure!(v.len() == a, "length", "{} visit shares", v.len());
        distribution(&v, &legals[i], &format!("get_prob_tensor of {}", g.show()))?;
        same(&v, &want, &format!("get_prob_tensor of {}", g.show()))?;
        visit_rows.push(Some(want));
        o.eval();
        o.class("visit shares");
    }
    if visit_rows.iter().any(|x| x.is_some()) {
        let roots: Vec<&die_e::mcts::node::Node<T>> = (0..gs.len()).map(|i| st.get_node_ref(i)).collect();
        let t = sut("get_prob_tensor_parallel", || get_prob_tensor_parallel(&roots, &st))?;
        ensure!(t.size() == [gs.len() as i64, a as i64], "shape", "batched visit shares of shape {:?}", t.size());
        for (i, w) in visit_rows.iter().enumerate() {
            if let Some(w) = w {
                let v = glue::vecf(&t.get(i as i64));
                let what = format!("get_prob_tensor_parallel row {} of {} ({})", i, gs.len(), gs[i].show());
                distribution(&v, &legals[i], &what)?;
                same(&v, w, &what)?;
            }
        }
        // any nodes in any order: the rows are theirs
        let mut order: Vec<usize> = (0..gs.len()).filter(|i| visit_rows[*i].is_some()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, r.gen_range(0..=i));
        }
        order.truncate(r.gen_range(1..=order.len()));
        let some: Vec<&die_e::mcts::node::Node<T>> = order.iter().map(|i| st.get_node_ref(*i)).collect();
        let t = sut("get_prob_tensor_parallel", || get_prob_tensor_parallel(&some, &st))?;
        ensure!(t.size() == [order.len() as i64, a as i64], "shape", "batched visit shares of shape {:?} for {} nodes", t.size(), order.len());
        for (row, i) in order.iter().enumerate() {
            same(&glue::vecf(&t.get(row as i64)), visit_rows[*i].as_ref().unwrap(), &format!("get_prob_tensor_parallel row {} of nodes {:?} ({})", row, order, gs[*i].show()))?;
        }
        o.class(if order.iter().enumerate().all(|(i, x)| i == *x) { "nodes in order" } else { "nodes in another order" });
        o.class(format!("batch of {}", if gs.len() > 3 { "4+".to_string() } else { gs.len().to_string() }));
    }
    o.sample(|| format!("{} positions, shapes {:?}, first {}", gs.len(), shapes, gs[0].show()));
    Ok(())
}

fn tictactoe(c: &(Vec<(bool, Vec<u8>)>, Vec<Shape>, u64, bool), o: &mut Obs) -> Res {
    let gs: Vec<TicTacToe> = c.0.iter().map(|(f, p)| glue::tgame(TPos::run(if *f { 1 } else { -1 }, p).iter().filter(|p| p.outcome().is_none()).last().unwrap())).collect();
    run(&gs, &c.1, c.2, c.3, o)
}

fn backgammon(c: &(Vec<Pos>, Vec<Shape>, u64, bool), o: &mut Obs) -> Res {
    let gs: Vec<Backgammon> = c.0.iter().map(glue::bgame).collect();
    run(&gs, &c.1, c.2, c.3, o)
}

fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<(u8, Vec<u8>)>, Vec<Shape>, u64, bool), o: &mut Obs) -> Res {
    c.0.set();
    let gs: Vec<Syn<A, C, W, D>> = c.1.iter().map(|(n, p)| Syn::open(c.0, *n as u32, p)).collect();
    run(&gs, &c.2, c.3, c.4, o)
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let starts = vec((any::<u8>(), vec(any::<u8>(), 0..6)), 1..6);
    p.family(&format!("distributions {}", name), times((400, 15_000), k), (world(1..=8, 1..=branch), starts, vec(shape(), 1..4), any::<u64>(), any::<bool>()), synthetic::<A, C, W, D>);
}

fn main() {
    let mut p = Prop::new("C18", "distinct positions with several plays and their policy");
    p.family("tictactoe", (6000, 200_000), (vec((any::<bool>(), vec(any::<u8>(), 0..9)), 1..7), vec(shape(), 1..4), any::<u64>(), any::<bool>()), tictactoe);
    // batches larger than any list of fixed size
    let crowd = || prop_oneof![3 => 100usize..1500, 1 => (6u32..11, 0usize..3).prop_map(|(e, d)| (1usize << e) + d - 1)];
    p.family_opts("tictactoe-crowd", (80, 2_000), 10, (crowd().prop_flat_map(|n| vec((any::<bool>(), vec(any::<u8>(), 0..9)), n)), vec(shape(), 1..4), any::<u64>(), any::<bool>()), tictactoe);
    p.family_opts("synthetic-crowd", (80, 2_000), 10, (world(1..=8, 1..=12), crowd().prop_flat_map(|n| vec((any::<u8>(), vec(any::<u8>(), 0..6)), n)), vec(shape(), 1..4), any::<u64>(), any::<bool>()), synthetic::<40, 2, 5, true>);
    p.family("backgammon", (1500, 60_000), (vec(gen::open_position(), 1..6), vec(shape(), 1..4), any::<u64>(), any::<bool>()), backgammon);
    let starts = || vec((any::<u8>(), vec(any::<u8>(), 0..6)), 1..6);
    p.family("synthetic", (1500, 60_000), (world(1..=8, 1..=40), starts(), vec(shape(), 1..4), any::<u64>(), any::<bool>()), synthetic::<40, 2, 5, true>);
    p.family("synthetic-large", (1000, 40_000), (world(1..=8, 1..=200), starts(), vec(shape(), 1..4), any::<u64>(), any::<bool>()), synthetic::<5000, 4, 6, true>);
    p.finish()
}
