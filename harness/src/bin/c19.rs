//! C19: root noise mixes without breaking the prior.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts_parallel, apply_dirichlet_to_root};
use die_e::mcts::node_store::NodeStore;
use die_e::tictactoe::TicTacToe;
use indicatif::ProgressBar;
use proptest::collection::vec;
use proptest::prelude::*;
use vh::bg::*;
use vh::glue::Mc;
use vh::search::{ask_net, shares, Ref};
use vh::stats::FAR;
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

/// Statistics of noise vectors over draws.
struct Draws {
    k: usize,
    alpha: f64,
    n: f64,
    mean: Vec<f64>,
    q: Vec<f64>,
}

impl Draws {
    fn new(k: usize, alpha: f64) -> Self {
        Draws { k, alpha, n: 0.0, mean: vec![0.0; k], q: vec![] }
    }
    fn add(&mut self, v: &[f64]) {
        self.n += 1.0;
        for (m, x) in self.mean.iter_mut().zip(v) {
            *m += x;
        }
        self.q.push(v.iter().map(|x| x * x).sum());
    }
    /// Mean of every component and the expected sum of squares of a symmetric Dirichlet distribution.
    fn judge(&self, what: &str) -> Res {
        let (k, a, n) = (self.k as f64, self.alpha, self.n);
        let var = (1.0 / k) * (1.0 - 1.0 / k) / (k * a + 1.0);
        for (i, m) in self.mean.iter().enumerate() {
            let z = (m / n - 1.0 / k) / (var / n).sqrt();
            ensure!(z.abs() < FAR, "mean", "{}: component {} of {} has mean {:.4} over {} draws, score {:.1}", what, i, self.k, m / n, n, z);
        }
        let eq = (a + 1.0) / (k * a + 1.0);
        let mq: f64 = self.q.iter().sum::<f64>() / n;
        // the theoretical spread of the sum of squares: for small concentrations a sample has no usable one
        let s = k * a;
        let e2 = (k * a * (a + 1.0) * (a + 2.0) * (a + 3.0) + k * (k - 1.0) * (a * (a + 1.0)).powi(2)) / (s * (s + 1.0) * (s + 2.0) * (s + 3.0));
        let sd = (e2 - eq * eq).max(0.0).sqrt().max(1e-9);
        let z = (mq - eq) / (sd / n.sqrt());
        ensure!(z.abs() < FAR, "spread", "{}: mean sum of squares {:.5} over {} draws, a concentration of {} over {} gives {:.5} (score {:.1})", what, mq, n, a, self.k, eq, z);
        Ok(())
    }
}

fn noise(after: &[f64], before: &[f64], eps: f64, what: &str) -> Res<Vec<f64>> {
    let s: f64 = after.iter().sum();
    ensure!(after.iter().all(|x| x.is_finite()), "not-finite", "{}: priors {:?} became {:?}", what, before, after);
    ensure!((s - before.iter().sum::<f64>()).abs() < 1e-3, "sum", "{}: the mixture sums to {}", what, s);
    let v: Vec<f64> = after.iter().zip(before).map(|(a, b)| (a - (1.0 - eps) * b) / eps).collect();
    let tol = 2e-6 / eps + 1e-5;
    ensure!(after.iter().all(|x| *x >= 0.0), "negative", "{}: negative priors {:?}", what, after);
    ensure!(v.iter().all(|x| *x > -tol && *x < 1.0 + tol), "mixture", "{}: priors {:?} became {:?}, not a mixture with weight {}", what, before, after, eps);
    ensure!((v.iter().sum::<f64>() - 1.0).abs() < 1e-3 + tol * v.len() as f64, "mixture", "{}: the noise {:?} does not sum to one", what, v);
    Ok(v)
}

/// Draws that leave (almost) everything to one component may well repeat.
fn telling(v: &[f64]) -> bool {
    v.iter().all(|x| *x < 0.999)
}

type Case = (u8, f64, f64, u64);

/// Node::apply_dirichlet on a node with k children of given priors.
fn node(c: &Case, o: &mut Obs) -> Res {
    let (k, alpha, eps, seed) = *c;
    let k = 2 + k as usize % 8;
    // a tic-tac-toe position with k empty cells
    let p = {
        let mut b = [0i8; 9];
        let order = [0usize, 1, 2, 5, 3, 4, 6];
        for (i, x) in order.iter().take(9 - k).enumerate() {
            b[*x] = if i % 2 == 0 { 1 } else { -1 };
        }
        TPos { board: b, player: 1 }
    };
    let pri: Vec<f32> = {
        // some priors may be zero (networks underflow), not all
        let zeros = seed >> 50;
        let v: Vec<f64> = (0..k)
            .map(|i| match 1.0 + ((seed >> (i * 5)) % 32) as f64 {
                _ if zeros % 4 == 0 && (zeros >> (2 + i)) & 1 == 1 && i != (zeros >> 10) as usize % k => 0.0,
                x => x,
            })
            .collect();
        let s: f64 = v.iter().sum();
        v.iter().map(|x| (x / s) as f32).collect()
    };
    let mut st: NodeStore<TicTacToe> = NodeStore::new();
    let g = glue::tgame(&p);
    st.add_node(g, None, None, 0.7);
    st.add_node(g, None, None, 0.6);
    let mut pol = vec![0.0f32; 1352];
    for (m, x) in g.get_valid_moves().iter().zip(&pri) {
        pol[*m as usize] = *x;
    }
    for i in 0..2 {
        let mut n = st.get_node(i);
        sut("alpha_expand", || n.alpha_expand(&mut st, pol.clone()))?;
    }
    st.get_node_as_mut(0).visits = 1.0;
    let ch = st.get_node(0).children;
    // the priors of the children, whatever order they are stored in
    let by_child = |i: usize| -> Vec<f32> { st.get_node(i).children.iter().map(|x| st.get_node_ref(*x).action_taken.map_or(f32::NAN, |a| pol[a as usize])).collect() };
    let (pri, other) = (by_child(0), by_child(1));
    ensure!(pri.len() == k && pri.iter().all(|x| !x.is_nan()), "children", "{} children for {} actions", pri.len(), k);
    let before: Vec<f64> = pri.iter().map(|x| *x as f64).collect();
    let draws = if eps == 0.0 { 5 } else { 400 };
    let mut d = Draws::new(k, alpha as f32 as f64);
    let mut last: Option<Vec<f64>> = None;
    let mut same = 0;
    for _ in 0..draws {
        for (x, q) in ch.iter().zip(&pri) {
            st.get_node_as_mut(*x).policy = *q;
        }
        let n = st.get_node(0);
        sut("apply_dirichlet", || n.apply_dirichlet(alpha as f32, eps as f32, &mut st))?;
        o.eval();
        let after: Vec<f64> = ch.iter().map(|x| st.get_node_ref(*x).policy as f64).collect();
        if eps == 0.0 {
            ensure!(after == before, "eps-zero", "weight 0 changes the priors {:?} to {:?}", before, after);
            continue;
        }
        let v = noise(&after, &before, eps as f32 as f64, "Node::apply_dirichlet")?;
        if let Some(l) = &last {
            same += (telling(&v) && l.iter().zip(&v).all(|(a, b)| (a - b).abs() < 1e-6)) as u32;
        }
        d.add(&v);
        last = Some(v);
    }
    if eps > 0.0 {
        ensure!(same * 2 < draws, "same-noise", "{} of {} draws repeated the one before", same, draws);
        d.judge("Node::apply_dirichlet")?;
        o.nontrivial((k, alpha.to_bits(), eps.to_bits()));
    }
    // nothing else
    let a = st.get_node(0);
    ensure!(a.visits == 1.0 && a.value == 0.0 && a.policy == 0.7 && a.children == ch, "others-touched", "the node itself changed: {:?}", a);
    let b = st.get_node(1);
    ensure!(b.policy == 0.6 && b.children.iter().zip(&other).all(|(x, q)| st.get_node_ref(*x).policy == *q), "others-touched", "the noise reached another tree");
    ensure!(ch.iter().all(|x| st.get_node_ref(*x).visits == 0.0 && st.get_node_ref(*x).value == 0.0), "others-touched", "visits or values of children changed");
    o.class(format!("{} children", k));
    o.class_if(pri.contains(&0.0), "a prior of zero");
    o.class_if(alpha < 0.1, "small concentration");
    o.class(if eps == 0.0 { "weight 0" } else if eps == 1.0 { "weight 1" } else { "weight between" });
    o.sample(|| format!("{} children, concentration {:.2}, weight {:.2}: last noise {:?}", k, alpha, eps, last));
    Ok(())
}

/// The batched form, seen through a search of no iterations: on an empty board every action is legal.
fn tensor(c: &(f64, f64, u8), o: &mut Obs) -> Res {
    let (alpha, eps, n) = *c;
    let n = 1 + n as usize % 3;
    let net = glue::net::<TicTacToe>();
    glue::sharpen::<TicTacToe>(&net.vs, 3.0, 1.0);
    let g = glue::tgame(&TPos { board: [0; 9], player: -1 });
    let before: Vec<f64> = {
        let (p, _) = ask_net(&net, &g);
        p.iter().map(|x| *x as f64).collect()
    };
    let mc = Mc { iterations: 0, c: 1.0, limit: 10, alpha, eps }.build();
    let mut d = Draws::new(9, alpha as f32 as f64);
    let mut last: Option<Vec<f64>> = None;
    let (mut same, mut draws) = (0, 0);
    for _ in 0..if eps == 0.0 { 5 } else { 300 } {
        let mut st = NodeStore::new();
        sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut st, &vec![g; n], &net, &mc, Some(ProgressBar::hidden())))?;
        o.eval();
        for i in 0..n {
            let mut after = vec![0.0; 9];
            for k in &st.get_node(i).children {
                let x = st.get_node_ref(*k);
                after[x.action_taken.unwrap() as usize] = x.policy as f64;
            }
            if eps == 0.0 {
                ensure!(after.iter().zip(&before).all(|(a, b)| (a - b).abs() < 1e-5), "eps-zero", "weight 0 changes the priors {:?} to {:?}", before, after);
                continue;
            }
            let v = noise(&after, &before, eps as f32 as f64, "batched root noise")?;
            if let Some(l) = &last {
                draws += 1;
                same += (telling(&v) && l.iter().zip(&v).all(|(a, b)| (a - b).abs() < 1e-6)) as u32;
            }
            d.add(&v);
            last = Some(v);
        }
    }
    if eps > 0.0 {
        ensure!(same * 4 < draws, "same-noise", "{} of {} positions of batches of {} repeated the noise of the one before", same, draws, n);
        d.judge("batched root noise")?;
        o.nontrivial((alpha.to_bits(), eps.to_bits()));
    }
    o.class(if eps == 0.0 { "weight 0" } else if eps == 1.0 { "weight 1" } else { "weight between" });
    o.sample(|| format!("concentration {:.2}, weight {:.2}, batch of {}: last noise {:?}", alpha, eps, n, last));
    Ok(())
}

/// Every position of a large batch has noise of its own.
fn crowd(c: &(f64, f64, usize), o: &mut Obs) -> Res {
    let (alpha, eps, n) = *c;
    let net = glue::net::<TicTacToe>();
    glue::sharpen::<TicTacToe>(&net.vs, 3.0, 1.0);
    let g = glue::tgame(&TPos { board: [0; 9], player: -1 });
    let before: Vec<f64> = ask_net(&net, &g).0.iter().map(|x| *x as f64).collect();
    let mc = Mc { iterations: 0, c: 1.0, limit: 10, alpha, eps }.build();
    let mut st = NodeStore::new();
    sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut st, &vec![g; n], &net, &mc, Some(ProgressBar::hidden())))?;
    let mut d = Draws::new(9, alpha as f32 as f64);
    let mut all: Vec<Vec<f64>> = vec![];
    for i in 0..n {
        let mut after = vec![0.0; 9];
        for k in &st.get_node(i).children {
            let x = st.get_node_ref(*k);
            after[x.action_taken.unwrap() as usize] = x.policy as f64;
        }
        let v = noise(&after, &before, eps as f32 as f64, "batched root noise")?;
        d.add(&v);
        all.push(v);
        o.eval();
    }
    d.judge("batched root noise")?;
    for i in 0..n {
        let twin = (0..i).find(|j| telling(&all[i]) && all[i].iter().zip(&all[*j]).all(|(a, b)| (a - b).abs() < 1e-6));
        ensure!(twin.is_none(), "same-noise", "positions {} and {} of a batch of {} have the same noise {:?}", twin.unwrap(), i, n, all[i]);
    }
    o.class(format!("batch of {}+", n / 256 * 256));
    o.nontrivial((alpha.to_bits(), eps.to_bits(), n));
    o.sample(|| format!("{} positions, concentration {:.2}, weight {:.2}: last noise {:?}", n, alpha, eps, all[n - 1]));
    Ok(())
}

fn root<T: Ref>(g: &T, alpha: f64, eps: f64, draws: usize, o: &mut Obs) -> Res {
    let net = glue::net::<T>();
    glue::sharpen::<T>(&net.vs, 0.5 + 4.0 * (alpha % 1.0), 1.0);
    let mc = Mc { iterations: 1, c: 1.0, limit: 10, alpha, eps }.build();
    let _n = tch::no_grad_guard();
    let mut d: Option<Draws> = None;
    let mut before: Vec<f64> = vec![];
    let mut last: Vec<Vec<f64>> = vec![];
    for _ in 0..draws {
        let mut st: NodeStore<T> = NodeStore::new();
        st.add_node(*g, None, None, 0.0);
        sut("apply_dirichlet_to_root", || apply_dirichlet_to_root(0, &mut st, &net, g, &mc))?;
        o.eval();
        let ch = st.get_node(0).children;
        ensure!(ch.len() == g.ref_count(), "children", "{} children for {} plays in {}", ch.len(), g.ref_count(), g.show());
        if d.is_none() {
            let plays: Vec<T::Move> = ch.iter().map(|k| st.get_node(*k).action_taken.unwrap()).collect();
            before = shares(g, &plays, &ask_net(&net, g).0);
            d = Some(Draws::new(ch.len(), alpha as f32 as f64));
        }
        let after: Vec<f64> = ch.iter().map(|k| st.get_node_ref(*k).policy as f64).collect();
        if ch.len() == 1 {
            ensure!((after[0] - 1.0).abs() < 1e-5, "single", "the only play has prior {}", after[0]);
        } else if ch.len() > 1 {
            if eps == 0.0 {
                ensure!(after.iter().zip(&before).all(|(a, b)| (a - b).abs() < 1e-5), "eps-zero", "weight 0 changes the priors {:?} to {:?}", before, after);
            } else {
                let v = noise(&after, &before, eps as f32 as f64, "apply_dirichlet_to_root")?;
                d.as_mut().unwrap().add(&v);
                last.push(v);
            }
        }
    }
    let k = before.len();
    if eps > 0.0 && k > 1 {
        // noise at all: neither flat, nor the priors themselves, nor the same every time
        let near = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(a, b)| (a - b).abs() < 1e-6 + 2e-6 / eps);
        let flat = last.iter().filter(|v| v.iter().all(|x| (x - v[0]).abs() < 1e-6 + 2e-6 / eps)).count();
        let kept = last.iter().filter(|v| telling(v) && near(v, &before)).count();
        let same = last.windows(2).filter(|w| telling(&w[0]) && near(&w[0], &w[1])).count();
        ensure!(flat * 2 < draws, "no-noise", "{} of {} times the noise is flat: {:?}", flat, draws, last[0]);
        ensure!(kept * 2 < draws, "no-noise", "{} of {} times the priors {:?} stay what they were", kept, draws, before);
        ensure!(same * 2 < draws - 1, "same-noise", "{} of {} draws repeated the one before", same, draws);
        if draws >= 200 {
            d.unwrap().judge("apply_dirichlet_to_root")?;
        }
    }
    if k > 1 {
        o.nontrivial((g.show(), eps.to_bits()));
    }
    o.class(match k {
        0 => "no plays",
        1 => "one play",
        _ => "several plays",
    });
    o.sample(|| format!("{}: {} plays, weight {:.2}, {} draws", g.show(), k, eps, draws));
    Ok(())
}

fn root_t(c: &(bool, Vec<u8>, f64, f64, u8), o: &mut Obs) -> Res {
    let p = *TPos::run(if c.0 { 1 } else { -1 }, &c.1).iter().filter(|p| p.outcome().is_none()).last().unwrap();
    root::<TicTacToe>(&glue::tgame(&p), c.2, c.3, if c.4 % 8 == 0 { 300 } else { 8 }, o)
}

fn root_b(c: &(Pos, f64, f64), o: &mut Obs) -> Res {
    root::<Backgammon>(&glue::bgame(&c.0), c.1, c.2, 8, o)
}

fn eps() -> impl Strategy<Value = f64> + Clone {
    prop_oneof![1 => Just(0.0f64), 1 => Just(1.0f64), 4 => 0.05f64..1.0]
}

fn alpha() -> impl Strategy<Value = f64> + Clone {
    prop_oneof![2 => Just(0.3f64), 2 => 0.2f64..1.0, 2 => 1.0f64..8.0, 1 => 8.0f64..40.0, 2 => 0.01f64..0.2]
}

fn main() {
    let mut p = Prop::new("C19", "distinct settings (number of children, concentration, weight) with noise; distinct positions with several plays")
        .assume("concentrations from 0.01 to 40");
    p.family_opts("node", (1200, 40_000), 40, (any::<u8>(), alpha(), eps(), any::<u64>()), node);
    p.family_opts("batched", (60, 2_000), 20, (alpha(), eps(), any::<u8>()), tensor);
    p.family_opts("crowd", (24, 600), 10, (0.3f64..8.0, 0.3f64..=1.0, 100usize..1300), crowd);
    p.family_opts("root-tictactoe", (600, 20_000), 40, (any::<bool>(), vec(any::<u8>(), 0..9), alpha(), eps(), any::<u8>()), root_t);
    p.family_opts("root-backgammon", (120, 6_000), 20, (gen::open_position(), alpha(), eps()), root_b);
    p.finish()
}
