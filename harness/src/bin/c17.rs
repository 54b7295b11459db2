//! C17: asking a model for its move gives a legal play.
use die_e::alphazero::alphazero::AlphaZero;
use die_e::base::LearnableGame;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::mcts::alpha_mcts::alpha_mcts;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::bg::*;
use vh::glue::{Az, Mc};
use vh::search::Ref;
use vh::stats::*;
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, fail, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Set {
    iterations: u32,
    c: f64,
    eps: f64,
    temperature: f64,
    policy: f64,
    value: f64,
}

fn set(max: u32) -> impl Strategy<Value = Set> + Clone {
    let t = prop_oneof![3 => 0.3f64..3.0, 1 => Just(1.0f64), 1 => 0.002f64..0.3, 1 => 3.0f64..100.0];
    (prop_oneof![1 => 1u32..4, 4 => 1u32..max], 0.1f64..4.0, prop_oneof![1 => Just(0.0f64), 1 => 0.01f64..0.6], t, prop_oneof![3 => 0.1f64..4.0, 1 => 1.0f64..60.0], 0.1f64..10.0)
        .prop_map(|(iterations, c, eps, temperature, policy, value)| Set { iterations, c, eps, temperature, policy, value })
}

fn learner<T: Ref>(s: &Set) -> AlphaZero {
    let az = glue::learner::<T>(
        &Mc { iterations: s.iterations, c: s.c, limit: 100, alpha: 0.3, eps: s.eps },
        &Az { temperature: s.temperature, ..Az::default() },
    );
    glue::sharpen::<T>(&az.model.vs, s.policy, s.value);
    az
}

fn check<T: Ref>(g: &T, az: &AlphaZero, o: &mut Obs) -> Res<T::Move> {
    let before = *g;
    let m = sut("get_next_move_for_state", || az.get_next_move_for_state(g))?;
    ensure!(before.same_state(g), "state-changed", "the position changed: {}", g.show());
    if g.ref_outcome().is_some() {
        ensure!(m == T::EMPTY_MOVE, "play-after-end", "answers {:?} in the finished {}", m, g.show());
        o.class("finished game");
    } else if !g.ref_any() {
        ensure!(m == T::EMPTY_MOVE, "illegal", "answers {:?} in {} where nothing can be moved", m, g.show());
        o.class("no legal play");
    } else {
        ensure!(m != T::EMPTY_MOVE && g.ref_legal(&m), "illegal", "answers {:?}, not legal in {}", m, g.show());
        o.class("legal play");
    }
    o.eval();
    Ok(m)
}

fn backgammon(c: &(Vec<Pos>, Set), o: &mut Obs) -> Res {
    let az = sut("AlphaZero::new", || learner::<Backgammon>(&c.1))?;
    for p in &c.0 {
        let m = check(&glue::bgame(p), &az, o)?;
        if winner(&p.board).is_none() {
            o.nontrivial((p, c.1.iterations));
        }
        o.sample(|| format!("{:?} {:?}: {:?}", p, c.1, m));
    }
    Ok(())
}

fn tictactoe(c: &(Vec<u32>, bool, Set), o: &mut Obs) -> Res {
    let az = sut("AlphaZero::new", || learner::<TicTacToe>(&c.2))?;
    for i in &c.0 {
        let p = TPos::from_index(*i % 19683, if c.1 { 1 } else { -1 });
        if !p.consistent() {
            continue;
        }
        let m = check(&glue::tgame(&p), &az, o)?;
        if p.outcome().is_none() {
            o.nontrivial((p, c.2.iterations));
        }
        o.sample(|| format!("{:?} {:?}: {:?}", p, c.2, m));
    }
    Ok(())
}

/// The visit distribution itself, and how moves are drawn from it.
fn drawn(c: &(bool, Vec<u8>, Set), o: &mut Obs) -> Res {
    let (first, picks, s) = c;
    let mut s = *s;
    s.eps = 0.0;
    let p = *TPos::run(if *first { 1 } else { -1 }, picks).iter().filter(|p| p.outcome().is_none()).last().unwrap();
    drawn_from(&glue::tgame(&p), &s, o)
}

fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<u8>, Set), o: &mut Obs) -> Res {
    c.0.set();
    let g = Syn::<A, C, W, D>::open(c.0, 0, &c.1);
    o.class(Syn::<A, C, W, D>::name());
    if g.steps().is_empty() {
        let az = sut("AlphaZero::new", || learner::<Syn<A, C, W, D>>(&c.2))?;
        check(&g, &az, o)?;
        return Ok(());
    }
    drawn_from(&g, &Set { eps: 0.0, ..c.2 }, o)
}

fn drawn_from<T: Ref>(g: &T, s: &Set, o: &mut Obs) -> Res {
    let a = T::ACTION_SPACE_SIZE as usize;
    let p = g.show();
    let az = sut("AlphaZero::new", || learner::<T>(s))?;
    let plays = sut("get_valid_moves", || g.get_valid_moves())?;
    let codes: Vec<usize> = plays.iter().map(|m| g.encode(m) as usize).collect();
    let pi = match sut("alpha_mcts", || alpha_mcts(g, &az.model, &az.mcts_config))? {
        Some(pi) => glue::vecf(&pi),
        None => return fail("no-answer", format!("alpha_mcts has no answer in {:?}", p)),
    };
    ensure!(pi.len() == a && pi.iter().all(|x| *x >= 0.0) && (pi.iter().sum::<f32>() - 1.0).abs() < 1e-4, "distribution", "alpha_mcts gives {:?} in {:?}", pi, p);
    for k in 0..a {
        ensure!(pi[k] == 0.0 || codes.contains(&k), "illegal", "alpha_mcts gives {} to the illegal {} in {:?}", pi[k], k, p);
        let n = pi[k] * s.iterations as f32;
        ensure!((n - n.round()).abs() < 1e-2, "visit-share", "{} of {} visits for {} in {:?}", n, s.iterations, k, p);
    }
    // sharpened by the temperature
    let top = pi.iter().cloned().fold(0.0, f32::max) as f64;
    let w: Vec<f64> = pi.iter().map(|x| (*x as f64 / top).powf(1.0 / s.temperature)).collect();
    let total: f64 = w.iter().sum();
    let w: Vec<f64> = w.iter().map(|x| x / total).collect();
    let n = 150;
    let mut counts = vec![0u64; a];
    for _ in 0..n {
        let m = check(g, &az, o)?;
        let k = g.encode(&m) as usize;
        ensure!(pi[k] > 0.0, "unvisited", "plays {:?} which was never visited in {:?}: {:?}", m, p, pi);
        counts[k] += 1;
    }
    for k in 0..a {
        let e = w[k].min(1.0 - w[k]) * n as f64;
        if w[k] < 1e-9 {
            ensure!(counts[k] == 0, "temperature", "plays {} {} times of {} although its weight at temperature {} is {:.1e}; visits {:?}", k, counts[k], n, s.temperature, w[k], pi);
        } else if e >= 4.0 {
            let z = prop_z(counts[k], n, w[k]).abs();
            ensure!(z < FAR, "temperature", "plays {} {} times of {}, its share at temperature {} is {:.4} (score {:.1}); visits {:?}", k, counts[k], n, s.temperature, w[k], z, pi);
        }
    }
    o.class(if s.temperature < 0.3 { "low temperature" } else if s.temperature > 3.0 { "high temperature" } else { "usual temperature" });
    if pi.iter().filter(|x| **x > 0.0).count() > 1 {
        o.nontrivial((&p, s.iterations, s.temperature.to_bits()));
    }
    o.sample(|| format!("{:?} {:?}: visits {:?}, drawn {:?}", p, s, codes.iter().map(|k| pi[*k]).collect::<Vec<_>>(), codes.iter().map(|k| counts[*k]).collect::<Vec<_>>()));
    Ok(())
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    p.family_opts(&format!("model moves {}", name), times((20, 600), k), 15, (world(1..=8, 1..=branch), vec(any::<u8>(), 0..5), set(20)), synthetic::<A, C, W, D>);
}

fn main() {
    let mut p = Prop::new("C17", "distinct unfinished positions with the search budget")
        .assume("a dummy or foreign ./models directory is not present while the learners are built");
    p.family_opts("backgammon", (120, 6_000), 20, (vec(gen::position(), 1..5), set(25)), backgammon);
    p.family_opts("tictactoe", (400, 20_000), 40, (vec(any::<u32>(), 1..20), any::<bool>(), set(60)), tictactoe);
    p.family_opts("drawn", (120, 5_000), 20, (any::<bool>(), vec(any::<u8>(), 0..9), set(24)), drawn);
    p.family_opts("synthetic", (80, 3_000), 20, (world(1..=8, 1..=7), vec(any::<u8>(), 0..5), set(24)), synthetic::<9, 3, 9, false>);
    p.family_opts("synthetic-dice", (60, 2_000), 20, (world(1..=8, 1..=12), vec(any::<u8>(), 0..5), set(24)), synthetic::<40, 2, 5, true>);
    p.family_opts("synthetic-large", (16, 400), 10, (world(1..=4, 1..=30), vec(any::<u8>(), 0..5), set(12)), synthetic::<5000, 4, 6, true>);
    p.finish()
}
