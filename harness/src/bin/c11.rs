//! C11: the MCTS agent always answers with a legal play.
use die_e::mcts::simple_mcts::mct_search;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::bg::*;
use vh::glue::Mc;
use die_e::base::LearnableGame;
use vh::search::Ref;
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Budget {
    iterations: u32,
    c: f64,
    limit: u64,
    other: bool,
}

fn budget(max: u32, limit: u64) -> impl Strategy<Value = Budget> + Clone {
    let it = prop_oneof![2 => 1u32..4, 3 => 1u32..max];
    let c = prop_oneof![Just(0.0f64), 0.01f64..4.0, Just(100.0)];
    (it, c, prop_oneof![2 => 0u64..3, 6 => 1u64..limit, 1 => prop_oneof![Just(256u64), Just(65536), Just(1 << 32), Just((1 << 32) + 1), Just(i64::MAX as u64)]], prop::bool::weighted(0.2))
        .prop_map(|(iterations, c, limit, other)| Budget { iterations, c, limit, other })
}

fn check<T: Ref>(g: &T, b: &Budget, o: &mut Obs) -> Res<T::Move> {
    let mc = Mc { iterations: b.iterations, c: b.c, limit: b.limit, alpha: 0.3, eps: 0.25 }.build();
    let before = *g;
    let player = if b.other { -g.get_player() } else { g.get_player() };
    let m = sut("mct_search", || mct_search(*g, player, &mc))?;
    ensure!(before.same_state(g), "state-changed", "the searched position changed: {} to {}", before.show(), g.show());
    if g.ref_outcome().is_some() {
        ensure!(m == T::EMPTY_MOVE, "play-after-end", "answers {:?} in the finished {}", m, g.show());
        o.class("finished game");
    } else if !g.ref_any() {
        ensure!(m == T::EMPTY_MOVE, "illegal", "answers {:?} in {} where nothing can be moved", m, g.show());
        o.class("no legal play");
    } else {
        ensure!(m != T::EMPTY_MOVE, "no-answer", "answers the empty play in {} with {} iterations", g.show(), b.iterations);
        ensure!(g.ref_legal(&m), "illegal", "answers {:?}, not legal in {}", m, g.show());
        o.class(if g.ref_count() > b.iterations as usize { "fewer iterations than plays" } else { "enough iterations for every play" });
    }
    Ok(m)
}

/// Positions where one side is shut out: passes inside the tree.
fn shut_out() -> BoxedStrategy<Pos> {
    (1usize..=3, vec(1u8..=24, 15), 5u8..=6, 1u8..=6, vec(1u8..=24, 15), gen::dice(), prop_oneof![Just(-1i8), Just(1i8)], prop_oneof![Just(-1i8), Just(1i8)], any::<bool>())
        .prop_map(|(bar, rest, closed, gap, extra, roll, first, player, s)| {
            let mut a: Vec<u8> = rest;
            for x in a.iter_mut().take(bar) {
                *x = 25;
            }
            // the other side holds home points of two checkers each
            let mut b: Vec<u8> = vec![];
            for d in 1u8..=6 {
                if closed == 6 || d != gap {
                    b.push(d);
                    b.push(d);
                }
            }
            for e in extra {
                if b.len() < 15 {
                    b.push(e);
                }
            }
            let board = gen::compose(&a, &b, first);
            Pos { board, player, roll, second: s && roll.0 == roll.1 }
        })
        .boxed()
}

fn backgammon(c: &(Pos, Budget), o: &mut Obs) -> Res {
    let (p, b) = c;
    let g = glue::bgame(p);
    let m = check(&g, b, o)?;
    for d in gen::describe(p) {
        o.class(d);
    }
    if winner(&p.board).is_none() {
        o.nontrivial((p, b.iterations));
    }
    o.sample(|| format!("{:?} {:?}: {:?}", p, b, m));
    Ok(())
}

fn tictactoe(c: &(u32, bool, Budget), o: &mut Obs) -> Res {
    let p = TPos::from_index(c.0 % 19683, if c.1 { 1 } else { -1 });
    if !p.consistent() {
        return Ok(());
    }
    let m = check(&glue::tgame(&p), &c.2, o)?;
    if p.outcome().is_none() {
        o.nontrivial((p, c.2.iterations));
    }
    o.sample(|| format!("{:?} {:?}: {:?}", p, c.2, m));
    Ok(())
}

/// Counters of many iterations must not run over.
fn large(c: &(u32, bool, Budget), o: &mut Obs) -> Res {
    let (i, first, b) = c;
    let p = (0..19683).map(|k| TPos::from_index((i % 19683 + k) % 19683, if *first { 1 } else { -1 })).find(|p| p.consistent() && p.outcome().is_none() && p.empty_cells().len() <= 2);
    let p = p.expect("an endgame");
    check(&glue::tgame(&p), b, o)?;
    o.nontrivial((p, b.iterations));
    o.sample(|| format!("{:?} {:?}", p, b));
    Ok(())
}

/// Made-up games.
fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<u8>, Budget), o: &mut Obs) -> Res {
    let (w, picks, b) = c;
    w.set();
    for g in Syn::<A, C, W, D>::run(*w, 0, picks).iter().rev().take(3) {
        let m = check(g, b, o)?;
        o.class(Syn::<A, C, W, D>::name());
        if g.outcome().is_none() {
            o.nontrivial((g, b.iterations));
        }
        o.sample(|| format!("{:?} {:?}: {:?}", g, b, m));
    }
    Ok(())
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let syn = (world(1..=12, 1..=branch), vec(any::<u8>(), 0..12), budget(120, 20));
    p.family(&format!("moves {}", name), times((1200, 30_000), k), syn, synthetic::<A, C, W, D>);
}

fn main() {
    let mut p = Prop::new("C11", "distinct unfinished positions with the search budget");
    p.family_opts("backgammon", (4000, 80_000), 60, (gen::position(), budget(60, 60)), backgammon);
    p.family_opts("shut-out", (4000, 80_000), 60, (shut_out(), budget(60, 40)), backgammon);
    p.family_opts("budgets", (60, 3_000), 30, (gen::open_position(), budget(400, 400)), backgammon);
    p.family("tictactoe", (12_000, 200_000), (any::<u32>(), any::<bool>(), budget(80, 12)), tictactoe);
    let many = prop_oneof![Just(65_535u32), Just(65_536), Just(65_537), Just(70_000), Just(131_072)];
    p.family_opts("large-budgets", (16, 400), 6, (any::<u32>(), any::<bool>(), many, 0.1f64..3.0).prop_map(|(i, f, iterations, c)| (i, f, Budget { iterations, c, limit: 20, other: false })), large);
    let syn = || (world(1..=12, 1..=9), vec(any::<u8>(), 0..12), budget(60, 20));
    p.family("synthetic", (3000, 60_000), syn(), synthetic::<9, 3, 9, false>);
    p.family("synthetic-dice", (3000, 60_000), syn(), synthetic::<40, 2, 5, true>);
    p.family("synthetic-large", (1500, 30_000), (world(1..=12, 1..=120), vec(any::<u8>(), 0..12), budget(200, 20)), synthetic::<5000, 4, 6, true>);
    p.finish()
}
