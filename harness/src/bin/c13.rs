//! C13: with a generous budget the searches play sound tactics.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::{mct_search, select_most_visits};
use die_e::tictactoe::TicTacToe;
use indicatif::ProgressBar;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::bg::*;
use vh::glue::Mc;
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Hash)]
enum Way {
    Plain,
    Single,
    Batched,
}

fn way() -> impl Strategy<Value = Way> + Clone {
    prop_oneof![Just(Way::Plain), Just(Way::Single), Just(Way::Batched)]
}

fn ask<T: LearnableGame>(w: Way, g: &T, mc: &Mc, net: impl FnOnce() -> ResNet) -> Res<T::Move> {
    let conf = mc.build();
    match w {
        Way::Plain => sut("mct_search", || mct_search(*g, g.get_player(), &conf)),
        Way::Single => {
            let net = net();
            let pi = sut("alpha_mcts", || alpha_mcts(g, &net, &conf))?;
            match pi {
                None => Ok(T::EMPTY_MOVE),
                Some(pi) => {
                    let k = glue::vecf(&pi).iter().enumerate().max_by(|a, b| a.1.partial_cmp(b.1).unwrap()).unwrap().0;
                    sut("decode", || g.decode(k as u32))
                }
            }
        }
        Way::Batched => {
            let net = net();
            let mut store = NodeStore::new();
            sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut store, &[*g], &net, &conf, Some(ProgressBar::hidden())))?;
            sut("select_most_visits", || select_most_visits(0, &store))
        }
    }
}

fn always_wins(p: &TPos, for_player: i8) -> bool {
    match p.outcome() {
        Some(w) => w == for_player,
        None => p.empty_cells().iter().all(|m| always_wins(&p.play(*m), for_player)),
    }
}

/// Endgames of tic-tac-toe: the answer keeps the game-theoretic result and takes a win on the spot.
fn tictactoe(c: &(bool, Vec<u8>, Way, u8), o: &mut Obs) -> Res {
    let (second, picks, w, cc) = c;
    // the last position of the game in which somebody still has a choice
    let p = match TPos::run(if *second { 1 } else { -1 }, picks).into_iter().filter(|p| p.outcome().is_none()).last() {
        Some(p) if (2..=6).contains(&p.empty_cells().len()) => p,
        _ => return Ok(()),
    };
    let e = p.empty_cells();
    let best = p.minimax();
    let val = |m: u8| -p.play(m).minimax();
    let wins: Vec<u8> = e.iter().cloned().filter(|m| p.play(*m).outcome() == Some(p.player)).collect();
    if e.iter().all(|m| val(*m) == best) && (wins.is_empty() || wins.len() == e.len()) {
        return Ok(());
    }
    let mc = Mc { iterations: if *w == Way::Plain { 4000 } else { 1600 }, c: 1.0 + (*cc % 3) as f64 * 0.5, limit: 50, alpha: 0.3, eps: 0.0 };
    let g = glue::tgame(&p);
    let m = ask(*w, &g, &mc, || {
        let n = glue::net::<TicTacToe>();
        glue::sharpen::<TicTacToe>(&n.vs, 0.3, 0.3);
        n
    })?;
    ensure!(e.contains(&m), "illegal", "{:?} answers {:?} in {:?}", w, m, p);
    if !wins.is_empty() {
        ensure!(wins.contains(&m) || always_wins(&p.play(m), p.player), "win-missed", "{:?} answers {} in {:?} although {:?} wins at once", w, m, p, wins);
        o.class(format!("{:?}: win at once", w));
    } else {
        ensure!(val(m) == best, "tactics", "{:?} answers {} in {:?}, worth {} with best replies; the best play is worth {}", w, m, p, val(m), best);
        o.class(format!("{:?}: {}", w, match best { 1 => "forced win", 0 => "only non-losing plays", _ => "lost" }));
    }
    o.class(format!("player {}", p.player));
    o.nontrivial((p, *w));
    o.sample(|| format!("{:?} {:?} answers {}", w, p, m));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    player: i8,
    mine: Vec<u8>,
    theirs: Vec<u8>,
    roll: (u8, u8),
    second: bool,
    w: Way,
}

fn bg_net() -> ResNet {
    let n = glue::net::<Backgammon>();
    glue::fix_heads::<Backgammon>(&n.vs, &[0f32; 1352], 0.0);
    n
}

fn board(player: i8, mine: &[u8], theirs: &[u8]) -> RawBoard {
    let fill = |v: &[u8]| { let mut v = v.to_vec(); v.resize(15, 0); v };
    gen::compose(&fill(mine), &fill(theirs), player)
}

/// The mover can bear off everything now, but also has plays that leave something behind.
fn race(c: &Race, o: &mut Obs) -> Res {
    let b = board(c.player, &c.mine, &c.theirs);
    let p = Pos { board: b, player: c.player, roll: c.roll, second: c.second && c.roll.0 == c.roll.1 };
    if winner(&b).is_some() {
        return Ok(());
    }
    let rs = p.results();
    let wins = rs.keys().filter(|r| winner(r) == Some(p.player)).count();
    if wins == 0 || wins == rs.len() {
        return Ok(());
    }
    // dice are thrown once per node of the tree, so the alternatives have to be bad for every throw
    if !rs.keys().all(|r| winner(r) == Some(p.player) || loses(&p, r)) {
        o.class("another play may win as well: skipped");
        return Ok(());
    }
    let iterations = (rs.len() * 60).max(120) as u32;
    let mc = Mc { iterations, c: 1.0, limit: 400, alpha: 0.3, eps: 0.0 };
    let g = glue::bgame(&p);
    let m = ask(c.w, &g, &mc, bg_net)?;
    ensure!(p.legal().iter().any(|x| x.0 == m), "illegal", "{:?} answers {:?} in {:?}", c.w, m, p);
    let r = apply_notation(&b, &m, p.player);
    ensure!(winner(&r) == Some(p.player), "win-missed", "{:?} answers {:?} in {:?} although another play wins at once", c.w, m, p);
    o.class(format!("{:?}: bears off the last checkers", c.w));
    o.class(format!("player {}", p.player));
    o.nontrivial((p, c.w));
    o.sample(|| format!("{:?} {:?} answers {:?}", c.w, p, m));
    Ok(())
}

/// After the mover's play to `r` the turn is the other side's and it wins in that turn with any throw and any play.
fn loses(p: &Pos, r: &RawBoard) -> bool {
    if winner(r).is_some() || (p.roll.0 == p.roll.1 && !p.second) {
        return false;
    }
    let won = |q: &RawBoard| winner(q) == Some(-p.player);
    (1..=6u8).all(|x| {
        (x..=6u8).all(|y| {
            let rs = legal_results(r, (x, y), -p.player);
            !rs.is_empty() && rs.keys().all(|q| won(q) || (x == y && { let r2 = legal_results(q, (x, y), -p.player); !r2.is_empty() && r2.keys().all(won) }))
        })
    })
}

/// Made-up games without passes: the most valuable play under perfect play on both sides.
fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<u8>, Way, u8), o: &mut Obs) -> Res {
    let (w, picks, way, cc) = c;
    let w = World { pass: 0, ..*w };
    w.set();
    let g = Syn::<A, C, W, D>::open(w, 0, picks);
    let st = g.steps();
    let val = |m: u32| g.after(m).minimax() * g.player;
    let best = st.iter().map(|m| val(*m)).max().unwrap();
    if st.iter().all(|m| val(*m) == best) {
        return Ok(());
    }
    let mc = Mc { iterations: if *way == Way::Plain { 6000 } else { 2500 }, c: 1.0 + (*cc % 3) as f64 * 0.5, limit: 50, alpha: 0.3, eps: 0.0 };
    let m = ask(*way, &g, &mc, || {
        let n = glue::net::<Syn<A, C, W, D>>();
        glue::sharpen::<Syn<A, C, W, D>>(&n.vs, 0.3, 0.3);
        n
    })?;
    ensure!(st.contains(&m.0), "illegal", "{:?} answers {:?} in {:?}", way, m, g);
    ensure!(val(m.0) == best, "tactics", "{:?} answers {:?} in {:?}, worth {} with best replies; the best play is worth {}", way, m, g, val(m.0), best);
    o.class(format!("{:?}: best {}", way, best));
    o.class_if(st.iter().any(|m| g.after(*m).player == g.player && g.after(*m).outcome().is_none()), "same side again after a play");
    o.nontrivial((g, *way));
    o.sample(|| format!("{:?} {:?} answers {:?}", way, g, m));
    Ok(())
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    p.family_opts(&format!("tactics {}", name), times((200, 6_000), k), 40, (world(1..=4, 2.min(branch)..=4.min(branch)), vec(any::<u8>(), 0..2), way(), any::<u8>()), synthetic::<A, C, W, D>);
}

fn main() {
    let mut p = Prop::new("C13", "distinct positions (and kind of search) in which some plays keep the result and others give it away")
        .assume("budgets: 4000 / 1600 iterations in tic-tac-toe endgames of at most 6 empty cells, 60 per play in backgammon wins; dice inside the tree are thrown once per node, so the alternatives to a win must lose for every throw");
    p.family_opts("tictactoe", (900, 30_000), 40, (any::<bool>(), vec(any::<u8>(), 3..8), way(), any::<u8>()), tictactoe);
    let race_s = (prop_oneof![Just(-1i8), Just(1i8)], vec(1u8..=6, 1..=2), prop_oneof![4 => vec(1u8..=3, 1), 1 => vec(1u8..=1, 2)], gen::dice(), any::<bool>(), way())
        .prop_map(|(player, mine, theirs, roll, second, w)| Race { player, mine, theirs, roll, second, w });
    p.family_opts("race", (6_000, 40_000), 20, race_s, race);
    p.family_opts("synthetic", (900, 30_000), 40, (world(1..=4, 2..=4), vec(any::<u8>(), 0..2), way(), any::<u8>()), synthetic::<9, 3, 9, false>);
    p.family_opts("synthetic-dice", (600, 20_000), 40, (world(1..=4, 2..=4), vec(any::<u8>(), 0..2), way(), any::<u8>()), synthetic::<40, 2, 5, true>);
    p.finish()
}
