//! C04: mirroring a position mirrors everything the engine says about it.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use std::collections::BTreeSet;
use vh::bg::*;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

fn check(p: &Pos, o: &mut Obs) -> Res {
    let q = p.mirror();
    let (g, h) = (glue::bgame(p), glue::bgame(&q));
    let a = sut("get_valid_moves", || g.get_valid_moves())?;
    let b = sut("get_valid_moves", || h.get_valid_moves())?;
    let mut ra = BTreeSet::new();
    for m in &a {
        let r = sut("get_next_state", || Backgammon::get_next_state(p.board, m, p.player))?;
        // the mirrored play does the mirrored thing
        let mm = mirror_play(m);
        let s = sut("get_next_state", || Backgammon::get_next_state(q.board, &mm, q.player))?;
        ensure!(mirror(&r) == s, "apply", "{:?} in {:?} gives {:?}, its mirror image {:?} gives {:?}", m, p, r, mm, s);
        ra.insert(mirror(&r));
    }
    let mut rb = BTreeSet::new();
    for m in &b {
        rb.insert(sut("get_next_state", || Backgammon::get_next_state(q.board, m, q.player))?);
    }
    ensure!(ra == rb && a.len() == b.len(), "plays", "the plays of {:?} ({:?}) are not the mirror image of those of {:?} ({:?})", p, a, q, b);
    for player in [-1i8, 1] {
        let x = sut("is_collectible", || Backgammon::is_collectible(p.board, player))?;
        let y = sut("is_collectible", || Backgammon::is_collectible(q.board, -player))?;
        ensure!(x == y, "bearing-off", "bearing off for player {} in {:?}: {} but mirrored {}", player, p, x, y);
        let x = sut("check_win", || Backgammon::check_win(p.board, player))?;
        let y = sut("check_win", || Backgammon::check_win(q.board, -player))?;
        ensure!(x == y, "winner", "check_win for player {} in {:?}: {} but mirrored {}", player, p, x, y);
    }
    let (w, v) = (sut("check_winner", || g.check_winner())?, sut("check_winner", || h.check_winner())?);
    ensure!(w == v.map(|x| -x), "winner", "winner of {:?} is {:?}, of its mirror image {:?}", p, w, v);
    // the turn passes the same way
    let (mut g1, mut h1) = (g, h);
    sut("skip_turn", || g1.skip_turn())?;
    sut("skip_turn", || h1.skip_turn())?;
    ensure!(g1.player == -h1.player && g1.is_second_play == h1.is_second_play, "turn", "passing in {:?} and in its mirror image differ", p);
    if let (Some(m), true) = (a.first(), true) {
        let (mut g1, mut h1) = (g, h);
        sut("apply_move", || g1.apply_move(m))?;
        sut("apply_move", || h1.apply_move(&mirror_play(m)))?;
        ensure!(g1.player == -h1.player && g1.is_second_play == h1.is_second_play && g1.board == mirror(&h1.board), "turn", "playing {:?} in {:?} and in its mirror image differ", m, p);
    }
    for d in gen::describe(p) {
        o.class(d);
    }
    if p.board != q.board && (!a.is_empty() || w.is_some()) {
        o.nontrivial(p);
    }
    o.sample(|| format!("{:?}: {} plays on both sides", p, a.len()));
    Ok(())
}

fn main() {
    let mut p = Prop::new("C04", "distinct positions that are not their own mirror image and have a play or a winner");
    {
        let s = Backgammon::get_initial_state();
        p.family("start", (8, 8), proptest::strategy::Just(0u8), move |_, o| {
            let g = sut("new", Backgammon::new)?;
            ensure!(mirror(&s) == s && g.board == s && mirror(&g.board) == g.board, "start", "the starting position {:?} is not its own mirror image", g.board);
            o.class("start");
            Ok(())
        });
    }
    p.family("positions", (40_000, 3_000_000), gen::position(), check);
    p.finish()
}
