//! C05: a game ends exactly when a side has borne off all 15.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::node::Node;
use proptest::collection::vec;
use proptest::prelude::*;
use vh::bg::*;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

fn ways(g: &Backgammon, o: &mut Obs) -> Res<Option<i8>> {
    let want = winner(&g.board);
    let a = sut("check_winner", || g.check_winner())?;
    ensure!(a == want, "winner", "check_winner of {:?} is {:?}, should be {:?}", g, a, want);
    let b = sut("check_win_without_player", || Backgammon::check_win_without_player(g.board))?;
    ensure!(b == want, "winner", "check_win_without_player of {:?} is {:?}, should be {:?}", g, b, want);
    for p in [-1i8, 1] {
        let c = sut("check_win", || Backgammon::check_win(g.board, p))?;
        ensure!(c == (want == Some(p)), "winner", "check_win({}) of {:?} is {}", p, g, c);
    }
    if g.roll != (0, 0) {
        let t = sut("Node::is_terminal", || Node::new(*g, 0, None, None, 0.).is_terminal())?;
        ensure!(t == want.is_some(), "winner", "a search node of {:?} is terminal: {}", g, t);
    }
    o.eval();
    Ok(want)
}

/// Ends of games: counts borne off close to 15.
fn ends() -> BoxedStrategy<Pos> {
    (0u8..=3, 0u8..=6, vec(1u8..=25, 16), vec(1u8..=25, 16), gen::dice(), prop_oneof![Just(-1i8), Just(1i8)], prop_oneof![Just(-1i8), Just(1i8)], any::<bool>())
        .prop_map(|(left_a, left_b, da, db, roll, first, player, s)| {
            let mk = |n: u8, d: &[u8]| (0..15).map(|i| if i < n as usize { d[i] } else { 0 }).collect::<Vec<u8>>();
            let board = compose(&mk(left_a, &da), &mk(left_b.max((left_a == 0) as u8), &db), first);
            Pos { board, player, roll, second: s && roll.0 == roll.1 }
        })
        .boxed()
}
use vh::gen::compose;

fn winner_check(p: &Pos, o: &mut Obs) -> Res {
    let g = glue::bgame(p);
    let w = ways(&g, o)?;
    if let Some(w) = w {
        for roll in [(p.roll.0, p.roll.1), (6, 6), (1, 2)] {
            let mut h = g;
            h.player = w;
            h.roll = roll;
            let m = sut("get_valid_moves", || h.get_valid_moves())?;
            ensure!(m.is_empty(), "play-after-win", "the winner still has plays {:?} in {:?}", m, h);
        }
        o.class("won");
    } else if p.board.2 .0 == 14 || p.board.2 .1 == 14 {
        o.class("one checker left");
    }
    if w.is_some() || p.board.2 .0.max(p.board.2 .1) >= 12 {
        o.nontrivial(p);
    }
    o.sample(|| format!("{:?} winner {:?}", p, w));
    Ok(())
}

/// Both sides on the bar against closed boards: by the rules nobody can ever move again.
fn mutual_block(b: &RawBoard) -> bool {
    [-1i8, 1].iter().all(|p| (1..=6u8).all(|x| (x..=6).all(|y| legal(b, (x, y), *p).is_empty())))
}

/// A whole game by arbitrary plays, with dice thrown by the engine.
fn game(c: &(Pos, Vec<u16>), o: &mut Obs) -> Res {
    let (start, picks) = c;
    let mut g = glue::bgame(start);
    let mut plies = 0usize;
    let mut passes = 0;
    let mut w = ways(&g, o)?;
    while w.is_none() {
        if plies == 20_000 && mutual_block(&g.board) {
            o.class("both sides shut out for good");
            return Ok(());
        }
        ensure!(plies < 20_000, "endless", "no winner after {} plies from {:?}, now {:?}", plies, start, g);
        let me = g.player;
        let before = g;
        let moves = sut("get_valid_moves", || g.get_valid_moves())?;
        if moves.is_empty() {
            sut("skip_turn", || g.skip_turn())?;
            passes += 1;
        } else {
            let m = &moves[picks[plies % picks.len()] as usize % moves.len()];
            sut("apply_move", || g.apply_move(m))?;
            let (x, y) = (pips(&before.board, me), pips(&g.board, me));
            ensure!(y < x && x - y <= before.roll.0 as i32 + before.roll.1 as i32, "distance", "{:?} in {:?} takes the mover's distance from {} to {}", m, before, x, y);
            let (x, y) = (pips(&before.board, -me), pips(&g.board, -me));
            ensure!(y >= x, "distance", "{:?} in {:?} shortens the other side's distance from {} to {}", m, before, x, y);
        }
        plies += 1;
        w = ways(&g, o)?;
        if let Some(w) = w {
            ensure!(w == me, "winner", "player {} moved but {} won: {:?}", me, w, g);
        }
    }
    o.class(format!("games of {}+ plies", [0, 20, 60, 120, 250, 1000].iter().rev().find(|x| plies >= **x).unwrap()));
    o.class_if(passes > 0, "with passes");
    o.nontrivial((start, picks.len(), g.board));
    o.sample(|| format!("from {:?}: {} plies, {} passes, winner {:?}", start, plies, passes, w));
    Ok(())
}

fn main() {
    let mut p = Prop::new("C05", "distinct positions that are won or have a side with 12 or more borne off; distinct games played to the end");
    p.family("ends", (24_000, 1_000_000), ends(), winner_check);
    p.family("positions", (16_000, 1_000_000), gen::position(), winner_check);
    p.family_opts("games", (1_600, 150_000), 60, (prop_oneof![2 => gen::start(), 1 => gen::constructed()], vec(any::<u16>(), 1..64)), game);
    p.finish()
}
