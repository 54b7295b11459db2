//! C08: tic-tac-toe follows its rules over every game.
use die_e::base::LearnableGame;
use die_e::mcts::node::Node;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use vh::ttt::TPos;
use vh::{ensure, glue, sut, Obs, Prop, Res};

fn judge(g: &TicTacToe, p: &TPos, o: &mut Obs) -> Res {
    o.eval();
    ensure!(glue::tpos_of(g) == *p, "state", "the game shows {:?} instead of {:?}", g, p);
    let w = sut("check_winner", || g.check_winner())?;
    ensure!(w == p.outcome(), "outcome", "outcome of {:?} is {:?}, should be {:?}", p, w, p.outcome());
    let m = sut("get_valid_moves", || g.get_valid_moves())?;
    ensure!(m == p.empty_cells(), "moves", "moves in {:?} are {:?}, the empty cells are {:?}", p, m, p.empty_cells());
    let t = sut("Node", || Node::new(*g, 0, None, None, 0.).is_terminal())?;
    ensure!(t == p.outcome().is_some(), "outcome", "a search node of {:?} is terminal: {}", p, t);
    Ok(())
}

fn game(c: &(bool, Vec<u8>, u16), o: &mut Obs) -> Res {
    let (second_starts, picks, id) = c;
    let mut g = sut("new", TicTacToe::new)?;
    ensure!(glue::tpos_of(&g) == TPos { board: [0; 9], player: -1 }, "start", "a new game is {:?}", g);
    sut("set_id", || g.set_id(*id as usize))?;
    let mut p = TPos { board: [0; 9], player: -1 };
    if *second_starts {
        sut("skip_turn", || g.skip_turn())?;
        p.player = 1;
    }
    judge(&g, &p, o)?;
    let mut passes = 0;
    for k in picks {
        if p.outcome().is_some() {
            break;
        }
        if k % 13 == 12 {
            sut("skip_turn", || g.skip_turn())?;
            p.player = -p.player;
            passes += 1;
        } else {
            let e = p.empty_cells();
            let m = e[(*k / 13) as usize % e.len()];
            sut("apply_move", || g.apply_move(&m))?;
            p = p.play(m);
        }
        judge(&g, &p, o)?;
        ensure!(g.get_id() == *id as usize, "tag", "the tag changed to {}", g.get_id());
    }
    o.class(match p.outcome() { Some(0) => "draw", Some(_) => "won", None => "open" });
    o.class_if(passes > 0, "with passes");
    if p.board.iter().filter(|x| **x != 0).count() >= 3 {
        o.nontrivial(p);
    }
    o.sample(|| format!("{:?}", p));
    Ok(())
}

/// Any cell contents that a game with passes can show.
fn boards(c: &(u32, bool, u8), o: &mut Obs) -> Res {
    let p = TPos::from_index(c.0 % 19683, if c.1 { 1 } else { -1 });
    if !p.consistent() {
        return Ok(());
    }
    let mut g = glue::tgame(&p);
    judge(&g, &p, o)?;
    let e = p.empty_cells();
    if !e.is_empty() && p.outcome().is_none() {
        let m = e[c.2 as usize % e.len()];
        let mut h = g;
        sut("apply_move", || h.apply_move(&m))?;
        judge(&h, &p.play(m), o)?;
    }
    sut("skip_turn", || g.skip_turn())?;
    judge(&g, &TPos { board: p.board, player: -p.player }, o)?;
    o.class(match p.outcome() { Some(0) => "draw", Some(_) => "won", None => "open" });
    o.nontrivial(p);
    Ok(())
}

fn main() {
    let mut p = Prop::new("C08", "distinct positions with three or more marks at the end of a game; distinct boards");
    p.family("games", (60_000, 2_000_000), (any::<bool>(), vec(any::<u8>(), 0..14), any::<u16>()), game);
    p.family("boards", (120_000, 1_000_000), (0u32..19683, any::<bool>(), any::<u8>()), boards);
    p.finish()
}
