//! C06: action codes are lossless, unique and in range.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::BTreeMap;
use vh::bg::*;
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

fn t_encode(g: &Backgammon, m: &Play) -> Res<u32> {
    sut("encode", || <Backgammon as LearnableGame>::encode(g, m))
}
fn t_decode(g: &Backgammon, c: u32) -> Res<Play> {
    sut("decode", || <Backgammon as LearnableGame>::decode(g, c))
}
fn i_encode(g: &Backgammon, m: &Play) -> Res<u32> {
    sut("encode", || g.encode(m))
}
fn i_decode(g: &Backgammon, c: u32) -> Res<Play> {
    sut("decode", || g.decode(c))
}

fn check(p: &Pos, o: &mut Obs) -> Res {
    for d in gen::describe(p) {
        o.class(d);
    }
    let mut g = glue::bgame(p);
    let n = <Backgammon as LearnableGame>::ACTION_SPACE_SIZE as u32;
    for order in 0..2 {
        if order == 1 {
            g.roll = (p.roll.1, p.roll.0);
        }
        let moves = sut("get_valid_moves", || g.get_valid_moves())?;
        let mut codes: BTreeMap<u32, Play> = BTreeMap::new();
        let empty: Play = vec![];
        for m in moves.iter().chain(std::iter::once(&empty)) {
            o.eval();
            let c = t_encode(&g, m)?;
            ensure!(c < n, "out-of-range", "{:?} in {:?} has the code {} of an action space of {}", m, g, c, n);
            ensure!(c == i_encode(&g, m)?, "interfaces", "the two encodings of {:?} in {:?} differ: {} and {}", m, g, c, i_encode(&g, m)?);
            let d = t_decode(&g, c)?;
            ensure!(d == *m, "lossy", "{:?} in {:?} has code {} which decodes to {:?}", m, g, c, d);
            let d2 = i_decode(&g, c)?;
            ensure!(d2 == d, "interfaces", "code {} in {:?} decodes to {:?} and {:?}", c, g, d, d2);
            if let Some(q) = codes.insert(c, m.clone()) {
                return vh::fail("collision", format!("{:?} and {:?} share the code {} in {:?}", q, m, c, g));
            }
        }
        let single = moves.iter().any(|m| m.len() == 1);
        let off = moves.iter().any(|m| m.iter().any(|s| s.1 == -1));
        let bar = moves.iter().any(|m| m.iter().any(|s| s.0 == -1));
        o.class_if(single, "single-step plays");
        o.class_if(off, "plays that bear off");
        o.class_if(bar, "plays from the bar");
        if moves.len() >= 2 || single || off || bar {
            o.nontrivial((p, order));
        }
        if order == 0 {
            o.sample(|| format!("{:?}: {} plays, codes {:?}", p, moves.len(), codes.keys().take(5).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

/// Every in-range code decodes, the same way through both interfaces.
fn all_codes(p: &Pos, o: &mut Obs) -> Res {
    let g = glue::bgame(p);
    for c in 0..<Backgammon as LearnableGame>::ACTION_SPACE_SIZE as u32 {
        let a = t_decode(&g, c)?;
        let b = i_decode(&g, c)?;
        ensure!(a == b, "interfaces", "code {} in {:?} decodes to {:?} and {:?}", c, g, a, b);
        o.eval();
    }
    // both encodings also agree on legal plays written in another order
    for (m, _) in p.legal() {
        let (a, b) = (t_encode(&g, &m)?, i_encode(&g, &m)?);
        ensure!(a == b, "interfaces", "the two encodings of {:?} in {:?} differ: {} and {}", m, g, a, b);
    }
    o.class("all 1352 codes");
    o.nontrivial((p, "codes"));
    Ok(())
}

fn ttt(c: &(bool, Vec<u8>), o: &mut Obs) -> Res {
    for p in TPos::run(if c.0 { 1 } else { -1 }, &c.1) {
        let g = glue::tgame(&p);
        let mut seen = vec![];
        for m in sut("get_valid_moves", || g.get_valid_moves())? {
            let code = sut("encode", || g.encode(&m))?;
            ensure!((code as i64) < TicTacToe::ACTION_SPACE_SIZE, "out-of-range", "{} in {:?} has the code {}", m, p, code);
            ensure!(sut("decode", || g.decode(code))? == m, "lossy", "{} in {:?} has code {} which decodes to {}", m, p, code, g.decode(code));
            ensure!(!seen.contains(&code), "collision", "two moves share the code {} in {:?}", code, p);
            seen.push(code);
            o.eval();
        }
        for code in 0..TicTacToe::ACTION_SPACE_SIZE as u32 {
            sut("decode", || g.decode(code))?;
        }
        // the empty move is not confused with any cell
        let e = sut("encode", || g.encode(&TicTacToe::EMPTY_MOVE))?;
        ensure!(e as i64 >= TicTacToe::ACTION_SPACE_SIZE && sut("decode", || g.decode(e))? == TicTacToe::EMPTY_MOVE, "empty-move", "the empty move has the code {}", e);
        if seen.len() > 1 {
            o.nontrivial(p);
        }
    }
    o.class("tic-tac-toe");
    Ok(())
}

fn main() {
    let mut p = Prop::new("C06", "distinct positions and dice orders with several plays, or with single-step, bar or bearing-off plays");
    p.family("plays", (50_000, 4_000_000), gen::position(), check);
    p.family("codes", (800, 40_000), gen::position(), all_codes);
    p.family("tictactoe", (2_000, 50_000), (any::<bool>(), vec(any::<u8>(), 0..10)), ttt);
    p.finish()
}
