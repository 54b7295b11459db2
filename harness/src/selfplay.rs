//! Reading self-play samples back as games.
use crate::bg::*;
use crate::search::Ref;
use crate::ttt::TPos;
use crate::{ensure, fail, glue, sut, Obs, Res};
use die_e::alphazero::alphazero::MemoryFragment;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use tch::Tensor;

/// One decision, read back from a sample.
pub struct Dec<P> {
    pub pos: P,
    pub ps: Vec<f32>,
    pub label: i8,
}

pub trait Game: Ref {
    type P: Copy + std::fmt::Debug;
    /// Does a search of the same position throw the same dice again?
    const REPEATABLE: bool = Self::IS_DETERMINISTIC;
    fn read(t: &Tensor) -> Result<Self::P, String>;
    fn game(p: &Self::P) -> Self;
    fn player(p: &Self::P) -> i8;
    fn starts(p: &Self::P) -> bool;
    /// Does b come after a by one of the plays with weight and any forced passes? (smallest, largest) number of passes.
    fn follows(a: &Dec<Self::P>, b: &Self::P) -> Result<(usize, usize), String>;
    /// Results that a play with weight may have led to, with None for "goes on".
    fn ends(a: &Dec<Self::P>) -> Vec<Option<i8>>;
    /// Largest number of passes that may follow the last decision.
    fn passes_after(a: &Dec<Self::P>) -> usize;
}

impl Game for TicTacToe {
    type P = TPos;
    fn read(t: &Tensor) -> Result<TPos, String> {
        let v = glue::vecf(t);
        if v.len() != 27 {
            return Err(format!("{} cells", v.len()));
        }
        let mut b = [0i8; 9];
        for i in 0..9 {
            b[i] = match (v[i], v[9 + i], v[18 + i]) {
                (1.0, 0.0, 0.0) => -1,
                (0.0, 1.0, 0.0) => 0,
                (0.0, 0.0, 1.0) => 1,
                x => return Err(format!("cell {} reads {:?}", i, x)),
            };
        }
        let d: i32 = b.iter().map(|x| *x as i32).sum();
        // games are started by -1
        let player = match d {
            0 => -1,
            -1 => 1,
            _ => return Err(format!("piece counts of {:?}", b)),
        };
        Ok(TPos { board: b, player })
    }
    fn game(p: &TPos) -> TicTacToe {
        glue::tgame(p)
    }
    fn player(p: &TPos) -> i8 {
        p.player
    }
    fn starts(p: &TPos) -> bool {
        p.board == [0; 9]
    }
    fn follows(a: &Dec<TPos>, b: &TPos) -> Result<(usize, usize), String> {
        let ok = a.pos.empty_cells().iter().any(|m| a.ps[*m as usize] > 0.0 && a.pos.play(*m) == *b && b.outcome().is_none());
        if ok { Ok((0, 0)) } else { Err(format!("{:?} does not come after {:?} by a play with weight", b, a.pos)) }
    }
    fn ends(a: &Dec<TPos>) -> Vec<Option<i8>> {
        a.pos.empty_cells().iter().filter(|m| a.ps[**m as usize] > 0.0).map(|m| a.pos.play(*m).outcome()).collect()
    }
    fn passes_after(_: &Dec<TPos>) -> usize {
        0
    }
}

/// Plays with weight and what they lead to; the dice of the next turn are left as they were.
fn weighted(a: &Dec<Pos>) -> Vec<Pos> {
    let g = glue::bgame(&a.pos);
    a.pos.legal().iter().filter(|(m, _)| a.ps[g.encode(m) as usize] > 0.0).map(|(_, b)| a.pos.after_play(*b, a.pos.roll)).collect()
}

fn may_pass(board: &RawBoard, player: i8) -> bool {
    (1..=6u8).any(|x| (1..=x).any(|y| legal(board, (x, y), player).is_empty()))
}

impl Game for Backgammon {
    type P = Pos;
    fn read(t: &Tensor) -> Result<Pos, String> {
        let v = glue::vecf(t);
        if v.len() != 144 {
            return Err(format!("{} cells", v.len()));
        }
        let mut pts = [0i8; 24];
        for i in 0..24 {
            pts[i] = v[i] as i8;
        }
        let p = Pos {
            board: (pts, (v[48] as u8, v[60] as u8), (v[72] as u8, v[84] as u8)),
            player: v[24] as i8,
            roll: (v[96] as u8, v[108] as u8),
            second: v[120] != 0.0,
        };
        let w = glue::vecf(&glue::bgame(&p).as_tensor());
        if w != v || !glue::conserved(&p.board) || !(1..=6).contains(&p.roll.0) || !(1..=6).contains(&p.roll.1) {
            return Err(format!("reads as {:?}", p));
        }
        Ok(p)
    }
    fn game(p: &Pos) -> Backgammon {
        glue::bgame(p)
    }
    fn player(p: &Pos) -> i8 {
        p.player
    }
    fn starts(p: &Pos) -> bool {
        // the first roll may be blocked for neither side
        p.board == START && p.player == -1 && !p.second
    }
    fn follows(a: &Dec<Pos>, b: &Pos) -> Result<(usize, usize), String> {
        for x in weighted(a) {
            if x.board != b.board || winner(&x.board).is_some() {
                continue;
            }
            if x.second {
                if !legal(&x.board, x.roll, x.player).is_empty() {
                    if *b == x {
                        return Ok((0, 0));
                    }
                    continue;
                }
                // the second half had to be passed
                if b.second {
                    continue;
                }
                let other = may_pass(&x.board, -x.player);
                if b.player == -x.player {
                    return Ok((1, if other { usize::MAX } else { 1 }));
                } else if other {
                    return Ok((2, usize::MAX));
                }
                continue;
            }
            if b.second {
                continue;
            }
            let mine = may_pass(&x.board, x.player);
            if b.player == x.player {
                return Ok((0, if mine { usize::MAX } else { 0 }));
            } else if mine {
                return Ok((1, usize::MAX));
            }
        }
        Err(format!("{:?} does not come after {:?} by a play with weight and forced passes", b, a.pos))
    }
    fn ends(a: &Dec<Pos>) -> Vec<Option<i8>> {
        weighted(a).iter().map(|x| winner(&x.board)).collect()
    }
    fn passes_after(a: &Dec<Pos>) -> usize {
        let any = weighted(a).iter().any(|x| may_pass(&x.board, x.player) || (x.second && legal(&x.board, x.roll, x.player).is_empty()));
        if any { usize::MAX } else { 0 }
    }
}

/// One game under a round limit (usize::MAX: none): a legal history with agreeing, truthful labels.
pub fn one_game<G: Game>(d: &[Dec<G::P>], limit: usize, o: &mut Obs) -> Res {
    let show = |i: usize| format!("{:?}", d[i].pos);
    let (mut lo, mut hi) = (0usize, 0usize);
    for i in 1..d.len() {
        match G::follows(&d[i - 1], &d[i].pos) {
            Ok((a, b)) => {
                lo += a;
                hi = hi.saturating_add(b);
            }
            Err(e) => return fail("broken-history", format!("decision {}: {}", i, e)),
        }
        o.eval();
    }
    // the winner according to each label
    let w = d[0].label * G::player(&d[0].pos);
    for (i, x) in d.iter().enumerate() {
        ensure!(x.label * G::player(&x.pos) == w, "labels-disagree", "in one game of {} decisions {} is labelled {} and {} is labelled {}", d.len(), show(0), d[0].label, show(i), x.label);
    }
    let last = &d[d.len() - 1];
    let ends = G::ends(last);
    let rounds = (d.len() + lo, d.len().saturating_add(hi).saturating_add(G::passes_after(last)));
    ensure!(rounds.0 <= limit, "beyond-limit", "a game of at least {} rounds under a limit of {}", rounds.0, limit);
    if w != 0 {
        ensure!(ends.contains(&Some(w)), "label", "labels say {} won, but no play with weight in the last decision {} wins for it", w, show(d.len() - 1));
        o.class("decided game");
    } else {
        let cut = ends.contains(&None) && limit != usize::MAX && rounds.1 >= limit && limit != 0;
        let draw = ends.contains(&Some(0));
        ensure!(cut || draw, "label", "a game of {} decisions is labelled a draw, but it did not reach the limit {} and its last decision {} leads to {:?}", d.len(), limit, show(d.len() - 1), ends);
        o.class(if draw { "drawn game" } else { "cut game" });
    }
    o.class_if(lo > 0, "game with passes");
    Ok(())
}

/// Reads the samples back as decisions, each with a proper policy target.
pub fn decisions<G: Game>(mem: &[MemoryFragment], o: &mut Obs) -> Res<Vec<Dec<G::P>>> {
    let mut decs: Vec<Dec<G::P>> = vec![];
    for (i, m) in mem.iter().enumerate() {
        ensure!(m.ps.size() == [G::ACTION_SPACE_SIZE], "shape", "sample {} has a policy of shape {:?}", i, m.ps.size());
        ensure!((-1..=1).contains(&m.outcome), "label", "sample {} is labelled {}", i, m.outcome);
        let pos = match G::read(&m.state) {
            Ok(p) => p,
            Err(e) => return fail("state", format!("sample {}: {}", i, e)),
        };
        let g = G::game(&pos);
        ensure!(g.ref_outcome().is_none(), "finished", "sample {} is the finished {:?}", i, pos);
        let ps = glue::vecf(&m.ps);
        let sum: f64 = ps.iter().map(|x| *x as f64).sum();
        ensure!(ps.iter().all(|x| *x >= 0.0) && (sum - 1.0).abs() < 1e-4, "policy", "the policy of sample {} ({:?}) sums to {}", i, pos, sum);
        let mut allowed = vec![false; ps.len()];
        for m in sut("get_valid_moves", || g.get_valid_moves())? {
            if g.ref_legal(&m) {
                allowed[sut("encode", || g.encode(&m))? as usize] = true;
            }
        }
        for (a, x) in ps.iter().enumerate() {
            ensure!(*x == 0.0 || allowed[a], "support", "the policy of sample {} ({:?}) gives {} to action {}, which is not legal", i, pos, x, a);
        }
        decs.push(Dec { pos, ps, label: m.outcome });
        o.eval();
    }
    Ok(decs)
}

/// The games, one after the other.
pub fn games<G: Game>(decs: Vec<Dec<G::P>>) -> Res<Vec<Vec<Dec<G::P>>>> {
    let mut games: Vec<Vec<Dec<G::P>>> = vec![];
    for d in decs {
        if G::starts(&d.pos) {
            games.push(vec![d]);
        } else if let Some(g) = games.last_mut() {
            g.push(d);
        } else {
            return fail("no-start", format!("the samples begin in the middle of a game: {:?}", d.pos));
        }
    }
    Ok(games)
}
