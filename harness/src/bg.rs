//! Independent reference model of backgammon, written from the rules.
//! Works in mover-relative distances: a checker at distance d needs d pips to be borne off
//! (1..=24 on the board, 25 on the bar, 0 borne off).
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub type RawBoard = ([i8; 24], (u8, u8), (u8, u8));
pub type Play = Vec<(i8, i8)>;

pub const START: RawBoard = (
    [2, 0, 0, 0, 0, -5, 0, -3, 0, 0, 0, 5, -5, 0, 0, 0, 3, 0, 5, 0, 0, 0, 0, -2],
    (0, 0),
    (0, 0),
);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Pos {
    pub board: RawBoard,
    pub player: i8,
    pub roll: (u8, u8),
    pub second: bool,
}

/// Index on the engine's board of the point at distance d for the player.
pub fn idx(player: i8, d: usize) -> usize {
    if player == -1 { d - 1 } else { 24 - d }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Side {
    /// checkers by distance: [0] = borne off, [25] = bar
    pub n: [u8; 26],
}

/// (mover, opponent) with the opponent in its own distances.
pub fn sides(b: &RawBoard, player: i8) -> (Side, Side) {
    let mut me = Side { n: [0; 26] };
    let mut op = Side { n: [0; 26] };
    for d in 1..=24 {
        let v = b.0[idx(player, d)] * player;
        if v > 0 {
            me.n[d] = v as u8;
        }
        let w = b.0[idx(-player, d)] * -player;
        if w > 0 {
            op.n[d] = w as u8;
        }
    }
    let (mb, ob, mo, oo) = if player == -1 { (b.1 .0, b.1 .1, b.2 .0, b.2 .1) } else { (b.1 .1, b.1 .0, b.2 .1, b.2 .0) };
    me.n[25] = mb;
    op.n[25] = ob;
    me.n[0] = mo;
    op.n[0] = oo;
    (me, op)
}

pub fn unsides(me: &Side, op: &Side, player: i8) -> RawBoard {
    let mut b: RawBoard = ([0; 24], (0, 0), (0, 0));
    for d in 1..=24 {
        b.0[idx(player, d)] += me.n[d] as i8 * player;
        b.0[idx(-player, d)] += op.n[d] as i8 * -player;
    }
    if player == -1 {
        b.1 = (me.n[25], op.n[25]);
        b.2 = (me.n[0], op.n[0]);
    } else {
        b.1 = (op.n[25], me.n[25]);
        b.2 = (op.n[0], me.n[0]);
    }
    b
}

pub fn all_home(me: &Side) -> bool {
    (7..=25).all(|d| me.n[d] == 0)
}

/// Destination distance of moving a checker at distance d by r, if the rules allow it.
pub fn step(me: &Side, op: &Side, d: usize, r: usize) -> Option<usize> {
    if me.n[d] == 0 || (me.n[25] > 0 && d != 25) {
        return None;
    }
    if d > r {
        let t = d - r;
        // the opponent's distance to the same point is 25 - t
        if op.n[25 - t] >= 2 { None } else { Some(t) }
    } else {
        if !all_home(me) {
            return None;
        }
        if d == r || (d + 1..=6).all(|x| me.n[x] == 0) { Some(0) } else { None }
    }
}

/// Returns whether a checker was hit.
pub fn do_step(me: &mut Side, op: &mut Side, d: usize, t: usize) -> bool {
    me.n[d] -= 1;
    me.n[t] += 1;
    if t > 0 && op.n[25 - t] == 1 {
        op.n[25 - t] = 0;
        op.n[25] += 1;
        return true;
    }
    false
}

fn notation(player: i8, d: usize, t: usize) -> (i8, i8) {
    let from = if d == 25 { -1 } else { idx(player, d) as i8 };
    let to = if t == 0 { -1 } else { idx(player, t) as i8 };
    (from, to)
}

fn rec(me: Side, op: Side, dice: &[u8], player: i8, seq: &mut Play, out: &mut Vec<(Play, RawBoard)>) {
    let mut any = false;
    for (i, r) in dice.iter().enumerate() {
        if i > 0 && dice[0] == *r {
            continue;
        }
        for d in (1..=25).rev() {
            if let Some(t) = step(&me, &op, d, *r as usize) {
                any = true;
                let (mut m2, mut o2) = (me, op);
                do_step(&mut m2, &mut o2, d, t);
                seq.push(notation(player, d, t));
                let rest: Vec<u8> = dice.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| *x).collect();
                rec(m2, o2, &rest, player, seq, out);
                seq.pop();
            }
        }
    }
    if !any && !seq.is_empty() {
        out.push((seq.clone(), unsides(&me, &op, player)));
    }
}

/// Every sequence that cannot be continued, longest or not.
pub fn maximal_sequences(b: &RawBoard, roll: (u8, u8), player: i8) -> Vec<(Play, RawBoard)> {
    let (me, op) = sides(b, player);
    let mut out = vec![];
    rec(me, op, &[roll.0, roll.1], player, &mut vec![], &mut out);
    out
}

/// Legal plays: as many of the two dice as possible.
pub fn legal(b: &RawBoard, roll: (u8, u8), player: i8) -> Vec<(Play, RawBoard)> {
    let all = maximal_sequences(b, roll, player);
    let m = all.iter().map(|x| x.0.len()).max().unwrap_or(0);
    all.into_iter().filter(|x| x.0.len() == m).collect()
}

/// Distinct resulting positions, each with one play leading to it.
pub fn legal_results(b: &RawBoard, roll: (u8, u8), player: i8) -> BTreeMap<RawBoard, Play> {
    let mut m = BTreeMap::new();
    for (p, r) in legal(b, roll, player) {
        m.entry(r).or_insert(p);
    }
    m
}

/// Position after a play given in engine notation; None if a step is not allowed with some die order.
pub fn apply_notation(b: &RawBoard, play: &Play, player: i8) -> RawBoard {
    let (mut me, mut op) = sides(b, player);
    for &(f, t) in play {
        let d = if f == -1 { 25 } else if player == -1 { f as usize + 1 } else { 24 - f as usize };
        let t = if t == -1 { 0 } else if player == -1 { t as usize + 1 } else { 24 - t as usize };
        do_step(&mut me, &mut op, d, t);
    }
    unsides(&me, &op, player)
}

pub fn winner(b: &RawBoard) -> Option<i8> {
    if b.2 .0 == 15 {
        Some(-1)
    } else if b.2 .1 == 15 {
        Some(1)
    } else {
        None
    }
}

pub fn mirror(b: &RawBoard) -> RawBoard {
    let mut r = [0i8; 24];
    for i in 0..24 {
        r[i] = -b.0[23 - i];
    }
    (r, (b.1 .1, b.1 .0), (b.2 .1, b.2 .0))
}

pub fn mirror_play(p: &Play) -> Play {
    p.iter().map(|&(f, t)| (if f == -1 { -1 } else { 23 - f }, if t == -1 { -1 } else { 23 - t })).collect()
}

pub fn total(b: &RawBoard, player: i8) -> i32 {
    let (me, _) = sides(b, player);
    me.n.iter().map(|x| *x as i32).sum()
}

pub fn pips(b: &RawBoard, player: i8) -> i32 {
    let (me, _) = sides(b, player);
    (1..=25).map(|d| d as i32 * me.n[d] as i32).sum()
}

impl Pos {
    pub fn start(player: i8, roll: (u8, u8)) -> Pos {
        Pos { board: START, player, roll, second: false }
    }
    pub fn legal(&self) -> Vec<(Play, RawBoard)> {
        legal(&self.board, self.roll, self.player)
    }
    pub fn results(&self) -> BTreeMap<RawBoard, Play> {
        legal_results(&self.board, self.roll, self.player)
    }
    /// The protocol after a play to `board` (dice = the new roll if one is thrown).
    pub fn after_play(&self, board: RawBoard, dice: (u8, u8)) -> Pos {
        if self.roll.0 == self.roll.1 && !self.second {
            Pos { board, player: self.player, roll: self.roll, second: true }
        } else {
            Pos { board, player: -self.player, roll: dice, second: false }
        }
    }
    pub fn after_pass(&self, dice: (u8, u8)) -> Pos {
        Pos { board: self.board, player: -self.player, roll: dice, second: false }
    }
    pub fn mirror(&self) -> Pos {
        Pos { board: mirror(&self.board), player: -self.player, roll: self.roll, second: self.second }
    }
}
