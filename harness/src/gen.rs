//! Generators of positions and histories.
use crate::bg::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One step of a generated history: a die pair for the next roll and a choice among the plays.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Choice {
    pub pick: u16,
    pub dice: (u8, u8),
}

pub fn die() -> impl Strategy<Value = u8> + Clone {
    1u8..=6
}

/// Dice with doubles in about 3 of 10 rolls.
pub fn dice() -> impl Strategy<Value = (u8, u8)> + Clone {
    prop_oneof![
        3 => (die(), die()),
        1 => die().prop_map(|d| (d, d)),
    ]
}

pub fn choice() -> impl Strategy<Value = Choice> + Clone {
    (any::<u16>(), dice()).prop_map(|(pick, dice)| Choice { pick, dice })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Taste {
    Any,
    Hitting,
    Running,
    Stacking,
}

pub fn taste() -> impl Strategy<Value = Taste> + Clone {
    prop_oneof![
        3 => Just(Taste::Any),
        2 => Just(Taste::Running),
        2 => Just(Taste::Hitting),
        1 => Just(Taste::Stacking),
    ]
}

/// The play of `pos` selected by a choice under a taste (None: nothing to play).
pub fn select(pos: &Pos, c: &Choice, taste: Taste) -> Option<(Play, RawBoard)> {
    let rs: Vec<(RawBoard, Play)> = pos.results().into_iter().collect();
    if rs.is_empty() {
        return None;
    }
    let score = |b: &RawBoard| -> i64 {
        let (me, op) = sides(b, pos.player);
        match taste {
            Taste::Any => 0,
            Taste::Hitting => op.n[25] as i64 * 100,
            // run the rearmost checkers home, then bear off
            Taste::Running => {
                let back: i64 = (7..=25).map(|d| (d as i64) * me.n[d] as i64).sum();
                -back + 3 * me.n[0] as i64
            }
            Taste::Stacking => me.n[1..=24].iter().map(|x| (*x as i64) * (*x as i64)).sum(),
        }
    };
    let mut scored: Vec<(i64, (RawBoard, Play))> = rs.into_iter().map(|r| (score(&r.0), r)).collect();
    scored.sort();
    scored.reverse();
    let n = scored.len();
    // under a taste, choose among the best quarter most of the time
    let span = if taste == Taste::Any || c.pick % 8 == 7 { n } else { (n / 4).max(1) };
    let (_, (b, p)) = scored.swap_remove((c.pick as usize / 8) % span);
    Some((p, b))
}

/// Positions of a game played by the reference, the last one first reached at the end of `choices`.
pub fn play_out(start: Pos, choices: &[Choice], taste: (Taste, Taste)) -> Vec<Pos> {
    let mut v = vec![start];
    for c in choices {
        let p = *v.last().unwrap();
        if winner(&p.board).is_some() {
            break;
        }
        let t = if p.player == -1 { taste.0 } else { taste.1 };
        let q = match select(&p, c, t) {
            Some((_, b)) => p.after_play(b, c.dice),
            None => p.after_pass(c.dice),
        };
        v.push(q);
    }
    v
}

pub fn start() -> impl Strategy<Value = Pos> + Clone {
    (prop_oneof![Just(-1i8), Just(1i8)], dice()).prop_map(|(player, roll)| Pos::start(player, roll))
}

/// Position reached from the start by legal play.
pub fn reachable(max: usize) -> BoxedStrategy<Pos> {
    (start(), vec(choice(), 0..max), taste(), taste())
        .prop_map(|(s, cs, a, b)| *play_out(s, &cs, (a, b)).last().unwrap())
        .boxed()
}

fn dist_style() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        // anywhere
        3 => vec(0u8..=25, 15),
        // all home, partly borne off
        4 => vec(0u8..=6, 15),
        // nearly borne off
        3 => (vec(0u8..=6, 1..5)).prop_map(|v| fill(v, 0)),
        // home with a few behind
        3 => (vec(1u8..=6, 9..15), vec(7u8..=25, 1..4), 0u8..=6).prop_map(|(a, b, z)| { let mut v = b; v.extend(a); v.truncate(15); fill(v, z) }),
        // on the bar
        3 => (1usize..=4, vec(0u8..=24, 15)).prop_map(|(k, mut v)| { for x in v.iter_mut().take(k) { *x = 25; } v }),
        // a few tall stacks
        2 => (vec(0u8..=25, 1..5), vec(0usize..5, 15)).prop_map(|(pts, w)| w.iter().map(|i| pts[i % pts.len()]).collect()),
        // blocks of two on most of the points
        3 => (proptest::sample::subsequence((1u8..=24).collect::<Vec<_>>(), 4..8), vec(0u8..=25, 15))
            .prop_map(|(pts, rest)| { let mut v: Vec<u8> = pts.iter().flat_map(|p| [*p, *p]).collect(); v.extend(rest); v.truncate(15); v }),
        // a wall of six points somewhere, opponents entering against it
        3 => (1u8..=19, vec(0u8..=25, 3)).prop_map(|(s, rest)| { let mut v: Vec<u8> = (s..s + 6).flat_map(|p| [p, p]).collect(); v.extend(rest); v }),
        // contact in the other side's home
        3 => (vec(17u8..=25, 1..6), vec(0u8..=12, 15)).prop_map(|(a, b)| { let mut v = a; v.extend(b); v.truncate(15); v }),
        // single checkers
        2 => proptest::sample::subsequence((1u8..=24).collect::<Vec<_>>(), 15),
    ]
    .boxed()
}

fn fill(mut v: Vec<u8>, with: u8) -> Vec<u8> {
    while v.len() < 15 {
        v.push(with);
    }
    v
}

/// Legal board from wanted distances; the second side gives way where both want the same point.
pub fn compose(a: &[u8], b: &[u8], first: i8) -> RawBoard {
    let mut me = Side { n: [0; 26] };
    let mut op = Side { n: [0; 26] };
    for d in a {
        me.n[*d as usize] += 1;
    }
    for d in b {
        let mut d = *d as usize;
        while (1..=24).contains(&d) && me.n[25 - d] > 0 {
            d -= 1;
        }
        op.n[d] += 1;
    }
    if me.n[0] == 15 && op.n[0] == 15 {
        op.n[0] = 14;
        op.n[3] = 1;
    }
    unsides(&me, &op, first)
}

/// Board built directly, 15 checkers a side, no point shared; not necessarily reachable from the start.
pub fn constructed_board() -> BoxedStrategy<RawBoard> {
    (dist_style(), dist_style(), prop_oneof![Just(-1i8), Just(1i8)])
        .prop_map(|(a, b, f)| compose(&a, &b, f))
        .boxed()
}

pub fn constructed() -> BoxedStrategy<Pos> {
    (constructed_board(), prop_oneof![Just(-1i8), Just(1i8)], dice(), any::<bool>())
        .prop_map(|(board, player, roll, s)| Pos { board, player, roll, second: s && roll.0 == roll.1 })
        .boxed()
}

/// The general position generator.
pub fn position() -> BoxedStrategy<Pos> {
    prop_oneof![6 => reachable(140), 8 => constructed(), 1 => wide()].boxed()
}

/// Position with many plays (often more than a hundred): the mover's checkers stand singly all over the board.
pub fn wide() -> BoxedStrategy<Pos> {
    let spread = (proptest::sample::subsequence((3u8..=24).collect::<Vec<_>>(), 10..=15), vec(2u8..=24, 5)).prop_map(|(mut v, more)| {
        v.extend(more);
        v.truncate(15);
        v
    });
    let other = prop_oneof![2 => vec(1u8..=24, 1..4).prop_map(|v| fill(v, 0)), 1 => vec(1u8..=6, 15)];
    (spread, other, prop_oneof![Just(-1i8), Just(1i8)], dice(), any::<bool>())
        .prop_map(|(a, b, player, roll, s)| Pos { board: compose(&a, &b, player), player, roll, second: s && roll.0 == roll.1 })
        .boxed()
}

/// Position in which nobody has won.
pub fn open_position() -> BoxedStrategy<Pos> {
    position()
        .prop_map(|mut p| {
            if let Some(w) = winner(&p.board) {
                // put one checker back
                let (mut me, mut op) = sides(&p.board, w);
                let d = (1..=24).find(|d| op.n[25 - d] == 0).unwrap();
                me.n[0] -= 1;
                me.n[d] += 1;
                p.board = unsides(&mut me, &mut op, w);
            }
            p
        })
        .boxed()
}

/// Labels describing a position, for the evidence.
pub fn describe(p: &Pos) -> Vec<&'static str> {
    let (me, op) = sides(&p.board, p.player);
    let mut v = vec![];
    if me.n[25] > 0 {
        v.push("mover on bar");
    }
    if me.n[25] > 1 {
        v.push("mover several on bar");
    }
    if all_home(&me) {
        v.push("mover may bear off");
        if (1..=6).any(|d| op.n[25 - d] > 0) || op.n[25] > 0 {
            v.push("bearing off against contact");
        }
    }
    if p.roll.0 == p.roll.1 {
        v.push("double");
    }
    if p.second {
        v.push("second play of a double");
    }
    if p.player == 1 {
        v.push("player +1");
    } else {
        v.push("player -1");
    }
    if winner(&p.board).is_some() {
        v.push("won");
    }
    v
}
