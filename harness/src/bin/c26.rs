//! C26: match results account for every game.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::alpha_mcts_parallel;
use die_e::mcts::node_store::NodeStore;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{play, Agent, PlayResult, Player};
use indicatif::ProgressBar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use vh::glue::Mc;
use vh::runner::{one_thread, with_entropy_here};
use vh::search::Ref;
use vh::stats::FAR;
use vh::synth::{times, world, Step, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, fail, glue, sut, Obs, Prop, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Side {
    Random,
    Mcts,
    /// always the first empty cell in this order of preference
    Fixed(Vec<u8>),
    /// any network, sharpened
    Net(f64, f64),
}

impl Side {
    fn agent(&self) -> Agent {
        match self {
            Side::Random => Agent::Random,
            Side::Mcts => Agent::Mcts,
            _ => Agent::Model,
        }
    }
    fn model<T: LearnableGame>(&self) -> Option<ResNet> {
        match self {
            Side::Fixed(order) => {
                let net = glue::net::<T>();
                let mut logits = vec![0f32; T::ACTION_SPACE_SIZE as usize];
                for (i, a) in order.iter().enumerate() {
                    logits[*a as usize] = -(i as f32) * 0.7;
                }
                glue::fix_heads::<T>(&net.vs, &logits, 0.1);
                Some(net)
            }
            Side::Net(p, v) => {
                let net = glue::net::<T>();
                glue::sharpen::<T>(&net.vs, *p, *v);
                Some(net)
            }
            _ => None,
        }
    }
}

fn copy<T: LearnableGame>(n: &Option<ResNet>) -> Option<ResNet> {
    n.as_ref().map(|n| {
        let mut m = glue::net::<T>();
        m.vs.copy(&n.vs).expect("copy");
        m
    })
}

/// What every match result must satisfy. Returns (starter, winner) of each game.
fn account<T: Ref>(r: &PlayResult<T>, a: &Side, b: &Side, o: &mut Obs) -> Res<Vec<(i8, Agent)>> {
    ensure!(r.n_games == 400, "games", "{} games announced", r.n_games);
    ensure!(r.player1 == a.agent() && r.player2 == b.agent(), "players", "reported players {:?} and {:?}", r.player1, r.player2);
    ensure!(r.wins_p1 + r.wins_p2 + r.draws == r.n_games, "total", "{} + {} wins and {} draws in {} games", r.wins_p1, r.wins_p2, r.draws, r.n_games);
    ensure!((r.winrate - r.wins_p1 as f64 / r.n_games as f64).abs() < 1e-9, "winrate", "win rate {} for {} wins of {}", r.winrate, r.wins_p1, r.n_games);
    ensure!(r.games.len() == r.n_games, "records", "{} games are returned", r.games.len());
    let mut ids = HashSet::new();
    let mut sids = HashSet::new();
    let mut out = vec![];
    for g in &r.games {
        let v = match serde_json::to_value(g) {
            Ok(v) => v,
            Err(e) => return fail("record", format!("a game cannot be written: {}", e)),
        };
        ensure!(ids.insert(v["id"].to_string()), "record-twice", "two games share the identifier {}", v["id"]);
        let p1: Agent = serde_json::from_value(v["player1"].clone()).unwrap();
        let p2: Agent = serde_json::from_value(v["player2"].clone()).unwrap();
        ensure!(p1 == a.agent() && p2 == b.agent(), "record-players", "a record names {:?} and {:?}", p1, p2);
        let s: T = serde_json::from_value(v["initial_state"].clone()).unwrap();
        ensure!(s.ref_outcome().is_none() && same_start(&s), "start", "a game started from {}", s.show());
        ensure!(sids.insert(s.get_id()), "record-twice", "the game number {} is returned twice", s.get_id());
        ensure!(g.winner == Agent::None || g.winner == a.agent() || g.winner == b.agent(), "winner", "a game was won by {:?}", g.winner);
        out.push((s.get_player(), g.winner.clone()));
    }
    ensure!(sids.iter().all(|i| *i < 400), "record", "game numbers up to {:?}", sids.iter().max());
    let first = out.iter().filter(|x| x.0 == -1).count();
    ensure!(first == 200, "starters", "player 1 started {} of 400 games", first);
    let none = out.iter().filter(|x| x.1 == Agent::None).count();
    ensure!(none == r.draws, "winner-total", "{} records without a winner, {} draws", none, r.draws);
    if a.agent() != b.agent() {
        let w = out.iter().filter(|x| x.1 == a.agent()).count();
        ensure!(w == r.wins_p1, "winner-total", "{} records won by player 1, {} wins reported", w, r.wins_p1);
    }
    // the printed summary says the same
    let text = format!("{}", r);
    for n in [format!("Wins Player 1: {}", r.wins_p1), format!("Wins Player 2: {}", r.wins_p2), format!("Draws: {}", r.draws)] {
        ensure!(text.contains(&n), "summary", "the summary lacks {:?}: {}", n, text);
    }
    o.eval();
    Ok(out)
}

fn same_start<T: Ref>(s: &T) -> bool {
    // dice are free
    let v = serde_json::to_value(s).unwrap();
    let w = serde_json::to_value(T::new()).unwrap();
    v["board"] == w["board"]
}

/// The choice of a side in a position: chances of the empty cells; None when it cannot be told.
fn choice(s: &Side, net: &Option<ResNet>, p: &TPos, mc: &Mc, temp: f64) -> Res<Option<Vec<(u8, f64)>>> {
    let e = p.empty_cells();
    Ok(match s {
        Side::Random => Some(e.iter().map(|m| (*m, 1.0 / e.len() as f64)).collect()),
        Side::Mcts => None,
        Side::Fixed(order) if mc.iterations == 1 => order.iter().find(|m| e.contains(m)).map(|m| vec![(*m, 1.0)]),
        _ => {
            // the visit shares of the same search, at this temperature
            let mut st = NodeStore::new();
            let cfg = mc.build();
            sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut st, &[glue::tgame(p)], net.as_ref().unwrap(), &cfg, Some(ProgressBar::hidden())))?;
            let ch = st.get_node(0).children;
            let v: Vec<(u8, f64)> = ch.iter().map(|k| { let n = st.get_node(*k); (n.action_taken.unwrap(), n.visits as f64) }).collect();
            let top = v.iter().map(|x| x.1).fold(0.0, f64::max);
            let w: Vec<(u8, f64)> = v.iter().map(|x| (x.0, (x.1 / top).powf(1.0 / temp))).filter(|x| x.1 > 1e-9).collect();
            let t: f64 = w.iter().map(|x| x.1).sum();
            Some(w.into_iter().map(|x| (x.0, x.1 / t)).collect())
        }
    })
}

type Memo = BTreeMap<TPos, Option<(f64, f64)>>;

/// Chances that player 1 (-1) and player 2 win from here.
fn chances(p: &TPos, sides: [&Side; 2], nets: [&Option<ResNet>; 2], mc: &Mc, temp: f64, memo: &mut Memo) -> Res<Option<(f64, f64)>> {
    if let Some(w) = p.outcome() {
        return Ok(Some(((w == -1) as u8 as f64, (w == 1) as u8 as f64)));
    }
    if let Some(x) = memo.get(p) {
        return Ok(*x);
    }
    let k = (p.player == 1) as usize;
    let r = match choice(sides[k], nets[k], p, mc, temp)? {
        None => None,
        Some(c) => {
            let mut t = Some((0.0, 0.0));
            for (m, q) in c {
                let x = chances(&p.play(m), sides, nets, mc, temp, memo)?;
                t = match (t, x) {
                    (Some((a, b)), Some((c, d))) => Some((a + q * c, b + q * d)),
                    _ => None,
                };
            }
            t
        }
    };
    memo.insert(*p, r);
    Ok(r)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: Side,
    b: Side,
    iterations: u32,
    c: f64,
    temp: f64,
}

fn judge(what: &str, n: usize, k: usize, p: f64) -> Res {
    let e = n as f64 * p;
    let sd = (e * (1.0 - p)).sqrt();
    if p < 1e-7 || p > 1.0 - 1e-7 {
        ensure!(k as f64 == e.round(), "totals", "{}: {} of {}, but it must be {}", what, k, n, e.round());
    } else {
        // a few games more than the tail allows is possible when the chance is small
        ensure!((k as f64 - e).abs() < FAR * sd + 8.0, "totals", "{}: {} of {}, expected {:.1}", what, k, n, e);
    }
    Ok(())
}

fn tictactoe(c: &Case, o: &mut Obs) -> Res {
    let mc = Mc { iterations: c.iterations, c: c.c, limit: 100, alpha: 0.3, eps: 0.0 };
    let (na, nb) = (c.a.model::<TicTacToe>(), c.b.model::<TicTacToe>());
    let (p1, p2) = (Player::new(c.a.agent(), copy::<TicTacToe>(&na)), Player { player_type: c.b.agent(), model: copy::<TicTacToe>(&nb) });
    let cfg = mc.build();
    let r = sut("play", || one_thread(|| play::<TicTacToe>(p1, p2, &cfg, c.temp)))?;
    let games = account(&r, &c.a, &c.b, o)?;
    // games that were played out by the rules
    let mut memo = Memo::new();
    let (mut lo, mut exact) = ((0.0, 0.0, 0.0, 0.0), true);
    for first in [-1i8, 1] {
        let x = chances(&TPos { board: [0; 9], player: first }, [&c.a, &c.b], [&na, &nb], &mc, c.temp, &mut memo)?;
        match x {
            None => exact = false,
            Some((w1, w2)) => {
                lo.0 += 200.0 * w1;
                lo.1 += 200.0 * w2;
                lo.2 += 200.0 * (w1 * (1.0 - w1));
                lo.3 += 200.0 * (w2 * (1.0 - w2));
                let mine: Vec<&(i8, Agent)> = games.iter().filter(|g| g.0 == first).collect();
                let none = mine.iter().filter(|g| g.1 == Agent::None).count();
                judge(&format!("draws when {} starts", first), 200, none, (1.0 - w1 - w2).max(0.0))?;
                if c.a.agent() != c.b.agent() {
                    let k = mine.iter().filter(|g| g.1 == c.a.agent()).count();
                    judge(&format!("wins of player 1 when {} starts", first), 200, k, w1)?;
                }
            }
        }
    }
    if exact {
        let slack = |v: f64| if v < 1e-4 { 1e-3 } else { FAR * v.sqrt() + 8.0 };
        ensure!((r.wins_p1 as f64 - lo.0).abs() <= slack(lo.2), "totals", "player 1 won {} games, expected {:.2}", r.wins_p1, lo.0);
        ensure!((r.wins_p2 as f64 - lo.1).abs() <= slack(lo.3), "totals", "player 2 won {} games, expected {:.2}", r.wins_p2, lo.1);
        o.class(if lo.2 < 1e-4 { "result known exactly" } else { "chances known" });
    } else {
        // plain search, against a random player
        let strong = |x: &Side| matches!(x, Side::Mcts);
        let weak = |x: &Side| matches!(x, Side::Random);
        if c.iterations >= 100 && strong(&c.a) && weak(&c.b) {
            ensure!(r.wins_p1 > 260, "sides", "the search won {} of 400 games against a random player", r.wins_p1);
            o.class("search against random");
        }
        if c.iterations >= 100 && strong(&c.b) && weak(&c.a) {
            ensure!(r.wins_p2 > 260, "sides", "the search won {} of 400 games against a random player", r.wins_p2);
            o.class("search against random");
        }
    }
    o.class(format!("{:?} against {:?}", c.a.agent(), c.b.agent()));
    o.nontrivial(format!("{:?}", c));
    o.sample(|| format!("{:?}: {} - {} - {}, expected {:.2} and {:.2}", c, r.wins_p1, r.wins_p2, r.draws, lo.0, lo.1));
    Ok(())
}

fn backgammon(c: &(bool, bool, u8), o: &mut Obs) -> Res {
    let s = |m: bool| if m { Side::Mcts } else { Side::Random };
    let (a, b) = (s(c.0), s(c.1));
    let cfg = Mc { iterations: 1 + c.2 as u32 % 2, c: 1.0, limit: 1, alpha: 0.3, eps: 0.0 }.build();
    let r = sut("play", || one_thread(|| play::<Backgammon>(Player::new(a.agent(), None), Player::new(b.agent(), None), &cfg, 1.0)))?;
    let games = account(&r, &a, &b, o)?;
    // every game has a throw of its own to begin with
    let throws: std::collections::BTreeSet<(u8, u8)> = starts(&r)?.iter().map(|s: &Backgammon| (s.roll.0.min(s.roll.1), s.roll.0.max(s.roll.1))).collect();
    ensure!(throws.len() >= 10, "same-openings", "the 400 games open with {} different throws: {:?}", throws.len(), throws);
    // (a search of few iterations prefers the plays offered first, which are not the same for both sides)
    if !c.0 && !c.1 {
        // each side starts half of the games: neither is ahead
        let n = (r.wins_p1 + r.wins_p2) as f64;
        let z = (r.wins_p1 as f64 - n / 2.0) / (n / 4.0).sqrt();
        // backgammon knows no draws; of 4000 games played at random one lasts longer than 400 rounds, one in 20 longer than 200
        ensure!(r.draws <= 7, "cut-off", "{} of 400 games between random players were not played to the end", r.draws);
        ensure!(z.abs() < FAR, "bias", "{} against {} wins between equal players", r.wins_p1, r.wins_p2);
    }
    o.class(format!("backgammon {:?} against {:?}", a.agent(), b.agent()));
    o.class_if(r.draws > 0, "games cut at the round limit");
    o.nontrivial((c, r.wins_p1, games.len()));
    o.sample(|| format!("backgammon {:?} against {:?}: {} - {} - {}", a.agent(), b.agent(), r.wins_p1, r.wins_p2, r.draws));
    Ok(())
}

fn starts<T: LearnableGame>(r: &PlayResult<T>) -> Res<Vec<T>> {
    r.games
        .iter()
        .map(|g| match serde_json::to_value(g).ok().and_then(|v| serde_json::from_value(v["initial_state"].clone()).ok()) {
            Some(s) => Ok(s),
            None => fail("record", "a record without a starting position"),
        })
        .collect()
}

/// Two matches with different entropy are not the same games.
fn two_runs(c: &(bool, u64, u64), o: &mut Obs) -> Res {
    let (m, s1, s2) = c;
    if s1 == s2 {
        return Ok(());
    }
    let side = if *m { Side::Mcts } else { Side::Random };
    let cfg = Mc { iterations: 3, c: 1.0, limit: 20, alpha: 0.3, eps: 0.0 }.build();
    let run = |seed: u64| -> Res<Vec<Agent>> {
        let r = with_entropy_here(seed, || sut("play", || one_thread(|| play::<TicTacToe>(Player::new(Agent::Random, None), Player::new(side.agent(), None), &cfg, 1.0))))?;
        let mut v: Vec<(usize, Agent)> = starts(&r)?.iter().zip(&r.games).map(|(s, g)| (s.get_id(), g.winner.clone())).collect();
        v.sort_by_key(|x| x.0);
        Ok(v.into_iter().map(|x| x.1).collect())
    };
    let (a, b) = (run(*s1)?, run(*s2)?);
    // (chance: a tenth of the games and more is drawn, so 400 equal results have no chance)
    ensure!(a != b, "same-runs", "two matches with different entropy end alike in all games");
    o.class(format!("random against {:?}", side.agent()));
    o.nontrivial(c);
    Ok(())
}

type G<const A: i64, const C: i64, const W: i64, const D: bool> = Syn<A, C, W, D>;

/// Chances that player 1 (-1) and player 2 win a made-up game.
fn syn_chances<const A: i64, const C: i64, const W: i64, const D: bool>(g: &G<A, C, W, D>, sides: [&Side; 2], nets: [&Option<ResNet>; 2], mc: &Mc, temp: f64) -> Res<(f64, f64)> {
    if let Some(w) = g.outcome() {
        return Ok(((w == -1) as u8 as f64, (w == 1) as u8 as f64));
    }
    let st = g.steps();
    if st.is_empty() {
        return syn_chances(&g.passed(), sides, nets, mc, temp);
    }
    let k = (g.player == 1) as usize;
    let code = |m: &u32| g.encode(&Step(*m)) as u8;
    let choice: Vec<(u32, f64)> = match sides[k] {
        Side::Fixed(order) => vec![(*order.iter().find_map(|a| st.iter().find(|m| code(m) == *a)).expect("all codes are in order"), 1.0)],
        Side::Random => st.iter().map(|m| (*m, 1.0 / st.len() as f64)).collect(),
        _ => {
            let mut store = NodeStore::new();
            let cfg = mc.build();
            sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut store, &[*g], nets[k].as_ref().unwrap(), &cfg, Some(ProgressBar::hidden())))?;
            let v: Vec<(u32, f64)> = store.get_node(0).children.iter().map(|c| { let n = store.get_node(*c); (n.action_taken.unwrap().0, n.visits as f64) }).collect();
            let top = v.iter().map(|x| x.1).fold(0.0, f64::max);
            let w: Vec<(u32, f64)> = v.iter().map(|x| (x.0, (x.1 / top).powf(1.0 / temp))).filter(|x| x.1 > 1e-9).collect();
            let t: f64 = w.iter().map(|x| x.1).sum();
            w.into_iter().map(|x| (x.0, x.1 / t)).collect()
        }
    };
    let mut t = (0.0, 0.0);
    for (m, q) in choice {
        let x = syn_chances(&g.after(m), sides, nets, mc, temp)?;
        t = (t.0 + q * x.0, t.1 + q * x.1);
    }
    Ok(t)
}

/// Made-up games with passes, repeated turns and draws; every one of the 400 is another game.
fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Case), o: &mut Obs) -> Res {
    let (w, c) = c;
    w.set();
    let mc = Mc { iterations: c.iterations, c: c.c, limit: 100, alpha: 0.3, eps: 0.0 };
    let (na, nb) = (c.a.model::<G<A, C, W, D>>(), c.b.model::<G<A, C, W, D>>());
    let (p1, p2) = (Player::new(c.a.agent(), copy::<G<A, C, W, D>>(&na)), Player { player_type: c.b.agent(), model: copy::<G<A, C, W, D>>(&nb) });
    let cfg = mc.build();
    let r = sut("play", || one_thread(|| play::<G<A, C, W, D>>(p1, p2, &cfg, c.temp)))?;
    account(&r, &c.a, &c.b, o)?;
    let names_differ = c.a.agent() != c.b.agent();
    o.class(format!("{:?} against {:?}", c.a.agent(), c.b.agent()));
    if matches!(c.a, Side::Mcts) || matches!(c.b, Side::Mcts) {
        o.nontrivial(format!("{:?}", c));
        return Ok(());
    }
    // near ties of a network may be decided otherwise in another batch
    let slack = if matches!(c.a, Side::Net(..)) || matches!(c.b, Side::Net(..)) { 8.0 } else { 0.0 };
    let (mut e1, mut e2, mut v1, mut v2, mut vd, mut off) = (0.0, 0.0, 0.0, 0.0, 0.0, vec![]);
    for (s, g) in starts(&r)?.iter().zip(&r.games) {
        let (w1, w2) = syn_chances(s, [&c.a, &c.b], [&na, &nb], &mc, c.temp)?;
        e1 += w1;
        e2 += w2;
        v1 += w1 * (1.0 - w1);
        v2 += w2 * (1.0 - w2);
        vd += (w1 + w2) * (1.0 - w1 - w2).max(0.0);
        let wrong = match &g.winner {
            Agent::None => w1 + w2 > 1.0 - 1e-9,
            _ if !names_differ => w1 + w2 < 1e-9,
            x if *x == c.a.agent() => w1 < 1e-9,
            _ => w2 < 1e-9,
        };
        if wrong {
            off.push(format!("{:?} by {:?}, chances {:.3} and {:.3}", g.winner, s, w1, w2));
        }
    }
    ensure!(off.len() as f64 <= slack, "impossible", "{} of 400 games ended as they cannot: {}", off.len(), off[0]);
    let near = |what: &str, got: usize, e: f64, v: f64| -> Res {
        ensure!((got as f64 - e).abs() <= slack + if v < 1e-4 { 1e-3 } else { FAR * v.sqrt() + 8.0 }, "totals", "{}: {}, expected {:.2}", what, got, e);
        Ok(())
    };
    near("wins of player 1", r.wins_p1, e1, v1)?;
    near("wins of player 2", r.wins_p2, e2, v2)?;
    near("draws", r.draws, 400.0 - e1 - e2, vd)?;
    o.class_if(w.pass > 20, "games with passes");
    o.class_if(r.draws > 0, "drawn games");
    o.nontrivial(format!("{:?} {:?}", w, c));
    o.sample(|| format!("{:?} {:?}: {} - {} - {}, expected {:.2} and {:.2}", w, c, r.wins_p1, r.wins_p2, r.draws, e1, e2));
    Ok(())
}

fn order() -> impl Strategy<Value = Vec<u8>> + Clone {
    Just((0u8..9).collect::<Vec<_>>()).prop_shuffle()
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let shuffled = Just((0u8..A.min(250) as u8).collect::<Vec<_>>()).prop_shuffle().prop_map(Side::Fixed);
    let net = (0.3f64..8.0, 0.3f64..6.0).prop_map(|(p, v)| Side::Net(p, v));
    let side = prop_oneof![3 => shuffled.boxed(), 2 => Just(Side::Random).boxed(), 2 => net.boxed(), 1 => Just(Side::Mcts).boxed()];
    let case = (side.clone(), side, 0.2f64..4.0, 0.05f64..3.0).prop_map(|(a, b, c, temp)| Case { a, b, iterations: 1, c, temp });
    p.family_opts(&format!("matches {}", name), times((24, 800), k), 10, (world(1..=5, 1..=3.min(branch)), case), synthetic::<A, C, W, D>);
}

/// Also for C33.
pub fn fresh(p: &mut Prop) {
    p.family_opts("matches of two runs", (12, 300), 2, (any::<bool>(), any::<u64>(), any::<u64>()), two_runs);
}

fn main() {
    let mut p = Prop::new("C26", "distinct pairings (players, orders of preference, search settings)")
        .assume("with random players the totals are judged at a score of 7 against the exact chances");
    let fixed = || order().prop_map(Side::Fixed);
    let net = || (0.3f64..8.0, 0.3f64..6.0).prop_map(|(p, v)| Side::Net(p, v));
    let temp = || prop_oneof![0.01f64..0.3, 0.3f64..3.0];
    p.family_opts("fixed-players", (100, 3_000), 12, (fixed(), fixed(), 0.2f64..4.0, temp()).prop_map(|(a, b, c, temp)| Case { a, b, iterations: 1, c, temp }), tictactoe);
    p.family_opts("one-fixed", (80, 2_500), 12, (fixed(), any::<bool>(), 0.2f64..4.0, temp()).prop_map(|(f, s, c, temp)| if s { Case { a: f, b: Side::Random, iterations: 1, c, temp } } else { Case { a: Side::Random, b: f, iterations: 1, c, temp } }), tictactoe);
    p.family_opts("networks", (40, 1_200), 6, (net(), prop_oneof![net().boxed(), fixed().boxed(), Just(Side::Random).boxed()], any::<bool>(), 2u32..7, 0.2f64..3.0, 0.01f64..0.04).prop_map(|(a, b, s, iterations, c, temp)| if s { Case { a, b, iterations, c, temp } } else { Case { a: b, b: a, iterations, c, temp } }), tictactoe);
    let plain = || prop_oneof![Just(Side::Random), Just(Side::Mcts)];
    p.family_opts("plain", (160, 3_000), 6, (plain(), plain(), prop_oneof![1u32..20, 100u32..160], 0.5f64..3.0, temp()).prop_map(|(a, b, iterations, c, temp)| Case { a, b, iterations, c, temp }), tictactoe);
    p.family_opts("backgammon", (32, 600), 1, (any::<bool>(), any::<bool>(), any::<u8>()), backgammon);
    fresh(&mut p);
    let shuffled = |n: u8| Just((0u8..n).collect::<Vec<_>>()).prop_shuffle().prop_map(Side::Fixed);
    let any_side = move |n: u8| prop_oneof![3 => shuffled(n).boxed(), 2 => Just(Side::Random).boxed(), 2 => net().boxed(), 1 => Just(Side::Mcts).boxed()];
    let case = move |n: u8| (any_side(n), any_side(n), 0.2f64..4.0, 0.05f64..3.0).prop_map(|(a, b, c, temp)| Case { a, b, iterations: 1, c, temp });
    p.family_opts("synthetic", (80, 2_500), 10, (world(1..=5, 1..=3), case(9)), synthetic::<9, 3, 9, false>);
    p.family_opts("synthetic-dice", (80, 2_500), 10, (world(1..=5, 1..=3), case(40)), synthetic::<40, 2, 5, true>);
    p.finish()
}
