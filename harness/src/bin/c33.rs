//! C33: chance is drawn anew, in every run, for every draw, in every thread and for every game.
#![allow(dead_code)]
use die_e::alphazero::alphazero::AlphaZero;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts_parallel, apply_dirichlet_to_root};
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{play, Agent, Player};
use indicatif::ProgressBar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use tch::Tensor;
use vh::bg::{Pos, START};
use vh::glue::{Az, Mc};
use vh::runner::with_entropy;
use vh::samples::{fragments, Dir, Samp};
use vh::stats::{chi_uniform, FAR};
use vh::ttt::TPos;
use vh::{child, ensure, fail, glue, must, sut, Obs, Prop, Res};

#[path = "c03.rs"]
mod c03;
#[path = "c12.rs"]
mod c12;
#[path = "c20.rs"]
mod c20;
#[path = "c24.rs"]
mod c24;
#[path = "c26.rs"]
mod c26;

/// What is left to chance. Every sequence drawn is good for 70 bits and more.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum Source {
    /// dice, thrown on and on by one game
    Dice,
    /// dice, each throw by a fresh copy of the same game
    DiceOfCopies,
    /// dice after a pass
    DiceOfPasses,
    /// new games
    Openings,
    /// results of rollouts, each from the same position
    Rollouts,
    /// noise on the priors of a node
    Noise,
    /// noise on the priors of a root in a search
    RootNoise,
    /// noise on the priors of a batch
    BatchNoise,
    /// actions drawn from weights
    Picks,
    /// moves asked of a model
    ModelMoves,
    /// samples of parallel and of sequential self-play
    SelfPlay,
    SelfPlayInTurn,
    /// plays between random players
    Match,
    /// identifiers of recorded games
    GameIds,
    /// order of training samples
    TrainingOrder,
}

use Source::*;

const ALL: [Source; 15] = [Dice, DiceOfCopies, DiceOfPasses, Openings, Rollouts, Noise, RootNoise, BatchNoise, Picks, ModelMoves, SelfPlay, SelfPlayInTurn, Match, GameIds, TrainingOrder];

fn bits(v: &[f32]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits() as u64).collect()
}

fn empty() -> TicTacToe {
    glue::tgame(&TPos { board: [0; 9], player: -1 })
}

fn pair(r: (u8, u8)) -> u64 {
    r.0 as u64 * 10 + r.1 as u64
}

/// The priors of the children of a node, by action.
fn priors(st: &NodeStore<TicTacToe>, i: usize) -> Vec<u64> {
    let mut v: Vec<(u8, u64)> = st.get_node_ref(i).children.iter().map(|c| st.get_node_ref(*c)).map(|n| (n.action_taken.unwrap_or(99), n.policy.to_bits() as u64)).collect();
    v.sort();
    v.into_iter().map(|x| x.1).collect()
}

/// A learner that answers nearly alike for all actions.
fn flat(mc: &Mc, az: &Az) -> AlphaZero {
    let a = glue::learner::<TicTacToe>(mc, az);
    glue::fix_heads::<TicTacToe>(&a.model.vs, &[0.0; 9], 0.0);
    a
}

fn draw(s: Source) -> Vec<u64> {
    let start = Pos { board: START, player: -1, roll: (3, 1), second: false };
    // (what comes from torch's generator repeats in every run of the program, so it is the same here)
    tch::manual_seed(1);
    match s {
        Dice => {
            let mut g = glue::bgame(&start);
            (0..40).map(|_| { must("roll_die", || g.roll_die()); pair(g.roll) }).collect()
        }
        DiceOfCopies => (0..40)
            .map(|_| {
                let mut g = glue::bgame(&start);
                must("roll_die", || g.roll_die());
                pair(g.roll)
            })
            .collect(),
        DiceOfPasses => (0..40)
            .map(|i| {
                let mut g = glue::bgame(&start);
                for _ in 0..i % 3 {
                    must("skip_turn", || g.skip_turn());
                }
                must("skip_turn", || g.skip_turn());
                pair(g.roll)
            })
            .collect(),
        Openings => (0..40)
            .map(|_| {
                let mut g = must("new", Backgammon::new);
                must("roll_die", || g.roll_die());
                pair(g.roll)
            })
            .collect(),
        Rollouts => {
            let g = glue::tgame(&TPos { board: [1, 0, 0, 0, -1, 0, 0, 0, 0], player: 1 });
            (0..160).map(|_| must("simulate", || Node::new(g, 0, None, None, 0.0).simulate(1, 50)) as i64 as u64).collect()
        }
        Noise => {
            let mut st: NodeStore<TicTacToe> = NodeStore::new();
            st.add_node(empty(), None, None, 0.0);
            let mut n = st.get_node(0);
            must("alpha_expand", || n.alpha_expand(&mut st, vec![1.0 / 9.0; 1352]));
            st.get_node_as_mut(0).visits = 1.0;
            let n = st.get_node(0);
            must("apply_dirichlet", || n.apply_dirichlet(0.7, 1.0, &mut st));
            priors(&st, 0)
        }
        RootNoise => {
            let net = glue::net::<TicTacToe>();
            glue::fix_heads::<TicTacToe>(&net.vs, &[0.0; 9], 0.0);
            let mc = Mc { iterations: 1, c: 1.0, limit: 10, alpha: 0.7, eps: 1.0 }.build();
            let _g = tch::no_grad_guard();
            let mut st = NodeStore::new();
            let g = empty();
            st.add_node(g, None, None, 0.0);
            must("apply_dirichlet_to_root", || apply_dirichlet_to_root(0, &mut st, &net, &g, &mc));
            priors(&st, 0)
        }
        BatchNoise => {
            let net = glue::net::<TicTacToe>();
            glue::fix_heads::<TicTacToe>(&net.vs, &[0.0; 9], 0.0);
            let mc = Mc { iterations: 0, c: 1.0, limit: 10, alpha: 0.7, eps: 1.0 }.build();
            let mut st = NodeStore::new();
            must("alpha_mcts_parallel", || alpha_mcts_parallel(&mut st, &[empty(); 4], &net, &mc, Some(ProgressBar::hidden())));
            (0..4).flat_map(|i| priors(&st, i)).collect()
        }
        Picks => {
            let w = Tensor::from_slice(&[0.2f64, 0.1, 0.15, 0.25, 0.3]);
            (0..60).map(|_| must("weighted_select_tensor_idx", || AlphaZero::weighted_select_tensor_idx(&w)) as u64).collect()
        }
        ModelMoves => {
            let az = flat(&Mc { iterations: 18, c: 3.0, limit: 20, alpha: 0.3, eps: 0.0 }, &Az { temperature: 2.0, ..Az::default() });
            let g = empty();
            (0..45).map(|_| must("get_next_move_for_state", || az.get_next_move_for_state(&g)) as u64).collect()
        }
        SelfPlay | SelfPlayInTurn => {
            let az = flat(&Mc { iterations: 18, c: 3.0, limit: 20, alpha: 0.3, eps: 0.0 }, &Az { temperature: 2.0, games: 12, ..Az::default() });
            let mem = if s == SelfPlay {
                must("self_play_parallel", || az.self_play_parallel::<TicTacToe>())
            } else {
                (0..8).flat_map(|_| must("self_play", || az.self_play::<TicTacToe>())).collect()
            };
            mem.iter().flat_map(|m| { let mut v = bits(&glue::vecf(&m.state)); v.push(m.outcome as i64 as u64); v }).collect()
        }
        Match | GameIds => {
            let cfg = Mc { iterations: 1, c: 1.0, limit: 20, alpha: 0.3, eps: 0.0 }.build();
            let r = must("play", || play::<TicTacToe>(Player::new(Agent::Random, None), Player::new(Agent::Mcts, None), &cfg, 1.0));
            let mut v: Vec<(u64, u64)> = r.games.iter().map(|g| {
                let j = serde_json::to_value(g).unwrap();
                if s == GameIds {
                    let id = j["id"].as_str().unwrap_or("").bytes().fold(0u64, |a, b| a.wrapping_mul(1_000_003).wrapping_add(b as u64));
                    (id, id)
                } else {
                    (j["initial_state"]["id"].as_u64().unwrap_or(0), j["winner"].as_str().unwrap_or("").len() as u64)
                }
            }).collect();
            v.sort();
            v.into_iter().map(|x| x.1).collect()
        }
        TrainingOrder => {
            let mut az = glue::learner::<TicTacToe>(&Mc::default(), &Az { batch: 1, lr: 0.01, ..Az::default() });
            let ps: Vec<Samp<TPos>> = (0..14u8).map(|i| Samp { pos: *TPos::run(1, &[i, i / 3, i / 2]).last().unwrap(), policy: vec![(i as u16, 100)], outcome: i as i8 % 3 - 1 }).collect();
            let mut mem = fragments(&ps);
            must("train", || az.train(&mut mem));
            let v = glue::snapshot(&az.model.vs);
            v.values().flat_map(|t| bits(&glue::vecf(t).iter().take(20).cloned().collect::<Vec<_>>())).collect()
        }
    }
}

/// Nothing repeats inside one sequence either, where the draws are one by one.
fn blocks(s: Source, v: &[u64]) -> Res {
    match s {
        BatchNoise => {
            let b: Vec<&[u64]> = v.chunks(v.len() / 4).collect();
            for i in 0..4 {
                for j in 0..i {
                    ensure!(b[i] != b[j], "shared", "two positions of one batch were given the same noise {:?}", b[i].iter().map(|x| f32::from_bits(*x as u32)).collect::<Vec<_>>());
                }
            }
        }
        GameIds => {
            let n = v.iter().collect::<std::collections::BTreeSet<_>>().len();
            ensure!(n == v.len(), "same-ids", "{} of {} recorded games have an identifier of their own", n, v.len());
        }
        Noise | RootNoise | SelfPlay | SelfPlayInTurn | TrainingOrder => {}
        _ => {
            let h = v.len() / 2;
            ensure!(v[..h] != v[h..2 * h], "repeats", "{:?}: the second half repeats the first: {:?}", s, &v[..h.min(12)]);
        }
    }
    Ok(())
}

/// Two runs with different entropy, two sequences each.
fn runs(c: &(Source, u64, u64), o: &mut Obs) -> Res {
    let (s, s1, s2) = *c;
    if s1 == s2 {
        return Ok(());
    }
    let run = |seed: u64| sut("drawing", || with_entropy(seed, || (draw(s), draw(s))));
    let (a, b) = (run(s1)?, run(s2)?);
    for v in [&a.0, &a.1, &b.0, &b.1] {
        blocks(s, v)?;
        o.eval();
    }
    ensure!(a.0 != b.0 && a.1 != b.1, "same-runs", "{:?}: two runs with different entropy draw the same: {:?}", s, &a.0[..a.0.len().min(12)]);
    ensure!(a.0 != a.1 && b.0 != b.1, "same-draws", "{:?}: drawn twice in one run gives the same: {:?}", s, &a.0[..a.0.len().min(12)]);
    ensure!(a.0 != b.1 && a.1 != b.0, "same-runs", "{:?}: one run draws what the other did: {:?}", s, &a.0[..a.0.len().min(12)]);
    o.class(format!("{:?}", s));
    o.nontrivial(c);
    o.sample(|| format!("{:?}: {:?} / {:?}", s, &a.0[..4], &b.0[..4]));
    Ok(())
}

/// Threads of one run, started one after another or together, or the workers of a pool.
fn threads(c: &(Source, u8, u8, u64), o: &mut Obs) -> Res {
    let (s, n, how, seed) = *c;
    let n = 2 + n as usize % 4;
    let all: Vec<Vec<u64>> = sut("drawing", || {
        with_entropy(seed, || match how % 3 {
            0 => (0..n).map(|_| std::thread::scope(|x| x.spawn(|| draw(s)).join().unwrap_or_else(|e| std::panic::resume_unwind(e)))).collect(),
            1 => std::thread::scope(|x| {
                let hs: Vec<_> = (0..n).map(|_| x.spawn(|| draw(s))).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
            }),
            _ => {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
                pool.broadcast(|_| draw(s))
            }
        })
    })?;
    for (i, a) in all.iter().enumerate() {
        blocks(s, a)?;
        for b in &all[..i] {
            ensure!(a != b, "same-threads", "{:?}: two of {} threads draw the same: {:?}", s, n, &a[..a.len().min(12)]);
        }
        o.eval();
    }
    o.class(format!("{:?}", s));
    o.class(["threads one by one", "threads at once", "workers of a pool"][how as usize % 3]);
    o.nontrivial(c);
    Ok(())
}

/// What the first draws of many runs (or threads) look like together: fair, too.
fn firsts(c: &(u8, u64), o: &mut Obs) -> Res {
    let (what, seed) = *c;
    let n = 720u64;
    let one = |k: u8| -> (u64, u64) {
        match k % 3 {
            0 => {
                let mut g = glue::bgame(&Pos { board: START, player: -1, roll: (3, 1), second: false });
                must("roll_die", || g.roll_die());
                (g.roll.0 as u64 - 1, g.roll.1 as u64 - 1)
            }
            1 => {
                let mut g = glue::bgame(&Pos { board: START, player: -1, roll: (3, 1), second: false });
                must("skip_turn", || g.skip_turn());
                (g.roll.0 as u64 - 1, g.roll.1 as u64 - 1)
            }
            _ => {
                let w = Tensor::from_slice(&[1.0f64; 6]);
                let mut p = || must("weighted_select_tensor_idx", || AlphaZero::weighted_select_tensor_idx(&w)) as u64;
                (p(), p())
            }
        }
    };
    let all: Vec<(u64, u64)> = sut("drawing", || {
        if what & 8 == 0 {
            (0..n).map(|i| with_entropy(seed.wrapping_add(i), || one(what))).collect()
        } else {
            with_entropy(seed, || (0..n).map(|_| std::thread::scope(|x| x.spawn(|| one(what)).join().unwrap_or_else(|e| std::panic::resume_unwind(e)))).collect())
        }
    })?;
    let mut single = [0u64; 6];
    let mut second = [0u64; 6];
    let mut both = [0u64; 36];
    let mut next = [0u64; 36];
    for (i, (a, b)) in all.iter().enumerate() {
        single[*a as usize] += 1;
        second[*b as usize] += 1;
        both[(a * 6 + b) as usize] += 1;
        if i % 2 == 1 {
            next[(all[i - 1].0 * 6 + a) as usize] += 1;
        }
    }
    for (t, z) in [("first draws", chi_uniform(&single)), ("second draws", chi_uniform(&second)), ("pairs", chi_uniform(&both)), ("draws of neighbours", chi_uniform(&next))] {
        ensure!(z < FAR, "first-draws", "the {} of {} {} are not fair and independent (score {:.1}): {:?}", t, n, if what & 8 == 0 { "runs" } else { "threads" }, z, both);
    }
    o.eval();
    o.class(["dice", "dice after a pass", "weighted draws"][what as usize % 3]);
    o.class(if what & 8 == 0 { "runs" } else { "threads" });
    o.nontrivial(c);
    Ok(())
}

/// The program started twice alike.
fn program(c: &(u8, u64, u64), o: &mut Obs) -> Res {
    let (what, s1, s2) = *c;
    if s1 == s2 {
        return Ok(());
    }
    let go = |seed: u64| -> Res<BTreeMap<String, Vec<u8>>> {
        let dir = Dir::new();
        let w = dir.path();
        std::fs::create_dir_all(w.join("out")).unwrap();
        std::fs::write(w.join("conf"), glue::config_text(&Mc { iterations: 6, eps: 0.25, limit: 20, ..Mc::default() }, &Az { games: 6, epochs: 1, ..Az::default() })).unwrap();
        let cpus = (1 + what as usize / 2 % 3).to_string();
        let mut args: Vec<String> = ["--game", "tic-tac-toe", "--config", "conf", "--n-cpus", &cpus].iter().map(|s| s.to_string()).collect();
        if what % 2 == 0 {
            args.extend(["play", "--agent-one", "random", "--agent-two", "mcts", "--output-path", "out"].iter().map(|s| s.to_string()));
        } else {
            args.push("learn".into());
        }
        let r = child::run(&child::cli(), &args, w, seed, "", 250);
        ensure!(!r.timeout, "hang", "the program does not end");
        ensure!(r.ok(), "panic", "the program fails: {}", r.tail());
        Ok(dir.files().into_iter().map(|f| (f.clone(), std::fs::read(dir.join(&f)).unwrap())).collect())
    };
    let (a, b) = (go(s1)?, go(s2)?);
    if what % 2 == 0 {
        // the games of both under their identifiers
        let ids: Vec<&String> = a.keys().filter(|k| k.starts_with("out/") && b.contains_key(*k)).collect();
        ensure!(ids.is_empty(), "same-runs", "two runs of the program record games under the same identifiers: {:?}", &ids[..ids.len().min(4)]);
        let winners = |m: &BTreeMap<String, Vec<u8>>| -> Vec<(u64, String)> {
            let mut v: Vec<(u64, String)> = m.iter().filter(|f| f.0.starts_with("out/")).map(|f| serde_json::from_slice::<serde_json::Value>(f.1).unwrap_or_default()).map(|j| (j["initial_state"]["id"].as_u64().unwrap_or(0), j["winner"].to_string())).collect();
            v.sort();
            v
        };
        let (x, y) = (winners(&a), winners(&b));
        ensure!(!x.is_empty() && x != y, "same-runs", "two runs of the program play the same {} games", x.len());
        o.class("play");
    } else {
        let of = |m: &BTreeMap<String, Vec<u8>>, end: &str| -> Vec<(String, Vec<u8>)> { m.iter().filter(|f| f.0.starts_with("data/") && f.0.ends_with(end)).map(|f| (f.0.clone(), f.1.clone())).collect() };
        let (x, y) = (of(&a, "states.ot"), of(&b, "states.ot"));
        if x.len() != 1 || y.len() != 1 {
            return fail("data", format!("{} and {} self-play iterations stored", x.len(), y.len()));
        }
        ensure!(x[0].0 != y[0].0, "same-runs", "two runs of the program store their data in the same directory {}", x[0].0);
        ensure!(x[0].1 != y[0].1 || of(&a, "ps.ot")[0].1 != of(&b, "ps.ot")[0].1, "same-runs", "two runs of the program play the same games with themselves");
        o.class("learn");
    }
    o.eval();
    o.nontrivial(c);
    Ok(())
}

fn main() {
    let mut p = Prop::new("C33", "distinct sources of chance, ways and entropies compared")
        .assume("entropy comes from the deterministic stand-in for getrandom, torch's generator starts alike in every run, as it does in the program; initial weights of networks are left out; every compared sequence is good for 36 bits and more");
    let source = || prop::sample::select(ALL.to_vec());
    p.family_opts("runs", (600, 20_000), 3, (source(), any::<u64>(), any::<u64>()), runs);
    p.family_opts("threads", (300, 10_000), 3, (source(), any::<u8>(), any::<u8>(), any::<u64>()), threads);
    p.family_opts("first-draws", (64, 2_000), 3, (any::<u8>(), any::<u64>()), firsts);
    p.family_opts("program", (16, 300), 1, (any::<u8>(), any::<u64>(), any::<u64>()), program);
    c03::fresh(&mut p);
    c12::fresh(&mut p);
    c20::fresh(&mut p);
    c24::fresh(&mut p);
    c26::fresh(&mut p);
    p.finish()
}
