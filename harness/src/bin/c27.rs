//! C27: the best model is replaced only by a clearly better one.
use die_e::alphazero::alphazero::AlphaZero;
use die_e::alphazero::nnet::ResNet;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use vh::child;
use vh::glue::{Az, Mc};
use vh::samples::Dir;
use vh::ttt::TPos;
use vh::{ensure, fail, glue, Obs, Prop, Res};

type G = TicTacToe;

/// Work of the servant: in the current directory, models m<i>.ot challenge one after the other.
#[derive(Serialize, Deserialize)]
struct Job {
    mc: Mc,
    az: Az,
    /// challengers; the stored best model stands or falls
    gate: Vec<usize>,
    /// matches that only give a verdict, (self, other)
    verdicts: Vec<(usize, usize)>,
}

fn servant(j: Job) {
    let cfg = glue::full_config(&j.mc, &j.az);
    for (i, m) in j.gate.iter().enumerate() {
        let az = AlphaZero::from_config::<G>(Some(PathBuf::from(format!("m{}.ot", m))), &cfg);
        az.play_vs_best_model::<G>();
        az.model.vs.save(format!("after{}.ot", i)).unwrap();
        std::fs::copy("models/tictactoe/best_model.ot", format!("best{}.ot", i)).unwrap();
    }
    for (i, (a, b)) in j.verdicts.iter().enumerate() {
        let az = AlphaZero::from_config::<G>(Some(PathBuf::from(format!("m{}.ot", a))), &cfg);
        println!("\nMATCH {}", i);
        let v = az.play_vs_model::<G>(ResNet::from_path::<G>(&PathBuf::from(format!("m{}.ot", b))));
        println!("\nVERDICT {} {}", i, v.map_or(0, |x| x));
        az.model.vs.save(format!("vafter{}.ot", i)).unwrap();
    }
}

/// Who wins when both follow their order of preference.
fn game(a: &[u8], b: &[u8], first: i8) -> i8 {
    let mut p = TPos { board: [0; 9], player: first };
    loop {
        if let Some(w) = p.outcome() {
            return w;
        }
        let o = if p.player == -1 { a } else { b };
        p = p.play(*o.iter().find(|m| p.board[**m as usize] == 0).unwrap());
    }
}

/// Games of 400 won by a.
fn wins(a: &[u8], b: &[u8]) -> usize {
    200 * ((game(a, b, -1) == -1) as usize + (game(a, b, 1) == -1) as usize)
}

fn save(dir: &Dir, name: &str, order: &[u8], salt: f64) -> std::collections::BTreeMap<String, tch::Tensor> {
    let net = glue::net::<G>();
    let mut logits = vec![0f32; 9];
    for (i, a) in order.iter().enumerate() {
        logits[*a as usize] = -(i as f32) * 0.7;
    }
    glue::fix_heads::<G>(&net.vs, &logits, salt);
    net.vs.save(dir.join(name)).unwrap();
    glue::snapshot(&net.vs)
}

fn load(dir: &Dir, name: &str) -> std::collections::BTreeMap<String, tch::Tensor> {
    let mut net = glue::net::<G>();
    net.vs.load(dir.join(name)).expect("model of the servant");
    glue::snapshot(&net.vs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    orders: Vec<Vec<u8>>,
    challengers: Vec<u8>,
    start_with_best: Option<u8>,
    temp: f64,
    value: f64,
    seed: u64,
}

fn known(c: &Case, o: &mut Obs) -> Res {
    let dir = Dir::new();
    let n = c.orders.len();
    let models: Vec<_> = (0..n).map(|i| save(&dir, &format!("m{}.ot", i), &c.orders[i], c.value + i as f64 * 0.001)).collect();
    let mut best = c.start_with_best.map(|b| b as usize % n);
    if let Some(b) = best {
        std::fs::create_dir_all(dir.join("models/tictactoe")).unwrap();
        std::fs::copy(dir.join(&format!("m{}.ot", b)), dir.join("models/tictactoe/best_model.ot")).unwrap();
    }
    let gate: Vec<usize> = c.challengers.iter().map(|x| *x as usize % n).collect();
    let verdicts: Vec<(usize, usize)> = gate.iter().zip(gate.iter().rev()).map(|(a, b)| (*a, *b)).take(2).collect();
    let job = Job {
        mc: Mc { iterations: 1, eps: 0.0, ..Mc::default() },
        az: Az { temperature: c.temp, ..Az::default() },
        gate: gate.clone(),
        verdicts: verdicts.clone(),
    };
    let out = child::call(&job, dir.path(), c.seed, 200);
    ensure!(!out.timeout, "hang", "comparing models does not come to an end");
    ensure!(out.ok(), "panic", "comparing models fails: {}", out.tail());
    let same = |a: usize, s: &std::collections::BTreeMap<String, tch::Tensor>| glue::same_vars(&models[a], s).is_none();
    for (i, m) in gate.iter().enumerate() {
        ensure!(same(*m, &load(&dir, &format!("after{}.ot", i))), "current-changed", "step {}: the comparison changed the current model", i);
        let was = best;
        let w = match best {
            None => 400,
            Some(b) => wins(&c.orders[*m], &c.orders[b]),
        };
        if w >= 220 {
            best = Some(*m);
        }
        let b = best.unwrap();
        let stored = load(&dir, &format!("best{}.ot", i));
        if !same(b, &stored) {
            let is = (0..n).find(|k| same(*k, &stored));
            return fail("gate", format!("step {}: model {} wins {} of 400 games against the best model {:?}, afterwards the best model is {:?}", i, m, w, was, is));
        }
        o.eval();
        o.class(match (was, w) {
            (None, _) => "first model",
            (_, 400) => "won both ways",
            (_, 200) => "won one way",
            _ => "won no game",
        });
        o.class_if(was.is_some() && was == Some(*m), "against itself");
    }
    for (i, (a, b)) in verdicts.iter().enumerate() {
        let w = wins(&c.orders[*a], &c.orders[*b]);
        let v = verdict_of(&out.stdout, i);
        let want = if w >= 220 { 1 } else if w <= 180 { 2 } else { 0 };
        ensure!(v == Some(want), "verdict", "model {} wins {} of 400 games against {}: the verdict is {:?}", a, w, b, v);
        ensure!(same(*a, &load(&dir, &format!("vafter{}.ot", i))), "current-changed", "the match changed the current model");
        o.eval();
    }
    if n > 1 {
        o.nontrivial(format!("{:?}", c));
    }
    o.sample(|| format!("{:?}: best model at the end {:?}", c, best));
    Ok(())
}

fn verdict_of(text: &str, i: usize) -> Option<usize> {
    let key = format!("VERDICT {} ", i);
    text.lines().find_map(|l| l.strip_prefix(&key)).and_then(|s| s.trim().parse().ok())
}

/// Games won by player 1 in the printed result of a match.
fn printed(text: &str, i: usize) -> Option<usize> {
    let a = text.split(&format!("\nMATCH {}\n", i)).nth(1)?;
    let a = a.split("\nVERDICT").next()?;
    a.lines().find_map(|l| l.split("Wins Player 1:").nth(1)).and_then(|s| s.trim().parse().ok())
}

/// Matches whose result is left to chance: the verdict must fit the games won.
fn chance(c: &(Vec<(f64, f64)>, u32, f64, u64), o: &mut Obs) -> Res {
    let (nets, iterations, temp, seed) = c;
    let dir = Dir::new();
    for (i, (p, v)) in nets.iter().enumerate() {
        let net = glue::net::<G>();
        glue::sharpen::<G>(&net.vs, *p, *v);
        net.vs.save(dir.join(&format!("m{}.ot", i))).unwrap();
    }
    let n = nets.len();
    let mut pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
    let mut job = Job {
        mc: Mc { iterations: *iterations, c: 2.0, limit: 100, alpha: 0.3, eps: 0.4 },
        az: Az { temperature: *temp, ..Az::default() },
        gate: vec![],
        verdicts: pairs.clone(),
    };
    for round in 0..2 {
        let out = child::call(&job, dir.path(), *seed + round, 300);
        ensure!(out.ok(), "panic", "comparing models fails: {}", out.tail());
        let mut got = vec![];
        for (i, (a, b)) in job.verdicts.iter().enumerate() {
            let w = match printed(&out.stdout, i) {
                Some(w) => w,
                None => {
                    o.class("result not printed");
                    continue;
                }
            };
            let v = verdict_of(&out.stdout, i);
            let want = if w >= 220 { 1 } else if w <= 180 { 2 } else { 0 };
            ensure!(v == Some(want), "verdict", "{} wins of 400: the verdict is {:?}", w, v);
            got.push((w, (*a, *b)));
            o.eval();
            o.class(match w {
                220 => "exactly 55%",
                180 => "exactly 45%",
                210..=230 => "near 55%",
                170..=190 => "near 45%",
                0..=180 => "worse",
                181..=219 => "undecided",
                _ => "better",
            });
            o.nontrivial((nets.iter().map(|x| x.0.to_bits()).collect::<Vec<_>>(), w));
        }
        // once more with the pairs closest to either limit
        let mut near: Vec<(usize, (usize, usize))> = vec![];
        for t in [220i64, 220, 180] {
            if let Some(x) = got.iter().min_by_key(|x| (x.0 as i64 - t).abs()) {
                near.push(*x);
            }
        }
        pairs = near.iter().flat_map(|x| vec![x.1; 2]).collect();
        job.verdicts = pairs.clone();
        o.sample(|| format!("{} networks: games won {:?}", n, got.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    Ok(())
}

fn main() {
    child::serve(servant);
    let mut p = Prop::new("C27", "distinct histories of challengers with known results; distinct matches left to chance")
        .assume("models with fixed preferences have results known from the rules; matches left to chance are judged by the result they print");
    let order = || Just((0u8..9).collect::<Vec<_>>()).prop_shuffle();
    p.family_opts("known", (96, 2_500), 12, (vec(order(), 1..5), vec(any::<u8>(), 1..5), prop_oneof![1 => Just(None), 3 => any::<u8>().prop_map(Some)], 0.05f64..3.0, 0.01f64..0.9, any::<u64>())
        .prop_map(|(orders, challengers, start_with_best, temp, value, seed)| Case { orders, challengers, start_with_best, temp, value, seed }), known);
    p.family_opts("chance", (24, 600), 3, (vec((0.3f64..3.0, 0.3f64..3.0), 3..4), 3u32..7, 0.8f64..4.0, any::<u32>().prop_map(|x| x as u64)), chance);
    p.finish()
}
