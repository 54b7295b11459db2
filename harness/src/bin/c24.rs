//! C24: self-play samples are correctly labelled and complete.
use die_e::alphazero::alphazero::MemoryFragment;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::mcts::alpha_mcts::alpha_mcts_parallel;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::utils::get_prob_tensor_parallel;
use die_e::tictactoe::TicTacToe;
use indicatif::ProgressBar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::bg::*;
use vh::glue::{Az, Mc};
use vh::selfplay::*;
use vh::stats::FAR;
use vh::synth::{times, world, Syn, World};
use die_e::base::LearnableGame;
use vh::{ensure, fail, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Set {
    games: u32,
    limit: u64,
    iterations: u32,
    c: f64,
    eps: f64,
    temperature: f64,
    policy: f64,
    value: f64,
    sequential: bool,
}

fn set(games: u32, limit: BoxedStrategy<u64>, iterations: u32) -> impl Strategy<Value = Set> + Clone {
    let t = prop_oneof![2 => 0.3f64..3.0, 1 => Just(1.0f64), 1 => 0.02f64..0.3, 1 => 0.002f64..0.02, 1 => 3.0f64..100.0];
    (1u32..=games, limit, 1u32..=iterations, 0.3f64..4.0, prop_oneof![1 => Just(0.0f64), 1 => 0.05f64..0.6], t, (prop_oneof![3 => 0.1f64..6.0, 1 => 10.0f64..60.0], 0.1f64..8.0), any::<bool>())
        .prop_map(|(games, limit, iterations, c, eps, temperature, (policy, value), sequential)| Set { games, limit, iterations, c, eps, temperature, policy, value, sequential })
}

fn check<G: Game>(s: &Set, o: &mut Obs) -> Res {
    let mc = Mc { iterations: s.iterations, c: s.c, limit: s.limit, alpha: 0.3, eps: s.eps };
    let az = glue::learner::<G>(&mc, &Az { temperature: s.temperature, games: s.games, ..Az::default() });
    glue::sharpen::<G>(&az.model.vs, s.policy, s.value);
    let before = glue::snapshot(&az.model.vs);
    let mem: Vec<MemoryFragment> = if s.sequential {
        sut("self_play", || az.self_play::<G>())?
    } else {
        sut("self_play_parallel", || az.self_play_parallel::<G>())?
    };
    if let Some(d) = glue::same_vars(&before, &glue::snapshot(&az.model.vs)) {
        return fail("model-changed", format!("self-play changed the model: {}", d));
    }
    for (i, m) in mem.iter().enumerate() {
        ensure!(m.state.size()[0] == 1 && m.state.size().len() == 4, "shape", "sample {} has a state of shape {:?}", i, m.state.size());
    }
    let decs = decisions::<G>(&mem, o)?;
    let own: Vec<Vec<f32>> = decs.iter().map(|d| d.ps.clone()).collect();
    let games = games::<G>(decs)?;
    let want = if s.sequential { 1 } else if s.limit == 0 { 0 } else { s.games as usize };
    ensure!(games.len() == want, "games", "{} games in the samples, {} were to be played", games.len(), want);
    for g in &games {
        one_game::<G>(g, if s.sequential { usize::MAX } else { s.limit as usize }, o)?;
    }
    // without noise the target can be computed again from the position
    // (dice inside a tree are thrown anew, so in backgammon only the first iteration is determined)
    if s.eps == 0.0 && !mem.is_empty() && (G::REPEATABLE || s.iterations == 1) {
        let gs: Vec<G> = games.iter().flatten().take(40).map(|d| G::game(&d.pos)).collect();
        let mut st = NodeStore::new();
        let cfg = mc.build();
        sut("alpha_mcts_parallel", || alpha_mcts_parallel(&mut st, &gs, &az.model, &cfg, Some(ProgressBar::hidden())))?;
        let roots: Vec<_> = (0..gs.len()).map(|i| st.get_node_ref(i)).collect();
        let pr = sut("get_prob_tensor_parallel", || get_prob_tensor_parallel(&roots, &st))?;
        let mut off = vec![];
        for (i, ps) in own.iter().take(gs.len()).enumerate() {
            let v = glue::vecf(&pr.get(i as i64));
            let top = v.iter().cloned().fold(0.0f32, f32::max) as f64;
            let w: Vec<f64> = v.iter().map(|x| (*x as f64 / top).powf(1.0 / s.temperature)).collect();
            let t: f64 = w.iter().sum();
            if w.iter().zip(ps).any(|(a, b)| (a / t - *b as f64).abs() > 2e-3) {
                off.push(i);
            }
        }
        // a near tie may be decided differently in another batch, but not often
        ensure!(off.len() < 2 || off.len() * 5 <= gs.len(), "target", "{} of {} policy targets are not the visit shares at temperature {}; first {:?}", off.len(), gs.len(), s.temperature, gs[off[0]].show());
        o.class("targets computed again");
    }
    o.class(if s.sequential { "sequential" } else { "parallel" });
    if !mem.is_empty() {
        o.nontrivial(own.iter().map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>());
    }
    o.sample(|| format!("{:?}: {} samples in {} games", s, mem.len(), games.len()));
    Ok(())
}

/// The plays made are drawn from the targets.
fn drawn(s: &Set, o: &mut Obs) -> Res {
    let mc = Mc { iterations: s.iterations, c: s.c, limit: s.limit, alpha: 0.3, eps: s.eps };
    let az = glue::learner::<TicTacToe>(&mc, &Az { temperature: s.temperature, games: 60, ..Az::default() });
    let mut mem = vec![];
    if s.sequential {
        for _ in 0..60 {
            mem.extend(sut("self_play", || az.self_play::<TicTacToe>())?);
        }
    } else {
        mem = sut("self_play_parallel", || az.self_play_parallel::<TicTacToe>())?;
    }
    let (mut x, mut var, mut n) = (0.0, 0.0, 0);
    for w in mem.windows(2) {
        let (a, b) = match (TicTacToe::read(&w[0].state), TicTacToe::read(&w[1].state)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return fail("state", e),
        };
        if b.board == [0; 9] {
            continue;
        }
        // decisions that may end the game are left out: when they do, the play made is not seen
        if a.empty_cells().iter().any(|m| a.play(*m).outcome().is_some()) {
            continue;
        }
        let m = match (0..9).find(|i| a.board[*i] != b.board[*i]) {
            Some(m) => m,
            None => return fail("broken-history", format!("{:?} twice", a)),
        };
        let ps: Vec<f64> = glue::vecf(&w[0].ps).iter().map(|x| *x as f64).collect();
        let p2: f64 = ps.iter().map(|p| p * p).sum();
        x += ps[m] - p2;
        var += ps.iter().map(|p| p * p * p).sum::<f64>() - p2 * p2;
        n += 1;
        o.eval();
    }
    if var > 0.3 {
        let z = x / var.sqrt();
        ensure!(z.abs() < FAR, "not-drawn", "over {} decisions the plays made are not drawn from the targets (score {:.1})", n, z);
        o.nontrivial((n, x.to_bits()));
        o.class("judged");
    }
    o.sample(|| format!("{:?}: {} decisions, deviation {:.2}, variance {:.2}", s, n, x, var));
    Ok(())
}

/// The same for backgammon, with the early, middle and late decisions of a game judged on their own.
fn drawn_backgammon(s: &Set, o: &mut Obs) -> Res {
    let mc = Mc { iterations: 3 + s.iterations % 2, c: 30.0 * s.c, limit: s.limit, alpha: 0.3, eps: 0.3 + s.eps };
    let az = glue::learner::<Backgammon>(&mc, &Az { temperature: 1.0 + s.temperature.min(2.0), games: 2 + s.games, ..Az::default() });
    let mem = sut("self_play_parallel", || az.self_play_parallel::<Backgammon>())?;
    let games = games::<Backgammon>(decisions::<Backgammon>(&mem, o)?)?;
    let mut parts = [(0.0, 0.0, 0u32); 5];
    for g in &games {
        for (i, w) in g.windows(2).enumerate() {
            let weights: Vec<(f64, bool)> = {
                let at = glue::bgame(&w[0].pos);
                let all = w[0].pos.legal();
                if all.iter().any(|(_, b)| winner(b).is_some()) {
                    continue;
                }
                // plays that lead to the same position, or share a code, cannot be told apart
                let mut by: Vec<(RawBoard, std::collections::BTreeSet<u32>)> = vec![];
                for (m, b) in &all {
                    let c = at.encode(m);
                    if w[0].ps[c as usize] > 0.0 {
                        match by.iter_mut().find(|x| x.0 == *b) {
                            Some(x) => {
                                x.1.insert(c);
                            }
                            None => by.push((*b, [c].into())),
                        }
                    }
                }
                by.iter().map(|(b, c)| (c.iter().map(|c| w[0].ps[*c as usize] as f64).sum(), *b == w[1].pos.board)).collect()
            };
            let total: f64 = weights.iter().map(|x| x.0).sum();
            if weights.len() < 2 || (total - 1.0).abs() > 1e-3 || weights.iter().filter(|x| x.1).count() != 1 {
                continue;
            }
            let made = weights.iter().find(|x| x.1).unwrap().0;
            let p2: f64 = weights.iter().map(|x| x.0 * x.0).sum();
            let var = weights.iter().map(|x| x.0.powi(3)).sum::<f64>() - p2 * p2;
            // early, middle, late; and by the side to move
            for k in [(i >= 12) as usize + (i >= 30) as usize, if w[0].pos.player == 1 { 3 } else { 4 }] {
                parts[k].0 += made - p2;
                parts[k].1 += var;
                parts[k].2 += 1;
            }
            o.eval();
        }
    }
    for (what, (x, var, n)) in ["early", "middle", "late", "player 1", "player 2"].iter().zip(&parts) {
        if *var > 0.3 {
            let z = x / var.sqrt();
            ensure!(z.abs() < FAR, "not-drawn", "over {} decisions ({}) the plays made are not drawn from the targets (score {:.1})", n, what, z);
            o.nontrivial((n, x.to_bits()));
            o.class(format!("judged {}", what));
        }
    }
    o.sample(|| format!("{:?}: decisions, deviation, variance {:?}", s, parts.iter().map(|p| (p.2, (p.0 * 100.0).round() / 100.0, (p.1 * 100.0).round() / 100.0)).collect::<Vec<_>>()));
    Ok(())
}

/// Made-up games: passes, repeated turns, draws, any network shape.
fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Set), o: &mut Obs) -> Res {
    c.0.set();
    o.class(Syn::<A, C, W, D>::name());
    check::<Syn<A, C, W, D>>(&c.1, o)
}

fn drawn_synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Set), o: &mut Obs) -> Res {
    c.0.set();
    let s = &c.1;
    let mc = Mc { iterations: s.iterations, c: s.c, limit: s.limit, alpha: 0.3, eps: s.eps };
    let az = glue::learner::<Syn<A, C, W, D>>(&mc, &Az { temperature: s.temperature, games: 60, ..Az::default() });
    let mut mem = vec![];
    if s.sequential {
        for _ in 0..60 {
            mem.extend(sut("self_play", || az.self_play::<Syn<A, C, W, D>>())?);
        }
    } else {
        mem = sut("self_play_parallel", || az.self_play_parallel::<Syn<A, C, W, D>>())?;
    }
    let games = games::<Syn<A, C, W, D>>(decisions::<Syn<A, C, W, D>>(&mem, o)?)?;
    let (mut x, mut var, mut n) = (0.0, 0.0, 0);
    for w in games.iter().flat_map(|g| g.windows(2)) {
        let g = w[0].pos;
        if g.steps().iter().any(|m| g.after(*m).outcome().is_some()) {
            continue;
        }
        let made = match g.steps().into_iter().find(|m| g.after(*m).settle().0.same(&w[1].pos)) {
            Some(m) => m,
            None => return fail("broken-history", format!("{:?} does not come after {:?}", w[1].pos, g)),
        };
        let ps: Vec<f64> = w[0].ps.iter().map(|x| *x as f64).collect();
        let p2: f64 = ps.iter().map(|p| p * p).sum();
        x += ps[g.encode(&vh::synth::Step(made)) as usize] - p2;
        var += ps.iter().map(|p| p * p * p).sum::<f64>() - p2 * p2;
        n += 1;
        o.eval();
    }
    if var > 0.3 {
        let z = x / var.sqrt();
        ensure!(z.abs() < FAR, "not-drawn", "over {} decisions the plays made are not drawn from the targets (score {:.1})", n, z);
        o.nontrivial((n, x.to_bits()));
        o.class("judged");
    }
    Ok(())
}

/// The games of a batch are thrown for separately, and anew in another run.
fn openings(c: &(u32, u64, u64), o: &mut Obs) -> Res {
    let (games, s1, s2) = c;
    if s1 == s2 {
        return Ok(());
    }
    let mc = Mc { iterations: 1, c: 1.0, limit: 2, alpha: 0.3, eps: 0.0 };
    let az = glue::learner::<Backgammon>(&mc, &Az { games: *games, ..Az::default() });
    let rolls = |seed: u64| -> Res<(Vec<(u8, u8)>, Vec<Pos>)> {
        let mem = vh::runner::with_entropy_here(seed, || sut("self_play_parallel", || az.self_play_parallel::<Backgammon>()))?;
        let mut ps = vec![];
        for m in &mem {
            match Backgammon::read(&m.state) {
                Ok(p) => ps.push(p),
                Err(e) => return fail("state", e),
            }
        }
        Ok((ps.iter().filter(|p| Backgammon::starts(p)).map(|p| p.roll).collect(), ps))
    };
    let ((a, pa), (b, pb)) = (rolls(*s1)?, rolls(*s2)?);
    for r in [&a, &b] {
        let kinds: std::collections::BTreeSet<(u8, u8)> = r.iter().map(|x| (x.0.min(x.1), x.0.max(x.1))).collect();
        ensure!(r.len() == *games as usize, "games", "{} games in the samples, {} were to be played", r.len(), games);
        ensure!(kinds.len() > 2, "same-openings", "{} games of one batch open with the throws {:?}", games, kinds);
    }
    let sorted = |v: &[(u8, u8)]| { let mut v = v.to_vec(); v.sort(); v };
    ensure!(sorted(&a) != sorted(&b), "same-runs", "two runs of self-play with different entropy open with the same throws {:?}", a);
    ensure!(pa != pb, "same-runs", "two runs of self-play with different entropy play the same");
    o.nontrivial(c);
    o.class("two runs compared");
    o.sample(|| format!("{} games: {:?} / {:?}", games, &a[..4], &b[..4]));
    Ok(())
}

/// Limits that no game reaches.
fn long() -> impl Strategy<Value = u64> + Clone {
    prop_oneof![Just(65536u64), Just(1 << 31), Just(1 << 32), Just((1 << 32) + 1), Just(i64::MAX as u64)]
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let lim = prop_oneof![2 => 0u64..9, 2 => 9u64..20, 4 => Just(400u64), 1 => long()].boxed();
    p.family_opts(&format!("self-play {}", name), times((120, 4_000), k), 20, (world(1..=9, 1..=branch), set(7, lim, 20)), synthetic::<A, C, W, D>);
}

/// Also for C33.
pub fn fresh(p: &mut Prop) {
    p.family_opts("openings of self-play", (6, 200), 2, (30u32..50, any::<u64>(), any::<u64>()), openings);
}

fn main() {
    let mut p = Prop::new("C24", "distinct collections of samples")
        .assume("targets are compared within 2e-3; a near tie decided differently by batching is allowed in at most one target in five");
    p.family_opts("tictactoe", (1800, 40_000), 30, set(7, prop_oneof![2 => 0u64..9, 2 => 9u64..12, 4 => Just(400u64), 1 => long()].boxed(), 25), check::<TicTacToe>);
    p.family_opts("drawn", (40, 1_000), 5, set(2, Just(100u64).boxed(), 30), drawn);
    p.family_opts("backgammon", (16, 400), 3, set(3, (1u64..14).boxed(), 3).prop_map(|s| Set { sequential: false, ..s }), check::<Backgammon>);
    p.family_opts("backgammon-whole", (8, 120), 1, set(2, prop_oneof![2 => Just(400u64), 1 => long()].boxed(), 1), check::<Backgammon>);
    p.family_opts("drawn-backgammon", (8, 200), 1, set(4, Just(400u64).boxed(), 5), drawn_backgammon);
    let lim = || prop_oneof![2 => 0u64..9, 2 => 9u64..20, 4 => Just(400u64), 1 => long()].boxed();
    p.family_opts("synthetic", (700, 20_000), 30, (world(1..=9, 1..=7), set(7, lim(), 25)), synthetic::<9, 3, 9, false>);
    p.family_opts("synthetic-dice", (700, 20_000), 30, (world(1..=9, 1..=12), set(7, lim(), 25)), synthetic::<40, 2, 5, true>);
    p.family_opts("synthetic-large", (60, 2_000), 15, (world(1..=6, 1..=60), set(5, lim(), 12)), synthetic::<2000, 1, 8, false>);
    // games of hundreds of decisions and passes
    let far = || prop_oneof![2 => 100u64..600, 2 => 600u64..4000, 1 => long()].boxed();
    let marathon = || (any::<u16>(), 100u8..=255, 1u8..=2, prop_oneof![1 => Just(0u8), 2 => 20u8..180], 0u8..160, 0u8..200).prop_map(|(seed, depth, branch, pass, stay, draw)| World { seed, depth, branch, pass, stay, end: 0, draw });
    p.family_opts("long-games", (64, 1_600), 4, (marathon(), set(2, far(), 2)), synthetic::<6, 1, 6, false>);
    p.family_opts("long-games-dice", (64, 1_600), 4, (marathon(), set(2, far(), 2)), synthetic::<6, 2, 4, true>);
    p.family_opts("many-games", (12, 400), 2, (100u32..700, set(1, (1u64..4).boxed(), 2)).prop_map(|(games, s)| Set { games, sequential: false, ..s }), check::<TicTacToe>);
    p.family_opts("drawn-synthetic", (40, 1_000), 5, (world(2..=9, 2..=7), set(2, Just(100u64).boxed(), 30)), drawn_synthetic::<40, 2, 5, true>);
    fresh(&mut p);
    p.finish()
}
