//! C12: rollouts report the true result of a finished game.
use die_e::mcts::node::Node;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use std::collections::{BTreeMap, HashMap};
use vh::bg::*;
use vh::runner::with_entropy;
use vh::search::Ref;
use vh::stats::*;
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

fn roll<T: Ref>(g: &T, player: i8, limit: usize) -> Res<f32> {
    let node = sut("Node::new", || Node::new(*g, 0, None, None, 0.0))?;
    let v = sut("simulate", || node.simulate(player, limit))?;
    ensure!(v == 1.0 || v == -1.0 || v == 0.0, "range", "a rollout of {} returns {}", g.show(), v);
    ensure!(node.state.same_state(g), "state-changed", "the rolled out position changed: {}", g.show());
    Ok(v)
}

/// Results (from player -1's ... sign of the winner) reachable with their probability, by number of moves played.
fn ttt_dist(p: &TPos, pr: f64, depth: usize, d: &mut BTreeMap<(usize, i8), f64>) {
    if let Some(w) = p.outcome() {
        *d.entry((depth, w)).or_insert(0.0) += pr;
        return;
    }
    let e = p.empty_cells();
    for m in &e {
        ttt_dist(&p.play(*m), pr / e.len() as f64, depth + 1, d);
    }
}

/// Probabilities of the answers (-1, 0, 1) with the result of a game ending on the very last round
/// either reported or not.
fn answers(d: &BTreeMap<(usize, i8), f64>, player: i8, limit: usize, last_counts: bool) -> [f64; 3] {
    let mut a = [0.0; 3];
    for ((depth, w), p) in d {
        let known = *depth < limit || (last_counts && *depth == limit && limit > 0);
        let v = if known { w * player } else { 0 };
        a[(v + 1) as usize] += p;
    }
    a
}

fn compare(counts: &[u64; 3], probs: &[[f64; 3]; 2]) -> (bool, f64) {
    let n: u64 = counts.iter().sum();
    let mut best = f64::INFINITY;
    let mut possible = false;
    for pr in probs {
        if (0..3).any(|i| counts[i] > 0 && pr[i] < 1e-12) {
            continue;
        }
        possible = true;
        let z = (0..3).filter(|i| pr[*i] > 1e-12 && pr[*i] < 1.0 - 1e-12).map(|i| {
            let e = pr[i].min(1.0 - pr[i]) * n as f64;
            if e < 8.0 { 0.0 } else { prop_z(counts[i], n, pr[i]).abs() }
        }).fold(0.0, f64::max);
        best = best.min(z);
    }
    (possible, best)
}

fn tictactoe(c: &(bool, Vec<u8>, bool, usize, u16), o: &mut Obs) -> Res {
    let (first, picks, asker, limit, reps) = c;
    let h = TPos::run(if *first { 1 } else { -1 }, picks);
    let p = match h.last() {
        Some(p) => *p,
        None => return Ok(()),
    };
    let player = if *asker { 1 } else { -1 };
    let g = glue::tgame(&p);
    let mut d = BTreeMap::new();
    ttt_dist(&p, 1.0, 0, &mut d);
    let probs = [answers(&d, player, *limit, false), answers(&d, player, *limit, true)];
    let mut counts = [0u64; 3];
    let reps = 30 + (*reps as usize % 8) * 60;
    for _ in 0..reps {
        let v = roll(&g, player, *limit)?;
        counts[(v as i8 + 1) as usize] += 1;
        o.eval();
    }
    let (possible, z) = compare(&counts, &probs);
    ensure!(possible, "impossible-result", "rollouts of {:?} for {} with limit {}: {:?} of (lost, drawn/cut, won), probabilities {:?}", p, player, limit, counts, probs[0]);
    ensure!(z < FAR, "distribution", "rollouts of {:?} for {} with limit {}: {:?}, probabilities {:?}, score {:.1}", p, player, limit, counts, probs[0], z);
    o.class_if(probs[0].iter().any(|x| *x > 1.0 - 1e-12), "every continuation has the same answer");
    o.class_if(*limit <= p.empty_cells().len(), "limit may be used up");
    o.class_if(p.outcome().is_some(), "finished");
    if p.outcome().is_none() {
        o.nontrivial((p, player, *limit));
    }
    o.sample(|| format!("{:?} for {} limit {}: {:?}", p, player, limit, counts));
    Ok(())
}

/// Probability that `who` wins a race when both sides pick uniformly among the different plays.
fn race_prob(p: &Pos, who: i8, memo: &mut HashMap<Pos, f64>) -> f64 {
    if let Some(w) = winner(&p.board) {
        return (w == who) as i32 as f64;
    }
    if let Some(x) = memo.get(p) {
        return *x;
    }
    let rs = p.results();
    let next = |b: RawBoard, memo: &mut HashMap<Pos, f64>| -> f64 {
        if p.roll.0 == p.roll.1 && !p.second {
            return race_prob(&p.after_play(b, p.roll), who, memo);
        }
        if winner(&b).is_some() {
            return (winner(&b) == Some(who)) as i32 as f64;
        }
        let mut s = 0.0;
        for x in 1..=6u8 {
            for y in x..=6u8 {
                let w = if x == y { 1.0 } else { 2.0 };
                s += w / 36.0 * race_prob(&p.after_play(b, (x, y)), who, memo);
            }
        }
        s
    };
    let v = if rs.is_empty() {
        // a race has no passes
        next(p.board, memo)
    } else {
        rs.keys().map(|b| next(*b, memo)).sum::<f64>() / rs.len() as f64
    };
    memo.insert(*p, v);
    v
}

/// Endings of a few checkers each: exact win probabilities.
fn race(c: &(Vec<u8>, Vec<u8>, i8, (u8, u8), bool, bool), o: &mut Obs) -> Res {
    let (a, b, player, dice, second, asker) = c;
    let fill = |v: &Vec<u8>| {
        let mut v = v.clone();
        v.resize(15, 0);
        v
    };
    let p = Pos { board: gen::compose(&fill(a), &fill(b), *player), player: *player, roll: *dice, second: *second && dice.0 == dice.1 };
    let who = if *asker { 1 } else { -1 };
    let w = race_prob(&p, who, &mut HashMap::new());
    let g = glue::bgame(&p);
    let n = 400;
    let mut k = 0;
    for _ in 0..n {
        let v = roll(&g, who, 400)?;
        ensure!(v != 0.0, "no-result", "a rollout of the race {:?} returns 0", p);
        k += (v == 1.0) as u64;
        o.eval();
    }
    if w < 1e-12 || w > 1.0 - 1e-12 {
        ensure!(k == if w > 0.5 { n } else { 0 }, "decided", "{} is certain to {} {:?}, but wins {} of {} rollouts", who, if w > 0.5 { "win" } else { "lose" }, p, k, n);
        o.class("decided");
    } else {
        let e = w.min(1.0 - w) * n as f64;
        let z = prop_z(k, n, w).abs();
        ensure!(e < 4.0 || z < FAR, "distribution", "{} wins {} of {} rollouts of {:?}, expected share {:.4}, score {:.1}", who, k, n, p, w, z);
        o.class("open");
    }
    o.nontrivial((p, who));
    o.sample(|| format!("{:?}: {} wins {} of {}, exactly {:.3}", p, who, k, n, w));
    Ok(())
}

/// Asking for the other player negates the answer, randomness being equal.
fn negation(c: &(Pos, u64, usize), o: &mut Obs) -> Res {
    let (p, seed, limit) = c;
    let g = glue::bgame(p);
    let a = with_entropy(*seed, || roll(&g, 1, *limit))?;
    let b = with_entropy(*seed, || roll(&g, -1, *limit))?;
    ensure!(a == -b, "negation", "with equal randomness a rollout of {:?} returns {} for 1 and {} for -1", p, a, b);
    if let Some(w) = winner(&p.board) {
        if *limit > 0 {
            ensure!(a == w as f32, "decided", "{:?} is won by {}, a rollout for 1 returns {}", p, w, a);
        }
    }
    o.class(if a == 0.0 { "cut" } else { "finished" });
    if a != 0.0 {
        o.nontrivial((p, *seed));
    }
    o.sample(|| format!("{:?} limit {}: {} / {}", p, limit, a, b));
    Ok(())
}

fn ref_roll(p: &Pos, player: i8, limit: usize, rng: &mut impl Rng) -> (i8, i8) {
    // (answer when a win on the last round is not seen, answer when it is)
    let mut p = *p;
    for k in 0..=limit {
        if let Some(w) = winner(&p.board) {
            let v = w * player;
            return (if k < limit { v } else { 0 }, if limit > 0 { v } else { 0 });
        }
        let dice = (rng.gen_range(1..=6), rng.gen_range(1..=6));
        let rs: Vec<RawBoard> = p.results().into_keys().collect();
        p = match rs.choose(rng) {
            Some(b) => p.after_play(*b, dice),
            None => p.after_pass(dice),
        };
    }
    (0, 0)
}

/// Whole games from contact positions: same shares as reference rollouts.
fn shares(c: &(Pos, u64, usize, bool), o: &mut Obs) -> Res {
    compare_shares(c, 150, o)
}

fn compare_shares(c: &(Pos, u64, usize, bool), n: u64, o: &mut Obs) -> Res {
    let (p, seed, limit, asker) = c;
    let player = if *asker { 1 } else { -1 };
    let g = glue::bgame(p);
    let mut rng = rand::rngs::StdRng::seed_from_u64(*seed);
    let (mut a, mut r0, mut r1) = ([0u64; 3], [0u64; 3], [0u64; 3]);
    for _ in 0..n {
        let v = roll(&g, player, *limit)?;
        a[(v as i8 + 1) as usize] += 1;
        let (x, y) = ref_roll(p, player, *limit, &mut rng);
        r0[(x + 1) as usize] += 1;
        r1[(y + 1) as usize] += 1;
        o.eval();
    }
    let z = |r: &[u64; 3]| {
        (0..3).map(|i| {
            let q = (a[i] + r[i]) as f64 / (2 * n) as f64;
            if q * (2 * n) as f64 >= 5.0 && q < 1.0 {
                (a[i] as f64 - r[i] as f64).abs() / (2.0 * n as f64 * q * (1.0 - q)).sqrt()
            } else { 0.0 }
        }).fold(0.0, f64::max)
    };
    let s = z(&r0).min(z(&r1));
    ensure!(s < FAR, "distribution", "{} rollouts of {:?} for {} with limit {}: {:?} of (lost, cut, won), reference {:?}, score {:.1}", n, p, player, limit, a, r0, s);
    o.class_if(a[1] == 0, "all finished");
    o.class_if(a[1] == n, "all cut");
    o.class_if(a[1] > 0 && a[1] < n, "some finished");
    if a[1] < n {
        o.nontrivial((p, *limit));
    }
    o.sample(|| format!("{:?} for {} limit {}: {:?} / {:?}", p, player, limit, a, r0));
    Ok(())
}

/// Length of a reference game, counted in plays and passes, at most 300.
fn ref_len(p: &Pos, rng: &mut impl Rng) -> (usize, usize) {
    let (mut p, mut passes) = (*p, 0);
    for k in 0..300 {
        if winner(&p.board).is_some() {
            return (k, passes);
        }
        let dice = (rng.gen_range(1..=6), rng.gen_range(1..=6));
        let rs: Vec<RawBoard> = p.results().into_keys().collect();
        p = match rs.choose(rng) {
            Some(b) => p.after_play(*b, dice),
            None => {
                passes += 1;
                p.after_pass(dice)
            }
        };
    }
    (300, passes)
}

/// One side shut out by the other, which is about to bear off: turns are passed again and again.
/// The limit is set at a quantile of the length of reference games, so that it cuts a part of them.
fn passes(c: &(Pos, u64, u8, bool), o: &mut Obs) -> Res {
    let (p, seed, q, asker) = c;
    let mut rng = rand::rngs::StdRng::seed_from_u64(*seed ^ 0x5eed);
    let mut lens: Vec<(usize, usize)> = (0..31).map(|_| ref_len(p, &mut rng)).collect();
    lens.sort();
    let limit = lens[8 + *q as usize % 15].0.max(1);
    o.class_if(lens.iter().map(|l| l.1).sum::<usize>() >= 31 * 3, "three or more passes a game");
    compare_shares(&(*p, *seed, limit, *asker), 800, o)
}

fn shut_out() -> BoxedStrategy<Pos> {
    // distances of the side bearing off (two on each of the six points, the rest off) and of the side on the bar
    (vec(prop_oneof![2 => Just(0u8), 1 => 1u8..=6], 3), vec(0u8..=25, 0..14), 1usize..=3, prop_oneof![Just(-1i8), Just(1i8)], prop_oneof![Just(-1i8), Just(1i8)], gen::dice(), any::<bool>())
        .prop_map(|(rest, mut other, bar, first, player, roll, second)| {
            let mut wall: Vec<u8> = (1..=6).flat_map(|d| [d, d]).collect();
            wall.extend(rest);
            for d in other.iter_mut() {
                *d = if *d > 12 { 0 } else { *d / 2 };
            }
            other.extend(std::iter::repeat_n(25, bar));
            other.truncate(15);
            other.rotate_right(bar);
            other.resize(15, 0);
            Pos { board: gen::compose(&wall, &other, first), player, roll, second: second && roll.0 == roll.1 }
        })
        .boxed()
}

/// Limits that are never reached.
fn large() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![Just(255usize), Just(256), Just(65_535), Just(65_536), Just(1 << 31), Just(1 << 32), Just((1 << 32) + 1), Just(1 << 40), Just(usize::MAX / 2), Just(usize::MAX - 1), Just(usize::MAX)]
}

fn syn_dist<const A: i64, const C: i64, const W: i64, const D: bool>(g: &Syn<A, C, W, D>, pr: f64, depth: usize, d: &mut BTreeMap<(usize, i8), f64>) {
    if let Some(w) = g.outcome() {
        *d.entry((depth, w)).or_insert(0.0) += pr;
        return;
    }
    let st = g.steps();
    if st.is_empty() {
        return syn_dist(&g.passed(), pr, depth + 1, d);
    }
    for m in &st {
        syn_dist(&g.after(*m), pr / st.len() as f64, depth + 1, d);
    }
}

/// Made-up games with passes, repeated turns and draws: exact chances of every answer.
fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<u8>, bool, usize), o: &mut Obs) -> Res {
    syn_rolls::<A, C, W, D>(c, 150, o)
}

/// Positions with more plays than any list of fixed size holds: none of them is left out.
fn many_plays(c: &(World, bool), o: &mut Obs) -> Res {
    let g = Syn::<2000, 1, 8, false>::nth(c.0, 0);
    o.class(format!("{}+ plays", g.steps().len() / 64 * 64));
    syn_rolls::<2000, 1, 8, false>(&(c.0, vec![], c.1, 100), 3000, o)
}

/// Games of hundreds or thousands of rounds along a single line, cut or not.
fn long_line(c: &(World, u8, u16, bool), o: &mut Obs) -> Res {
    let (w, kind, x, asker) = c;
    w.set();
    let (mut g, mut len) = (Syn::<6, 1, 6, true>::nth(*w, 0), 0usize);
    while g.outcome().is_none() {
        g = match g.steps().first() {
            Some(m) => g.after(*m),
            None => g.passed(),
        };
        len += 1;
    }
    let limit = match kind % 4 {
        0 => len + 1 + *x as usize % 3,
        1 => len - (1 + *x as usize % 3).min(len),
        2 => (*x as usize % len).max(1),
        _ => 100_000,
    };
    o.class(format!("{}+ rounds", len / 256 * 256));
    o.class(if limit > len { "finished" } else { "cut" });
    syn_rolls::<6, 1, 6, true>(&(*w, vec![], *asker, limit), 2, o)
}

fn syn_rolls<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<u8>, bool, usize), n: usize, o: &mut Obs) -> Res {
    let (w, picks, asker, limit) = c;
    w.set();
    let g = *Syn::<A, C, W, D>::run(*w, 0, picks).last().unwrap();
    let player = if *asker { 1 } else { -1 };
    let mut d = BTreeMap::new();
    syn_dist(&g, 1.0, 0, &mut d);
    let probs = [answers(&d, player, *limit, false), answers(&d, player, *limit, true)];
    let mut counts = [0u64; 3];
    for _ in 0..n {
        let v = roll(&g, player, *limit)?;
        counts[(v as i8 + 1) as usize] += 1;
        o.eval();
    }
    let (possible, z) = compare(&counts, &probs);
    ensure!(possible, "impossible-result", "rollouts of {:?} for {} with limit {}: {:?} of (lost, drawn/cut, won), probabilities {:?}", g, player, limit, counts, probs[0]);
    ensure!(z < FAR, "distribution", "rollouts of {:?} for {} with limit {}: {:?}, probabilities {:?}, score {:.1}", g, player, limit, counts, probs[0], z);
    let lens: Vec<usize> = d.keys().map(|k| k.0).collect();
    o.class_if(lens.iter().any(|l| l >= limit), "limit may be used up");
    o.class_if(lens.iter().any(|l| *l > w.depth as usize - g.depth as usize), "passes on the way");
    o.class_if(g.outcome().is_none() && g.steps().is_empty(), "begins with a pass");
    if g.outcome().is_none() {
        o.nontrivial((g, player, *limit));
    }
    o.sample(|| format!("{:?} for {} limit {}: {:?}, expected {:?}", g, player, limit, counts, probs[0]));
    Ok(())
}

/// The rollouts of two runs of the program are not the same.
fn two_runs(c: &(u64, u64), o: &mut Obs) -> Res {
    if c.0 == c.1 {
        return Ok(());
    }
    let run = |seed: u64| -> Res<Vec<i8>> { with_entropy(seed, || (0..80).map(|_| roll(&glue::bgame(&Pos { board: START, player: -1, roll: (3, 1), second: false }), -1, 4000).map(|v| v as i8)).collect()) };
    let (a, b) = (run(c.0)?, run(c.1)?);
    ensure!(a[..40] != b[..40] && a[40..] != b[40..] && a[..40] != a[40..], "same-rollouts", "with different entropy the rollouts from the start end alike: {:?} and {:?}", a, b);
    o.class("two runs compared");
    o.nontrivial(c);
    o.sample(|| format!("{:?} / {:?}", &a[..8], &b[..8]));
    Ok(())
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let lim = prop_oneof![4 => 0usize..14, 4 => Just(100usize), 1 => large()];
    p.family_opts(&format!("rollouts {}", name), times((500, 12_000), k), 60, (world(1..=6, 1..=4.min(branch)), vec(any::<u8>(), 0..4), any::<bool>(), lim), synthetic::<A, C, W, D>);
}

/// Also for C33.
pub fn fresh(p: &mut Prop) {
    p.family_opts("rollouts of two runs", (12, 300), 3, (any::<u64>(), any::<u64>()), two_runs);
}

fn main() {
    let mut p = Prop::new("C12", "distinct unfinished positions (with asking player and limit) from which rollouts finish")
        .assume("whether a game ending exactly on the last allowed round is still reported is left open; shares are judged at a score of 7");
    p.family("tictactoe", (10_000, 200_000), (any::<bool>(), vec(any::<u8>(), 0..9), any::<bool>(), prop_oneof![6 => 9usize..40, 4 => 0usize..10, 1 => large()], any::<u16>()), tictactoe);
    let dist = || vec(1u8..=6, 1..=2);
    let race_s = (dist(), dist(), prop_oneof![Just(-1i8), Just(1i8)], gen::dice(), any::<bool>(), any::<bool>());
    p.family_opts("race", (1500, 20_000), 40, race_s, race);
    p.family("negation", (8000, 150_000), (gen::position(), any::<u64>(), prop_oneof![0usize..4, 1usize..100, Just(400)]), negation);
    p.family_opts("shares", (300, 6_000), 20, (gen::position(), any::<u64>(), prop_oneof![6 => 1usize..120, 4 => Just(600), 1 => large()], any::<bool>()), shares);
    p.family_opts("passes", (96, 2_000), 20, (shut_out(), any::<u64>(), any::<u8>(), any::<bool>()), passes);
    let lim = || prop_oneof![4 => 0usize..14, 4 => Just(100usize), 1 => large()];
    p.family_opts("synthetic", (1500, 40_000), 60, (world(1..=6, 1..=4), vec(any::<u8>(), 0..4), any::<bool>(), lim()), synthetic::<9, 3, 9, false>);
    p.family_opts("synthetic-dice", (1500, 40_000), 60, (world(1..=6, 1..=4), vec(any::<u8>(), 0..4), any::<bool>(), lim()), synthetic::<40, 2, 5, true>);
    let wide = (any::<u16>(), 1u8..=2, 90u8..=255, prop_oneof![Just(0u8), 1u8..200]).prop_map(|(seed, depth, branch, draw)| World { seed, depth, branch, pass: 0, stay: 30, end: 0, draw });
    p.family_opts("many-plays", (60, 2_000), 30, (wide, any::<bool>()), many_plays);
    let line = (any::<u16>(), 50u8..=255, prop_oneof![1 => Just(0u8), 3 => 1u8..230], 0u8..160, prop_oneof![Just(0u8), 1u8..200]).prop_map(|(seed, depth, pass, stay, draw)| World { seed, depth, branch: 1, pass, stay, end: 0, draw });
    p.family_opts("long-lines", (600, 20_000), 60, (line, any::<u8>(), any::<u16>(), any::<bool>()), long_line);
    fresh(&mut p);
    p.finish()
}
