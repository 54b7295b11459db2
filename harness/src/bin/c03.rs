//! C03: turn order and dice protocol.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use proptest::collection::vec;
use proptest::prelude::*;
use vh::bg::*;
use vh::gen::Choice;
use vh::runner::with_entropy;
use vh::stats::*;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

fn die_ok(d: (u8, u8)) -> bool {
    (1..=6).contains(&d.0) && (1..=6).contains(&d.1)
}

fn transition(p: &Pos, after: &Backgammon, what: &str, played: bool) -> Res {
    let keeps = played && p.roll.0 == p.roll.1 && !p.second;
    if keeps {
        ensure!(after.player == p.player && after.get_player() == p.player && after.roll == p.roll && after.is_second_play, "double",
            "after the first play of a double the same player plays again with the same dice; {:?} {} gives player {} roll {:?} second {}", p, what, after.player, after.roll, after.is_second_play);
    } else {
        ensure!(after.player == -p.player && after.get_player() == -p.player, "turn", "{:?} {}: player {} is on turn", p, what, after.player);
        ensure!(!after.is_second_play, "second-play", "{:?} {}: a second play is pending", p, what);
        ensure!(die_ok(after.roll), "dice-range", "{:?} {}: dice {:?}", p, what, after.roll);
    }
    Ok(())
}

fn steps(c: &(Pos, Vec<Choice>), o: &mut Obs) -> Res {
    let (start, choices) = c;
    let mut g = glue::bgame(start);
    let (mut doubles, mut passes) = (0, 0);
    for ch in choices {
        let p = glue::pos_of(&g);
        if winner(&p.board).is_some() {
            break;
        }
        o.eval();
        // a pass can come at any time, also between the two plays of a double
        let play = if ch.pick % 16 == 3 { None } else { gen::select(&p, ch, gen::Taste::Any) };
        match play {
            Some((play, _)) => {
                sut("apply_move", || g.apply_move(&play))?;
                transition(&p, &g, &format!("playing {:?}", play), true)?;
                doubles += (p.roll.0 == p.roll.1) as u32;
            }
            None => {
                sut("skip_turn", || g.skip_turn())?;
                transition(&p, &g, "passing", false)?;
                passes += 1;
            }
        }
        // sometimes go on with generated dice instead of the thrown ones
        if ch.pick % 3 == 0 && !g.is_second_play {
            g.roll = ch.dice;
        }
    }
    o.class_if(doubles > 0, "with doubles");
    o.class_if(passes > 0, "with passes");
    if doubles + passes > 0 {
        o.nontrivial((start, choices.len(), g.board));
    }
    o.sample(|| format!("from {:?}: {} steps, {} plays of doubles, {} passes", start, choices.len(), doubles, passes));
    Ok(())
}

/// Every throw after a play, a pass or a call of roll_die is fair and independent of what came before.
fn fairness(c: &(Pos, u8, u16), o: &mut Obs) -> Res {
    let (p, way, pick) = c;
    let way = way % 3;
    let n = 3000u64;
    let base = glue::bgame(p);
    let play = p.legal().into_iter().map(|x| x.0).collect::<Vec<_>>();
    let mut base = base;
    // the throw follows a play that ends the turn
    if way == 0 {
        if play.is_empty() {
            return Ok(());
        }
        if base.roll.0 == base.roll.1 {
            base.is_second_play = true;
        }
    }
    let mut pairs = [0u64; 36];
    let mut lag = vec![0u64; 36 * 36];
    let mut prev: Option<usize> = None;
    for _ in 0..n {
        let mut g = base;
        match way {
            0 => sut("apply_move", || g.apply_move(&play[*pick as usize % play.len()]))?,
            1 => sut("skip_turn", || g.skip_turn())?,
            _ => {
                let r = sut("roll_die", || g.roll_die())?;
                ensure!(r == g.roll, "roll-returned", "roll_die returned {:?} but the game shows {:?}", r, g.roll);
                ensure!(g.player == base.player && g.board == base.board && g.is_second_play == base.is_second_play, "roll-pure", "roll_die changed more than the dice: {:?}", g);
            }
        }
        ensure!(die_ok(g.roll), "dice-range", "dice {:?} from {:?}", g.roll, p);
        let k = (g.roll.0 as usize - 1) * 6 + g.roll.1 as usize - 1;
        pairs[k] += 1;
        if let Some(q) = prev {
            lag[q * 36 + k] += 1;
        }
        prev = Some(k);
    }
    let z = chi_uniform(&pairs);
    ensure!(z < FAR, "unfair-dice", "the 36 pairs are not equally frequent after {} from {:?}: score {:.1}, counts {:?}", ["a play", "a pass", "roll_die"][way as usize], p, z, pairs);
    let z = chi_uniform(&lag);
    ensure!(z < FAR + 1.0, "dependent-dice", "successive throws depend on each other from {:?}: score {:.1}", p, z);
    o.evals += n;
    o.class(["throws after a play", "throws after a pass", "throws by roll_die"][way as usize]);
    o.nontrivial((p, way));
    o.sample(|| format!("{} throws from {:?}, chi-square score {:.2}", n, p, z));
    Ok(())
}

/// Throws along one running game: independent of the previous throw, of the player and of the second-play flag.
fn stream(c: &(Pos, bool), o: &mut Obs) -> Res {
    let (p, second) = c;
    let n = 130_000usize;
    let mut g = glue::bgame(p);
    g.is_second_play = *second;
    let mut prev = (p.roll.0 as usize - 1) * 6 + p.roll.1 as usize - 1;
    let mut lag = vec![0u64; 36 * 36];
    let mut by_player = vec![0u64; 72];
    let mut lag2 = vec![0u64; 36 * 36];
    let mut prev2 = 0;
    for i in 0..n {
        sut("skip_turn", || g.skip_turn())?;
        ensure!(die_ok(g.roll), "dice-range", "dice {:?}", g.roll);
        let k = (g.roll.0 as usize - 1) * 6 + g.roll.1 as usize - 1;
        lag[prev * 36 + k] += 1;
        if i > 0 {
            lag2[prev2 * 36 + k] += 1;
        }
        by_player[if g.player == 1 { 36 } else { 0 } + k] += 1;
        prev2 = prev;
        prev = k;
    }
    ensure!(by_player.iter().all(|c| *c > 0), "missing-pair", "a pair never occurs in {} throws: {:?}", n, by_player);
    for (what, t) in [("previous", &lag), ("throw before the previous", &lag2)] {
        let z = chi_uniform(t);
        ensure!(z < FAR, "dependent-dice", "throws depend on the {} throw: score {:.1}", what, z);
    }
    for h in by_player.chunks(36) {
        let z = chi_uniform(h);
        ensure!(z < FAR, "unfair-dice", "the 36 pairs are not equally frequent for one player: score {:.1}, {:?}", z, h);
    }
    o.evals += n as u64;
    o.nontrivial((p, second));
    o.class("long stream");
    Ok(())
}

/// Two runs of the program do not throw the same dice.
fn two_runs(c: &(Pos, u8, u64, u64), o: &mut Obs) -> Res {
    let (p, way, s1, s2) = c;
    if s1 == s2 {
        return Ok(());
    }
    let throws = |seed: u64| -> Res<Vec<(u8, u8)>> {
        with_entropy(seed, || {
            let mut g = glue::bgame(p);
            let mut v = vec![];
            while v.len() < 40 {
                match way % 3 {
                    0 => sut("skip_turn", || g.skip_turn())?,
                    1 => {
                        sut("roll_die", || g.roll_die())?;
                    }
                    _ => {
                        let q = glue::pos_of(&g);
                        match q.legal().first() {
                            Some((m, _)) if winner(&q.board).is_none() => sut("apply_move", || g.apply_move(m))?,
                            _ => sut("skip_turn", || g.skip_turn())?,
                        }
                        g.board = p.board;
                        if g.is_second_play {
                            continue;
                        }
                    }
                }
                v.push(g.roll);
            }
            Ok(v)
        })
    };
    let (a, b) = (throws(*s1)?, throws(*s2)?);
    ensure!(a != b, "same-throws", "two runs with different entropy throw the same dice from {:?}: {:?}", p, &a[..10]);
    ensure!(a[20..] != b[20..] && a[..20] != b[..20] && a[..20] != a[20..], "same-throws", "the throws of two runs with different entropy coincide or repeat from {:?}: {:?} and {:?}", p, a, b);
    o.class("two runs compared");
    o.nontrivial((p, way % 3, s1));
    o.sample(|| format!("{:?}: {:?} / {:?}", p, &a[..5], &b[..5]));
    Ok(())
}

/// Also for C33.
pub fn fresh(p: &mut Prop) {
    p.family("throws of two runs", (400, 20_000), (gen::open_position(), any::<u8>(), any::<u64>(), any::<u64>()), two_runs);
}

fn main() {
    let mut p = Prop::new("C03", "histories containing a double or a pass; distinct positions whose throws were tested for fairness")
        .assume("entropy comes from the deterministic stand-in for getrandom; fairness is a chi-square test at a score of 7 (p < 1e-11)");
    p.family("turns", (8_000, 600_000), (gen::open_position(), vec(gen::choice(), 1..40)), steps);
    p.family_opts("fairness", (1_200, 60_000), 60, (gen::open_position(), any::<u8>(), any::<u16>()), fairness);
    p.family_opts("stream", (16, 400), 4, (gen::open_position(), any::<bool>()), stream);
    fresh(&mut p);
    p.finish()
}
