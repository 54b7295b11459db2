//! C23: stored training data reads back unchanged.
use die_e::alphazero::alphazero::AlphaZero;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::OnceCell;
use vh::bg::*;
use vh::glue::{learner, Az, Mc};
use vh::samples::*;
use vh::synth::{times, sample, Syn};
use vh::ttt::TPos;
use vh::{ensure, fail, sut, Obs, Prop, Res};

thread_local! {
    static AZ: OnceCell<AlphaZero> = const { OnceCell::new() };
}

/// The learner only lends its method; which network it holds does not matter.
fn save(data: &[die_e::alphazero::alphazero::MemoryFragment], path: &std::path::Path) -> Res {
    AZ.with(|a| sut("save_training_data", || a.get_or_init(|| learner::<die_e::tictactoe::TicTacToe>(&Mc::default(), &Az::default())).save_training_data(data, path)))
}

fn check<P: Posn>(what: &str, want: &[Samp<P>], path: &std::path::Path) -> Res {
    let got = sut("load_training_data", || AlphaZero::load_training_data(path))?;
    ensure!(got.len() == want.len(), "count", "{}: {} samples written, {} read", what, want.len(), got.len());
    for (i, (g, w)) in got.iter().zip(fragments(want)).enumerate() {
        if let Some(d) = same_sample::<P::G>(&w, g) {
            return fail("sample", format!("{}: sample {} of {}: {}", what, i, want.len(), d));
        }
    }
    Ok(())
}

/// Now and then a target without any weight (nothing says that what is stored has to be a distribution).
fn blank<P: Posn>(s: impl Strategy<Value = Samp<P>> + Clone + 'static) -> BoxedStrategy<Samp<P>> {
    (s, prop::bool::weighted(0.05))
        .prop_map(|(mut s, none)| {
            if none {
                s.policy.clear()
            }
            s
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op<P> {
    Write(u8, Vec<Samp<P>>),
    Read(u8),
    /// what is in one directory, read and written to another together with what is there
    Copy(u8, u8, bool),
}

/// A few directories written, overwritten and read in any order.
fn history<P: Posn>(ops: &[Op<P>], o: &mut Obs) -> Res {
    let dir = Dir::new();
    let mut model: std::collections::BTreeMap<u8, Vec<Samp<P>>> = Default::default();
    let place = |i: u8| dir.join(["sp-0", "sp-1", "lrn 2/sp-0"][i as usize % 3]);
    let mut reads = 0;
    for op in ops {
        match op {
            Op::Copy(i, j, both) => {
                let (Some(a), b) = (model.get(&(i % 3)).cloned(), model.get(&(j % 3)).cloned().filter(|_| *both).unwrap_or_default()) else { continue };
                if a.len() + b.len() > 400 {
                    continue;
                }
                let mut mem = sut("load_training_data", || AlphaZero::load_training_data(&place(*i)))?;
                if !b.is_empty() {
                    mem.extend(sut("load_training_data", || AlphaZero::load_training_data(&place(*j)))?);
                }
                std::fs::create_dir_all(place(*j)).unwrap();
                save(&mem, &place(*j))?;
                o.class("read samples written again");
                model.insert(j % 3, [a, b].concat());
            }
            Op::Write(i, s) => {
                std::fs::create_dir_all(place(*i)).unwrap();
                let mem = fragments(s);
                save(&mem, &place(*i))?;
                for (a, b) in mem.iter().zip(fragments(s)) {
                    ensure!(same_sample::<P::G>(a, &b).is_none() && a.state.size() == b.state.size(), "data-changed", "saving changed the samples");
                }
                o.class_if(model.contains_key(&(i % 3)), "overwritten");
                model.insert(i % 3, s.clone());
                o.class_if(s.len() == 1, "a single sample");
                o.class_if(s.len() > 20, "many samples");
                o.class_if(s.iter().any(|x| x.outcome < 0), "losses");
            }
            Op::Read(i) => {
                if let Some(s) = model.get(&(i % 3)) {
                    reads += 1;
                    check("in between", s, &place(*i))?;
                    o.eval();
                } else {
                    let r = sut("load_training_data", || AlphaZero::load_training_data(&place(*i)));
                    ensure!(r.as_ref().map_or(true, |v| v.is_empty()), "missing", "{} samples read from a directory that was never written", r.map(|v| v.len()).unwrap_or(0));
                    o.class("missing directory refused");
                }
            }
        }
    }
    for (i, s) in &model {
        check("at the end", s, &place(*i))?;
        o.eval();
    }
    if model.values().any(|s| s.len() > 1) {
        o.nontrivial(model.values().cloned().collect::<Vec<_>>());
    }
    o.sample(|| format!("{} directories of {:?} samples, {} reads in between", model.len(), model.values().map(|s| s.len()).collect::<Vec<_>>(), reads));
    Ok(())
}

/// Many samples in one directory, expanded from a seed; the ones drawn come first, last and in between.
fn large<P: Posn>(c: &(Vec<Samp<P>>, usize, u64), o: &mut Obs) -> Res {
    let (some, n, seed) = c;
    let mut x = *seed | 1;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let all: Vec<Samp<P>> = (0..*n)
        .map(|i| {
            let mut s = some[if i < some.len() { i } else { next() as usize % some.len() }].clone();
            if i >= some.len() {
                s.policy.push((next() as u16, next() as u8));
                s.outcome = (next() % 3) as i8 - 1;
            }
            s
        })
        .collect();
    let dir = Dir::new();
    save(&fragments(&all), dir.path())?;
    check("many samples", &all, dir.path())?;
    o.eval();
    o.class(match n {
        0..=1023 => "below 1024 samples",
        1024..=4096 => "1024 to 4096 samples",
        _ => "more than 4096 samples",
    });
    o.nontrivial((n, seed));
    o.sample(|| format!("{} samples from {} drawn", n, some.len()));
    Ok(())
}

fn op<P: Posn>(s: impl Strategy<Value = Samp<P>> + 'static, max: usize) -> impl Strategy<Value = Op<P>> {
    let n = prop_oneof![3 => 1usize..4, 3 => 1usize..max, 1 => Just(1usize), 1 => 250usize..300];
    let s = s.boxed();
    prop_oneof![
        3 => (any::<u8>(), n.prop_flat_map(move |n| vec(s.clone(), n))).prop_map(|(i, v)| Op::Write(i, v)),
        1 => any::<u8>().prop_map(Op::Read),
        1 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, b)| Op::Copy(i, j, b))
    ]
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    p.family(&format!("stored samples {}", name), times((150, 5_000), k), vec(op(blank(sample::<A, C, W, D>()), 40), 1..5), |c, o| history::<Syn<A, C, W, D>>(c, o));
}

fn main() {
    let mut p = Prop::new("C23", "distinct contents of the directories with more than one sample");
    p.family("tictactoe", (3000, 60_000), vec(op(blank(tsamp()), 60), 1..6), |c, o| history::<TPos>(c, o));
    p.family("backgammon", (1200, 20_000), vec(op(blank(bsamp()), 30), 1..4), |c, o| history::<Pos>(c, o));
    let count = |max: usize| prop_oneof![3 => 300usize..max, 1 => (8u32..14, -1i64..=1).prop_map(move |(k, d)| ((1i64 << k) + d).min(max as i64) as usize)];
    p.family_opts("tictactoe-large", (32, 600), 20, (vec(blank(tsamp()), 1..20), count(12_000), any::<u64>()), |c, o| large::<TPos>(c, o));
    p.family_opts("backgammon-large", (8, 100), 10, (vec(blank(bsamp()), 1..20), count(3_000), any::<u64>()), |c, o| large::<Pos>(c, o));
    // position tensors of fractions, and of one channel
    p.family("synthetic", (1500, 30_000), vec(op(blank(sample::<9, 1, 8, false>()), 40), 1..5), |c, o| history::<Syn<9, 1, 8, false>>(c, o));
    p.family("synthetic-large", (300, 6_000), vec(op(sample::<2000, 4, 6, true>(), 20), 1..4), |c, o| history::<Syn<2000, 4, 6, true>>(c, o));
    p.finish()
}
