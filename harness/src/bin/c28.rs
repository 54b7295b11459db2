//! C28: a learning run stores all its data and models.
use die_e::alphazero::alphazero::AlphaZero;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use tch::Tensor;
use vh::child;
use vh::glue::{Az, Mc};
use vh::optim::*;
use vh::samples::{same_sample, Dir};
use vh::selfplay::*;
use vh::synth::{times, world, Syn, World};
use vh::{ensure, fail, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Entry {
    Parallel,
    Sequential,
    /// the command-line program
    Program,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Run {
    mc: Mc,
    az: Az,
    entry: Entry,
    /// start from the model that is there (the best model, if any) instead of a given one
    resume: bool,
    policy: f64,
    value: f64,
    seed: u64,
}

#[derive(Serialize, Deserialize)]
pub struct Job {
    game: String,
    synthetic: Option<World>,
    run: Run,
    start: Option<PathBuf>,
}

fn learn<T: LearnableGame>(j: &Job) {
    let cfg = glue::full_config(&j.run.mc, &j.run.az);
    let mut az = AlphaZero::from_config::<T>(j.start.clone(), &cfg);
    az.model.vs.save("../initial.ot").unwrap();
    if j.run.entry == Entry::Sequential {
        az.learn::<T>();
    } else {
        az.learn_parallel::<T>();
    }
    az.model.vs.save("../final.ot").unwrap();
}

/// One channel, and more plays than the games supplied.
type NoDice = Syn<2000, 1, 8, false>;
type Dice = Syn<40, 2, 5, true>;

pub fn serves<T: LearnableGame>(j: &Job) -> bool {
    let it = T::name() == j.game;
    if it {
        if let Some(w) = j.synthetic {
            w.set();
        }
        learn::<T>(j);
    }
    it
}

fn servant(j: Job) {
    let done = serves::<Dice>(&j) || serves::<NoDice>(&j) || serves::<Backgammon>(&j) || serves::<TicTacToe>(&j);
    assert!(done, "unknown game");
}

type Kept = Rc<Vars>;

fn load<T: LearnableGame>(p: &Path) -> Res<Kept> {
    let mut net = glue::net::<T>();
    match net.vs.load(p) {
        Ok(_) => Ok(Rc::new(glue::snapshot(&net.vs))),
        Err(e) => fail("model-missing", format!("the model {} cannot be loaded: {}", p.display(), e.to_string().chars().take(200).collect::<String>())),
    }
}

fn dirs(p: &Path) -> Vec<String> {
    let mut v: Vec<String> = match std::fs::read_dir(p) {
        Ok(d) => d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect(),
        Err(_) => vec![],
    };
    v.sort();
    v
}

type Files = BTreeMap<String, Vec<u8>>;

fn data_files(d: &Dir) -> Files {
    d.files().into_iter().filter(|f| f.starts_with("w/data")).map(|f| (f.clone(), std::fs::read(d.join(&f)).unwrap())).collect()
}

/// Trains the reference on the stored samples and compares; then goes on from the stored model.
fn trained<T: Game>(m: &mut Model, shaken: &mut Model, batch: &[(Tensor, Vec<f32>, i8)], r: &Run, want: &Vars, what: &str, o: &mut Obs) -> Res {
    let (mut d, mut steps) = ((0.0, String::new()), 0);
    if !batch.is_empty() {
        for _ in 0..r.az.epochs {
            if batch.len() <= r.az.batch as usize {
                m.step(batch);
                shaken.step(batch);
            }
            steps += 1;
        }
    }
    let (a, b) = (glue::snapshot(&m.net.vs), glue::snapshot(&shaken.net.vs));
    if batch.len() <= r.az.batch as usize {
        if steps == 0 {
            if let Some(x) = glue::same_vars(&a, want) {
                return fail("trained", format!("{}: nothing to train on, but {}", what, x));
            }
        } else {
            d = distance(want, &a, r.az.lr, steps);
            if d.0 > TOL && distance(&a, &b, r.az.lr, steps).0 > TOL / 10.0 {
                o.class("ill-conditioned training, left out");
            } else {
                ensure!(d.0 <= TOL, "trained", "{}: the stored model is not the one before trained {} times on the {} stored samples of its iteration: {} is off by {:.4} learning rates", what, steps, batch.len(), d.1, d.0);
                o.class("training computed again");
            }
        }
    } else if r.az.lr > 0.0 && steps > 0 {
        ensure!(glue::same_vars(&a, want).is_some(), "not-trained", "{}: the stored model is the one before training", what);
    }
    if std::env::var("VERIF_CALIBRATE").is_ok() {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open("/tmp/cal28").unwrap();
        writeln!(f, "CAL {:.6} {} steps {} n {} {:?}", d.0, d.1, steps, batch.len(), r.az).unwrap();
    }
    let _g = tch::no_grad_guard();
    for vs in [&m.net.vs, &shaken.net.vs] {
        for (k, mut v) in vs.variables() {
            v.copy_(&want[&k]);
        }
    }
    drop(_g);
    shaken.shake();
    Ok(())
}

/// How unlikely it is (as -ln of the chance, a lower bound) that the same games are played again.
fn surprise(mem: &[die_e::alphazero::alphazero::MemoryFragment]) -> f64 {
    mem.iter().map(|m| -glue::vecf(&m.ps).iter().map(|p| (*p as f64).powi(2)).sum::<f64>().max(1e-9).ln()).sum()
}

fn history<T: Game>(runs: &[Run], w: Option<World>, o: &mut Obs) -> Res {
    let called = T::name();
    let name = match w {
        None if T::IS_DETERMINISTIC => "tictactoe",
        None => "backgammon",
        Some(w) => {
            w.set();
            called.as_str()
        }
    };
    let dir = Dir::new();
    let work = dir.join("w");
    std::fs::create_dir_all(&work).unwrap();
    let models = work.join("models").join(name);
    let data = work.join("data").join(name);
    let mut stored: BTreeMap<String, Kept> = BTreeMap::new(); // what must be in the models directory
    let mut old = Files::new();
    let mut total = 0;
    for (i, r) in runs.iter().enumerate() {
        let what = format!("run {}", i);
        let best = stored.get("best_model.ot").cloned();
        let resume = r.resume && (best.is_some() || r.entry != Entry::Program);
        let start = if resume {
            None
        } else {
            let net = glue::net::<T>();
            glue::sharpen::<T>(&net.vs, r.policy, r.value);
            let p = dir.join("start.ot");
            net.vs.save(&p).unwrap();
            Some(p)
        };
        let out = if r.entry == Entry::Program {
            std::fs::write(dir.join("conf"), glue::config_text(&r.mc, &r.az)).unwrap();
            let mut a: Vec<String> = ["--game", if T::IS_DETERMINISTIC { "tic-tac-toe" } else { "backgammon" }, "--config", "../conf", "--n-cpus", "1", "learn"].iter().map(|s| s.to_string()).collect();
            if let Some(p) = &start {
                a.push("--model-path".into());
                a.push(p.display().to_string());
            }
            child::run(&child::cli(), &a, &work, r.seed, "", 220)
        } else {
            child::call(&Job { game: T::name(), synthetic: w, run: *r, start: start.clone() }, &work, r.seed, 220)
        };
        ensure!(!out.timeout, "hang", "{}: learning does not come to an end", what);
        ensure!(out.ok(), "panic", "{}: learning fails: {}", what, out.tail());
        let initial = match (&start, &best) {
            (Some(p), _) => load::<T>(p)?,
            (None, Some(b)) => b.clone(),
            _ => load::<T>(&dir.join("initial.ot"))?,
        };
        if r.entry != Entry::Program {
            if let Some(d) = glue::same_vars(&initial, &*load::<T>(&dir.join("initial.ot"))?) {
                return fail("start", format!("{}: learning starts from another model: {}", what, d));
            }
        }
        // data: earlier runs untouched, one new directory of this run
        let now = data_files(&dir);
        for (k, v) in &old {
            ensure!(now.get(k) == Some(v), "old-data", "{}: the stored file {} of an earlier run was changed", what, k);
        }
        let fresh: Vec<&String> = now.keys().filter(|k| !old.contains_key(*k)).collect();
        let mut before = initial.clone();
        let mut reference = Model::new::<T>(&before, r.az.lr, r.az.wd);
        let mut shaken = Model::new::<T>(&before, r.az.lr, r.az.wd);
        shaken.shake();
        let mut candidates: Vec<Kept> = best.iter().cloned().collect();
        let lr_models = |stored: &mut BTreeMap<String, Kept>, l: u32| -> Res<Kept> {
            let f = format!("model_{}.ot", l);
            let v = load::<T>(&models.join(&f))?;
            stored.insert(f, v.clone());
            Ok(v)
        };
        if r.entry == Entry::Sequential {
            ensure!(fresh.is_empty(), "data", "{}: the sequential loop stored {:?}", what, fresh);
            for l in 0..r.az.learn {
                let v = lr_models(&mut stored, l)?;
                if r.az.epochs == 0 || r.az.selfplay == 0 {
                    ensure!(glue::same_vars(&v, &before).is_none(), "trained", "{}: trained on nothing, but model {} changed", what, l);
                } else if r.az.lr > 0.0 {
                    ensure!(glue::same_vars(&v, &before).is_some(), "not-trained", "{}: model {} is the one before training", what, l);
                }
                before = v;
            }
        } else {
            let run_dirs: std::collections::BTreeSet<PathBuf> = fresh.iter().map(|f| Path::new(f.as_str()).iter().take(4).collect()).collect();
            let expect = (r.az.learn * r.az.selfplay) as usize;
            ensure!(fresh.len() == 3 * expect, "files", "{}: {} learning and {} self-play iterations left the files {:?}", what, r.az.learn, r.az.selfplay, fresh);
            ensure!(run_dirs.len() == (expect > 0) as usize, "run-directory", "{}: the data lie in {:?}", what, run_dirs);
            for l in 0..r.az.learn {
                let mut batch = vec![];
                for s in 0..r.az.selfplay {
                    let p = dir.join(&run_dirs.iter().next().unwrap().display().to_string()).join(format!("lrn-{}/sp-{}", l, s));
                    ensure!(p.starts_with(&data) && p.is_dir(), "directory", "{}: there is no {}", what, p.display());
                    let mem = sut("load_training_data", || AlphaZero::load_training_data(&p))?;
                    let decs = decisions::<T>(&mem, o)?;
                    for m in &mem {
                        batch.push((m.state.shallow_clone(), glue::vecf(&m.ps), m.outcome));
                    }
                    total += mem.len();
                    let games = games::<T>(decs)?;
                    ensure!(games.len() == r.az.games as usize, "games", "{}: lrn-{}/sp-{} holds {} games, {} were played", what, l, s, games.len(), r.az.games);
                    for g in &games {
                        one_game::<T>(g, r.mc.limit as usize, o)?;
                    }
                    o.eval();
                }
                let v = lr_models(&mut stored, l)?;
                trained::<T>(&mut reference, &mut shaken, &batch, r, &v, &format!("{}, learning iteration {}", what, l), o)?;
                candidates.push(v.clone());
                before = v;
            }
        }
        if r.entry != Entry::Program {
            if let Some(d) = glue::same_vars(&before, &*load::<T>(&dir.join("final.ot"))?) {
                return fail("last-model", format!("{}: the last stored model is not the current one: {}", what, d));
            }
        }
        // the models directory
        if r.entry != Entry::Sequential && r.az.learn > 0 {
            let v = load::<T>(&models.join("best_model.ot"))?;
            if best.is_none() && r.az.learn == 1 {
                ensure!(glue::same_vars(&v, &candidates[0]).is_none(), "best", "{}: the first model did not become the best one", what);
            }
            ensure!(candidates.iter().any(|c| glue::same_vars(c, &v).is_none()), "best", "{}: the best model is neither the one before nor one of this run", what);
            stored.insert("best_model.ot".into(), v);
        }
        ensure!(dirs(&models) == stored.keys().cloned().collect::<Vec<_>>(), "models", "{}: the models are {:?} instead of {:?}", what, dirs(&models), stored.keys());
        for (k, v) in &stored {
            if let Some(d) = glue::same_vars(v, &*load::<T>(&models.join(k))?) {
                return fail("models", format!("{}: the stored {} was changed: {}", what, k, d));
            }
        }
        o.class(format!("{:?}", r.entry));
        o.class_if(best.is_some(), "with a best model");
        o.class_if(resume && best.is_some(), "resumed from the best model");
        o.class_if(r.az.games > 10 && r.az.selfplay > 1 && r.az.learn > 0, "many games in several self-play iterations");
        o.class_if(r.az.learn > 1, "several learning iterations");
        o.class_if(r.az.selfplay > 1, "several self-play iterations");
        o.class_if(i > 0, "later run");
        old = now;
    }
    // nothing stored twice: no two self-play directories hold the very same samples (unless that may be chance)
    let mut sets: Vec<(String, Vec<_>)> = vec![];
    for f in old.keys().filter(|f| f.ends_with("/ps.ot")) {
        let p = dir.join(Path::new(f).parent().unwrap().to_str().unwrap());
        let mem = sut("load_training_data", || AlphaZero::load_training_data(&p))?;
        for (g, other) in &sets {
            let equal = mem.len() == other.len() && surprise(&mem) > 60.0 && mem.iter().zip(other).all(|(a, b)| same_sample::<T>(a, b).is_none());
            ensure!(!equal, "stored-twice", "{} and {} hold the same {} samples", f, g, mem.len());
        }
        sets.push((f.clone(), mem));
    }
    if total > 0 {
        o.nontrivial(format!("{:?}", runs));
    }
    o.sample(|| format!("{} runs: {}; {} samples stored", runs.len(), runs.iter().map(|r| format!("{:?} {}x{} of {} games, {} epochs", r.entry, r.az.learn, r.az.selfplay, r.az.games, r.az.epochs)).collect::<Vec<_>>().join("; "), total));
    Ok(())
}

fn run(learn: u32, games: u32, limit: BoxedStrategy<u32>, iterations: u32) -> impl Strategy<Value = Run> {
    let az = (
        (prop_oneof![1 => 0.2f64..0.6, 2 => 0.6f64..2.0], 0u32..=learn, 0u32..4, 0u32..4),
        (prop_oneof![3 => Just(4096u32), 1 => 1u32..20], prop_oneof![3 => 1u32..=games, 1 => games..=4 * games], prop_oneof![Just(0.0f64), 1e-4f64..0.3], prop_oneof![1 => Just(0.0f64), 9 => 1e-4f64..1e-2]),
    )
        .prop_map(|((temperature, learn, selfplay, epochs), (batch, games, wd, lr))| Az { temperature, learn, selfplay, epochs, batch, games, wd, lr });
    let mc = (1u32..=iterations, 0.5f64..3.0, limit, prop_oneof![Just(0.0f64), 0.1f64..0.5]).prop_map(|(iterations, c, limit, eps)| Mc { iterations, c, limit: limit as u64, alpha: 0.3, eps });
    let entry = prop_oneof![3 => Just(Entry::Parallel), 1 => Just(Entry::Sequential), 2 => Just(Entry::Program)];
    (mc, az, entry, any::<bool>(), 0.3f64..6.0, 0.3f64..6.0, any::<u64>()).prop_map(|(mc, az, entry, resume, policy, value, seed)| Run { mc, az, entry, resume, policy, value, seed })
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let limit = prop_oneof![1 => 1u32..9, 2 => Just(400u32)].boxed();
    let own = |r: Run| Run { entry: if r.entry == Entry::Program { Entry::Parallel } else { r.entry }, ..r };
    p.family_opts(&format!("learning {}", name), times((10, 300), k), 6, (world(1..=6, 1..=branch), vec(run(2, 5, limit, 6), 1..3)), move |c: &(World, Vec<Run>), o| history::<Syn<A, C, W, D>>(&c.1.iter().map(|r| own(*r)).collect::<Vec<_>>(), Some(c.0), o));
}

fn main() {
    child::serve(servant);
    let mut p = Prop::new("C28", "distinct histories of runs that stored samples")
        .assume("a stored model is compared with the model before trained on the stored samples only where all samples fit into one batch, and where rounding does not decide");
    // (games up to four times as many in a quarter of the runs: self-play iterations of more than a hundred samples)
    let limit = prop_oneof![1 => 1u32..9, 2 => Just(400u32)].boxed();
    p.family_opts("tictactoe", (96, 2000), 12, vec(run(2, 5, limit, 6), 1..4), |c, o| history::<TicTacToe>(c, None, o));
    p.family_opts("backgammon", (4, 60), 1, run(1, 1, (1u32..6).boxed(), 1), |c: &Run, o| {
        let mut c = *c;
        c.az.selfplay = c.az.selfplay.clamp(1, 2);
        c.az.epochs = c.az.epochs.min(1);
        c.az.learn = 1;
        if c.entry == Entry::Sequential {
            c.entry = Entry::Parallel
        }
        history::<Backgammon>(&[c], None, o)
    });
    // many iterations of both kinds
    let limit = || prop_oneof![1 => 1u32..9, 2 => Just(400u32)].boxed();
    let long = (run(2, 2, limit(), 3), 3u32..7, 4u32..8, any::<bool>()).prop_map(|(r, learn, selfplay, s)| {
        let (learn, selfplay) = if s { (learn, selfplay % 3 + 1) } else { (learn % 3 + 1, selfplay) };
        Run { az: Az { learn, selfplay, epochs: r.az.epochs.min(2), ..r.az }, ..r }
    });
    p.family_opts("long-runs", (16, 300), 4, long, |c: &Run, o| history::<TicTacToe>(&[*c], None, o));
    let own = |r: Run| Run { entry: if r.entry == Entry::Program { Entry::Parallel } else { r.entry }, ..r };
    p.family_opts("synthetic", (24, 600), 6, (world(1..=6, 1..=9), vec(run(2, 5, limit(), 6), 1..3)), move |c: &(World, Vec<Run>), o| history::<NoDice>(&c.1.iter().map(|r| own(*r)).collect::<Vec<_>>(), Some(c.0), o));
    p.family_opts("synthetic-dice", (32, 800), 6, (world(1..=6, 1..=9), vec(run(2, 5, limit(), 6), 1..3)), move |c: &(World, Vec<Run>), o| history::<Dice>(&c.1.iter().map(|r| own(*r)).collect::<Vec<_>>(), Some(c.0), o));
    p.finish()
}
