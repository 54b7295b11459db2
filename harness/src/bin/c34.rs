//! C34: a command that cannot be carried out is refused and changes nothing.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{save_game, Agent, Game};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vh::glue::{Az, Mc};
use vh::samples::*;
use vh::search::Ref;
use vh::ttt::TPos;
use vh::{child, ensure, glue, sut, Obs, Prop, Res};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum Cmd {
    Learn,
    Play,
    Train,
    Replay,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Fault {
    /// of the command line as a whole
    NoGame,
    UnknownGame(u8),
    NoCommand,
    UnknownOption(u8),
    TooManyCpus,
    CpusNoNumber(u8),
    /// of the configuration
    NoConfig,
    ConfigGarbage(u8),
    NoKey(u8),
    BadValue(u8, u8),
    /// of the model (given, or the best one there is)
    Model(Bad),
    /// of the data to train on: which directory, which of the three files
    Data(u8, u8, Bad),
    NoData,
    NoSuchRun,
    HalfSelection(u8),
    OutNowhere,
    /// of a match
    NoAgent(bool),
    UnknownAgent(bool, u8),
    NoModelFor(bool),
    NoOutput,
    OutputMissing,
    OutputIsFile,
    /// of the record
    NoRecordGiven,
    Record(Bad),
}

/// What is wrong with a file.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Bad {
    Missing,
    Empty,
    Garbage(u8),
    /// a share of its bytes is left
    Cut(u8),
    /// one of the other game
    Foreign,
    /// a directory in its place
    Directory,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cmd: Cmd,
    fault: Option<Fault>,
    backgammon: bool,
    /// the model is the best one there is instead of a given one
    best: bool,
    leaves: Vec<(u8, u8, u8, Vec<Samp<TPos>>)>,
    style: u8,
    seed: u64,
}

fn spoil(p: &std::path::Path, b: Bad, foreign: impl FnOnce(&std::path::Path)) {
    match b {
        Bad::Missing => std::fs::remove_file(p).unwrap(),
        Bad::Empty => std::fs::write(p, b"").unwrap(),
        Bad::Garbage(k) => std::fs::write(p, (0..k as usize * 7 + 3).map(|i| (i * 31 + k as usize) as u8).collect::<Vec<_>>()).unwrap(),
        Bad::Cut(k) => {
            let v = std::fs::read(p).unwrap();
            std::fs::write(p, &v[..v.len() * (k as usize % 95) / 100]).unwrap()
        }
        Bad::Foreign => foreign(p),
        Bad::Directory => {
            std::fs::remove_file(p).unwrap();
            std::fs::create_dir_all(p).unwrap()
        }
    }
}

fn word(b: bool) -> &'static str {
    if b { "backgammon" } else { "tic-tac-toe" }
}

fn name(b: bool) -> &'static str {
    if b { "backgammon" } else { "tictactoe" }
}

fn net_file<T: Ref>(p: &std::path::Path) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    let n = glue::net::<T>();
    n.vs.save(p).unwrap();
}

fn record<T: LearnableGame>(p: &std::path::Path) -> Res<String> {
    let g = Game::new(Agent::Random, Agent::Mcts, T::new());
    let id = serde_json::to_value(&g).unwrap()["id"].as_str().unwrap_or("?").to_string();
    match sut("save_game", || save_game(&g, p.to_str().unwrap()).map_err(|e| e.to_string()))? {
        Ok(()) => Ok(format!("{}/{}.json", p.display(), id)),
        Err(e) => vh::fail("record", e),
    }
}

fn files(d: &Dir) -> BTreeMap<String, Vec<u8>> {
    d.files().into_iter().map(|f| (f.clone(), std::fs::read(d.join(&f)).unwrap())).collect()
}

fn check<G: Ref, F: Ref>(c: &Case, o: &mut Obs) -> Res {
    let dir = Dir::new();
    let w = dir.path();
    let b = c.backgammon;
    let fault = c.fault.clone();
    let is = |f: Fault| fault.as_ref() == Some(&f);
    // configuration
    let mut text = glue::config_text(&Mc { iterations: 2, limit: 4, ..Mc::default() }, &Az { games: 2, batch: 64, ..Az::default() });
    let keys: Vec<String> = match c.cmd {
        Cmd::Play => ["temperature", "iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon"].iter().map(|s| s.to_string()).collect(),
        _ => text.lines().map(|l| l.split(' ').next().unwrap().to_string()).collect(),
    };
    match &fault {
        Some(Fault::NoKey(k)) => {
            let k = &keys[*k as usize % keys.len()];
            text = text.lines().filter(|l| !l.starts_with(&format!("{} ", k))).map(|l| format!("{}\n", l)).collect();
        }
        Some(Fault::BadValue(k, v)) => {
            let k = &keys[*k as usize % keys.len()];
            // a negative number is wrong for a count only
            let count = ["iterations", "simulate_round_limit", "learn_iterations", "self_play_iterations", "num_epochs", "training_batch_size", "num_self_play_batches"].contains(&k.as_str());
            let v = ["\"many\"", "[]", "{}", "\"\"", "2020-01-01", "[1, 2]", if count { "-1" } else { "\"-\"" }, if count { "-40" } else { "[-1]" }][*v as usize % 8];
            text = text.lines().map(|l| if l.starts_with(&format!("{} ", k)) { format!("{} = {}\n", k, v) } else { format!("{}\n", l) }).collect();
        }
        Some(Fault::ConfigGarbage(k)) => text = [format!("{}lr = \n", text), "[[".into(), format!("{}\u{0}", text), format!("= 3\n{}", text)][*k as usize % 4].clone(),
        _ => {}
    }
    let named = c.style & 1 == 0;
    let config = if named { "my conf.toml" } else { "config" };
    if !is(Fault::NoConfig) {
        std::fs::write(w.join(config), text).unwrap();
    }
    let mut args: Vec<String> = vec![];
    let mut push = |a: &str| args.push(a.to_string());
    match &fault {
        Some(Fault::NoGame) => {}
        Some(Fault::UnknownGame(k)) => {
            push("--game");
            push(["chess", "", "tictactoe2", "0", "tic_tac_toe", "back"][*k as usize % 6]);
        }
        _ => {
            push(if c.style & 2 == 0 { "--game" } else { "-g" });
            push(word(b));
        }
    }
    if named {
        push("--config");
        push(config);
    }
    push("--n-cpus");
    match &fault {
        Some(Fault::TooManyCpus) => push(&(std::thread::available_parallelism().map_or(64, |n| n.get()).max(64) * 1000).to_string()),
        Some(Fault::CpusNoNumber(k)) => push(["two", "1.5", "", "1e1", "0x2"][*k as usize % 5]),
        _ => push("1"),
    }
    if !is(Fault::NoCommand) {
        push(match c.cmd {
            Cmd::Learn => "learn",
            Cmd::Play => "play",
            Cmd::Train => "train",
            Cmd::Replay => "replay",
        });
    }
    // the model
    let model = match c.cmd {
        Cmd::Learn | Cmd::Train if c.best => w.join(format!("models/{}/best_model.ot", name(b))),
        _ => w.join("given.ot"),
    };
    if c.cmd != Cmd::Replay {
        net_file::<G>(&model);
        if let Some(Fault::Model(bad)) = &fault {
            // a best model that is not there is no fault
            if !(c.best && *bad == Bad::Missing) {
                spoil(&model, *bad, net_file::<F>);
            } else {
                spoil(&model, Bad::Empty, |_| {});
            }
        }
    }
    match c.cmd {
        Cmd::Learn => {
            if !c.best {
                push("--model-path");
                push("given.ot");
            }
        }
        Cmd::Train => {
            if !c.best {
                push(if c.style & 4 == 0 { "--model-path" } else { "-m" });
                push("given.ot");
            }
            let az = glue::learner::<G>(&Mc::default(), &Az::default());
            let at = |l: &(u8, u8, u8, Vec<Samp<TPos>>)| w.join(format!("data/{}/run-{}/lrn-{}/sp-{}", name(b), ["abc", "d_-"][l.0 as usize % 2], l.1 % 2, l.2 % 3));
            if is(Fault::NoData) {
                if c.style & 8 == 0 {
                    std::fs::create_dir_all(w.join("data")).unwrap();
                }
            } else {
                std::fs::create_dir_all(w.join(format!("data/{}", name(b)))).unwrap();
                for l in &c.leaves {
                    std::fs::create_dir_all(at(l)).unwrap();
                    // (the samples of the case only say how many)
                    let mem: Vec<_> = l.3.iter().map(|s| s.fragment(&G::new_game())).collect();
                    sut("save_training_data", || az.save_training_data(&mem, &at(l)))?;
                }
            }
            if let (Some(Fault::Data(i, f, bad)), Some(_)) = (&fault, c.leaves.first()) {
                let l = &c.leaves[*i as usize % c.leaves.len()];
                // (labels look the same in all games)
                let n = if *bad == Bad::Foreign { 2 } else { 3 };
                let name = ["ps.ot", "states.ot", "outcomes.ot"][*f as usize % n];
                spoil(&at(l).join(name), *bad, |p| {
                    let other = Dir::new();
                    let az = glue::learner::<F>(&Mc::default(), &Az::default());
                    let mem: Vec<_> = l.3.iter().map(|s| s.fragment(&F::new_game())).collect();
                    az.save_training_data(&mem, other.path());
                    std::fs::copy(other.join(name), p).unwrap();
                });
            }
            match &fault {
                Some(Fault::NoSuchRun) => push("--run-id=nobody"),
                Some(Fault::HalfSelection(k)) => {
                    for a in [vec!["--learn=0"], vec!["--self-play=0"], vec!["--run-id=abc", "--self-play=0"], vec!["--learn=0", "--self-play=0"]][*k as usize % 4].iter() {
                        push(a);
                    }
                }
                _ => {}
            }
            if is(Fault::OutNowhere) {
                push("--out-path");
                push("no/such/place.ot");
            } else if c.style & 16 == 0 {
                push("--out-path");
                push("result.ot");
                if c.style & 64 == 0 {
                    std::fs::write(w.join("result.ot"), "an earlier one").unwrap();
                }
            }
        }
        Cmd::Play => {
            std::fs::create_dir_all(w.join("out")).unwrap();
            std::fs::write(w.join("file"), "x").unwrap();
            let weak = |k: u8| ["random", "mcts", "Random", "MCTS"][k as usize % 4];
            let with_model = matches!(fault, Some(Fault::Model(_)));
            let first = c.style & 32 == 0;
            let (mut a1, mut a2) = (Some(weak(c.style)), Some(weak(c.style / 4)));
            match &fault {
                Some(Fault::NoAgent(x)) => *(if *x { &mut a1 } else { &mut a2 }) = None,
                Some(Fault::UnknownAgent(x, k)) => *(if *x { &mut a1 } else { &mut a2 }) = Some(["human", "", "modell", "rand", " mcts", "none", "random,mcts"][*k as usize % 7]),
                Some(Fault::NoModelFor(x)) => *(if *x { &mut a1 } else { &mut a2 }) = Some("model"),
                _ => {}
            }
            if with_model {
                *(if first { &mut a1 } else { &mut a2 }) = Some("model");
            }
            for (k, v) in [("--agent-one", a1), ("--agent-two", a2)] {
                if let Some(v) = v {
                    push(k);
                    push(v);
                }
            }
            if with_model {
                push(if first { "--model-path-one" } else { "--model-path-two" });
                push("given.ot");
            }
            if !is(Fault::NoOutput) {
                push("--output-path");
                push(if is(Fault::OutputMissing) { "nowhere" } else if is(Fault::OutputIsFile) { "file" } else { "out" });
            }
        }
        Cmd::Replay => {
            std::fs::create_dir_all(w.join("out")).unwrap();
            let p = record::<G>(&w.join("out"))?;
            if let Some(Fault::Record(bad)) = &fault {
                spoil(std::path::Path::new(&p), *bad, |q| {
                    let other = record::<F>(&w.join("out")).unwrap_or_default();
                    std::fs::rename(other, q).unwrap();
                });
            }
            if !is(Fault::NoRecordGiven) {
                push("--game-path");
                push(&p);
            }
        }
    }
    if let Some(Fault::UnknownOption(k)) = &fault {
        push(["--fast", "--verbose", "extra", "--", "-x"][*k as usize % 5]);
        push("x");
    }
    let before = files(&dir);
    let r = child::run(&child::cli(), &args, w, c.seed, "\n\n\n", 250);
    ensure!(!r.timeout, "hang", "{:?} does not end", args);
    let after = files(&dir);
    match &fault {
        None => {
            ensure!(r.ok(), "refused", "nothing is wrong with {:?}, but it fails: {}", args, r.tail());
            o.class(format!("{:?} carried out", c.cmd));
        }
        Some(f) => {
            let kind = format!("{:?}", f);
            ensure!(!r.ok(), "accepted", "{:?} is accepted although: {}", args, kind);
            for (k, v) in &before {
                ensure!(after.get(k) == Some(v), "changed", "{:?} is refused ({}) but changed {}", args, kind, k);
            }
            let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
            ensure!(new.is_empty(), "left-behind", "{:?} is refused ({}) but left {:?}", args, kind, new);
            o.class(format!("{:?}: {} refused", c.cmd, kind.split('(').next().unwrap_or("")));
        }
    }
    for (k, v) in &before {
        ensure!(after.get(k) == Some(v) || k.starts_with("models/") || k == "result.ot" || fault.is_some(), "changed", "{:?} changed {}", args, k);
    }
    o.eval();
    o.nontrivial(format!("{:?}", c));
    o.sample(|| format!("{:?}: exit {:?}", args, r.code));
    Ok(())
}

/// A position to store samples of.
trait NewGame {
    fn new_game() -> Self;
}

impl<T: Ref> NewGame for T {
    fn new_game() -> T {
        let mut g = T::new();
        if !T::IS_DETERMINISTIC {
            g.roll_die();
        }
        g
    }
}

fn run(c: &Case, o: &mut Obs) -> Res {
    if c.backgammon {
        check::<Backgammon, TicTacToe>(c, o)
    } else {
        check::<TicTacToe, Backgammon>(c, o)
    }
}

fn bad() -> impl Strategy<Value = Bad> + Clone {
    prop_oneof![Just(Bad::Missing), Just(Bad::Empty), any::<u8>().prop_map(Bad::Garbage), any::<u8>().prop_map(Bad::Cut), Just(Bad::Foreign), Just(Bad::Directory)]
}

fn fault(cmd: Cmd) -> BoxedStrategy<Option<Fault>> {
    let k = any::<u8>();
    let whole = prop_oneof![
        Just(Fault::NoGame),
        k.prop_map(Fault::UnknownGame),
        Just(Fault::NoCommand),
        k.prop_map(Fault::UnknownOption),
        Just(Fault::TooManyCpus),
        k.prop_map(Fault::CpusNoNumber),
        Just(Fault::NoConfig),
        k.prop_map(Fault::ConfigGarbage)
    ];
    let key = prop_oneof![k.prop_map(Fault::NoKey), (k, k).prop_map(|(a, b)| Fault::BadValue(a, b))];
    let own = match cmd {
        Cmd::Learn => prop_oneof![3 => bad().prop_map(Fault::Model), 2 => key].boxed(),
        Cmd::Train => prop_oneof![
            2 => bad().prop_map(Fault::Model),
            4 => (k, k, bad()).prop_map(|(a, b, c)| Fault::Data(a, b, c)),
            1 => Just(Fault::NoData),
            1 => Just(Fault::NoSuchRun),
            1 => k.prop_map(Fault::HalfSelection),
            1 => Just(Fault::OutNowhere),
            2 => key
        ]
        .boxed(),
        Cmd::Play => prop_oneof![
            3 => bad().prop_map(Fault::Model),
            1 => any::<bool>().prop_map(Fault::NoAgent),
            2 => (any::<bool>(), k).prop_map(|(a, b)| Fault::UnknownAgent(a, b)),
            1 => any::<bool>().prop_map(Fault::NoModelFor),
            1 => Just(Fault::NoOutput),
            1 => Just(Fault::OutputMissing),
            1 => Just(Fault::OutputIsFile),
            2 => key
        ]
        .boxed(),
        Cmd::Replay => prop_oneof![1 => Just(Fault::NoRecordGiven), 4 => bad().prop_map(Fault::Record)].boxed(),
    };
    prop_oneof![2 => whole.prop_map(Some), 5 => own.prop_map(Some), 1 => Just(None)].boxed()
}

fn case(cmd: Cmd, backgammon: bool) -> impl Strategy<Value = Case> {
    let leaf = (any::<u8>(), any::<u8>(), any::<u8>(), vec(tsamp(), 1..4));
    (fault(cmd), any::<bool>(), vec(leaf, 1..4), any::<u8>(), any::<u64>()).prop_map(move |(fault, best, leaves, style, seed)| Case { cmd, fault, backgammon, best, leaves, style, seed })
}

fn main() {
    let mut p = Prop::new("C34", "distinct requests").assume("directories that a refused command may leave behind are not counted as changes; files are");
    for (n, cmd, k) in [("learn", Cmd::Learn, (180, 6_000)), ("train", Cmd::Train, (300, 9_000)), ("play", Cmd::Play, (240, 8_000)), ("replay", Cmd::Replay, (160, 5_000))] {
        p.family_opts(n, k, 6, case(cmd, false), run);
    }
    let some = prop::sample::select(vec![Cmd::Learn, Cmd::Train, Cmd::Play, Cmd::Replay]).prop_flat_map(|c| case(c, true)).prop_map(|c| Case { fault: c.fault.or(Some(Fault::NoConfig)), ..c });
    p.family_opts("backgammon", (48, 1_500), 3, some, run);
    p.finish()
}
