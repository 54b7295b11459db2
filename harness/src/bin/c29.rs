//! C29: configuration values reach the parameter they name.
use config::Config;
use die_e::alphazero::alphazero::{AlphaZero, AlphaZeroConfig, OptimizerParams};
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::MctsConfig;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vh::child;
use vh::optim::*;
use vh::samples::*;
use vh::selfplay::*;
use vh::{ensure, fail, glue, sut, Obs, Prop, Res};

type G = TicTacToe;

/// key, is it a count, which settings it belongs to
const KEYS: [(&str, bool, u8); 13] = [
    ("temperature", false, 1),
    ("learn_iterations", true, 1),
    ("num_epochs", true, 1),
    ("training_batch_size", true, 1),
    ("self_play_iterations", true, 1),
    ("num_self_play_batches", true, 1),
    ("iterations", true, 0),
    ("exploration_const", false, 0),
    ("simulate_round_limit", true, 0),
    ("dirichlet_alpha", false, 0),
    ("dirichlet_epsilon", false, 0),
    ("wd", false, 2),
    ("lr", false, 2),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    Missing,
    Bad(String),
    /// no count can be negative; other parameters get text instead
    Negative(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    /// one per key
    ints: Vec<u64>,
    floats: Vec<f64>,
    style: Vec<u8>,
    order: Vec<u8>,
    noise: Vec<u8>,
    faults: Vec<(u8, Fault)>,
}

fn underscores(s: &str) -> String {
    if s.len() > 3 { format!("{}_{}", &s[..s.len() - 3], &s[s.len() - 3..]) } else { s.into() }
}

impl Text {
    fn int(&self, k: usize) -> u64 {
        self.ints[k]
    }
    fn float(&self, k: usize) -> f64 {
        // style 2 writes a whole number
        if self.style[k] % 6 == 2 { self.floats[k].round() } else { self.floats[k] }
    }
    fn literal(&self, k: usize) -> String {
        if KEYS[k].1 {
            let n = self.int(k);
            match self.style[k] % 7 {
                0 => underscores(&n.to_string()),
                1 if n < 1 << 53 => format!("{}.0", n),
                2 => format!("\"{}\"", n),
                3 => format!("+{}", n),
                4 => format!("0x{:x}", n),
                _ => n.to_string(),
            }
        } else {
            let x = self.float(k);
            match self.style[k] % 6 {
                0 => format!("{:e}", x),
                1 => format!("\"{}\"", x),
                2 => format!("{}", x),
                3 => format!("+{:?}", x),
                _ => format!("{:?}", x),
            }
        }
    }
    fn render(&self) -> String {
        let mut keys: Vec<usize> = (0..KEYS.len()).collect();
        for (i, o) in self.order.iter().enumerate() {
            let (a, b) = (i % 13, *o as usize % 13);
            keys.swap(a, b);
        }
        let mut t = String::new();
        let nl = if self.noise[0] % 5 == 0 { "\r\n" } else { "\n" };
        for (i, k) in keys.iter().enumerate() {
            match self.noise[i] % 6 {
                1 => t += &format!("# {} = 77{}", KEYS[*k].0, nl),
                2 => t += nl,
                3 => t += &format!("{}_{} = 55{}", KEYS[*k].0, i, nl),
                _ => {}
            }
            let v = match self.faults.iter().find(|f| f.0 as usize % 13 == *k) {
                None => self.literal(*k),
                Some((_, Fault::Bad(b))) => b.clone(),
                Some((_, Fault::Negative(n))) => match (KEYS[*k].1, n % 3) {
                    (false, _) => "\"minus one\"".into(),
                    (_, 0) => format!("-{}", 1 + n / 3),
                    (_, 1) => format!("\"-{}\"", 1 + n / 3),
                    _ => format!("-{}.0", 1 + n / 3 % (1 << 50)),
                },
                Some((_, Fault::Missing)) => continue,
            };
            let (a, b) = [("", " = "), ("  ", "="), ("", "\t= ")][self.noise[i] as usize % 3].into();
            t += &format!("{}{}{}{}{}{}", a, KEYS[*k].0, b, v, if self.noise[i] % 4 == 1 { " # 99" } else { "" }, nl);
        }
        if self.noise[1] % 3 == 0 {
            t += &format!("[old]{}", nl);
            for k in keys {
                t += &format!("{} = 66{}", KEYS[k].0, nl);
            }
        }
        t
    }
    fn broken(&self, part: u8) -> bool {
        self.faults.iter().any(|f| KEYS[f.0 as usize % 13].2 == part)
    }
}

fn text() -> impl Strategy<Value = Text> + Clone {
    let n = prop_oneof![4 => 0u64..10, 4 => 10u64..3000, 2 => any::<u32>().prop_map(|n| n as u64), 1 => 1u64 << 32..1 << 48, 1 => prop::sample::select(vec![i64::MAX as u64, 1 << 62, (1 << 32) + 1, (1 << 53) + 1])];
    let f = prop_oneof![3 => 0.0f64..3.0, 1 => 1e-7f64..1e-2, 1 => 0.0f64..500.0, 1 => (0u8..20).prop_map(|x| x as f64 / 4.0)];
    (vec(n, 13), vec(f, 13), vec(any::<u8>(), 13), vec(any::<u8>(), 0..14), vec(any::<u8>(), 13)).prop_map(|(ints, floats, style, order, noise)| Text { ints, floats, style, order, noise, faults: vec![] })
}

/// `name: number` pairs of a debug output.
fn pairs(s: &str) -> BTreeMap<String, String> {
    s.trim_end_matches('}').split(['{', ',']).filter_map(|p| p.split_once(':')).map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).collect()
}

fn parts(c: &Config) -> (Res<Result<MctsConfig, String>>, Res<Result<AlphaZeroConfig, String>>, Res<Result<OptimizerParams, String>>) {
    (
        sut("MctsConfig::from_config", || MctsConfig::from_config(c).map_err(|e| e.to_string())),
        sut("AlphaZeroConfig::from_config", || AlphaZeroConfig::from_config(c).map_err(|e| e.to_string())),
        sut("OptimizerParams::from_config", || OptimizerParams::from_config(c).map_err(|e| e.to_string())),
    )
}

fn key(name: &str) -> usize {
    KEYS.iter().position(|k| k.0 == name).unwrap()
}

fn values(t: &Text, o: &mut Obs) -> Res {
    let s = t.render();
    let c = glue::parse_config(&s);
    let (m, a, p) = parts(&c);
    let m = m?.or_else(|e| fail("refused", format!("search settings of {:?}: {}", s, e)))?;
    let a = a?.or_else(|e| fail("refused", format!("learning settings of {:?}: {}", s, e)))?;
    p?.or_else(|e| fail("refused", format!("optimiser settings of {:?}: {}", s, e)))?;
    let int = |n: &str| t.int(key(n)) as usize;
    for (n, v) in [("learn_iterations", a.learn_iterations), ("num_epochs", a.num_epochs), ("training_batch_size", a.training_batch_size), ("self_play_iterations", a.self_play_iterations), ("num_self_play_batches", a.num_self_play_batches)] {
        ensure!(v == int(n), "value", "{} is {} in the file, {} in the settings", n, int(n), v);
        o.eval();
    }
    ensure!(a.temperature == t.float(key("temperature")), "value", "temperature is {} in the file, {} in the settings", t.float(key("temperature")), a.temperature);
    // the search settings show themselves only in their debug output
    let shown = pairs(&format!("{:?}", m));
    let float = |n: &str| t.float(key(n)) as f32;
    let want = [
        ("iterations", int("iterations") as f64, "iterations"),
        ("simulate_round_limit", int("simulate_round_limit") as f64, "simulate_round_limit"),
        ("exploration_const", float("exploration_const") as f64, "c"),
        ("dirichlet_alpha", float("dirichlet_alpha") as f64, "dirichlet_alpha"),
        ("dirichlet_epsilon", float("dirichlet_epsilon") as f64, "dirichlet_epsilon"),
    ];
    for (n, w, field) in want {
        let is = |v: &String| if KEYS[key(n)].1 { v.parse::<usize>().ok().map(|x| x as f64) == Some(w) } else { v.parse::<f32>().ok().map(|x| x as f64) == Some(w) || v.parse::<f64>().ok() == Some(t.float(key(n))) };
        // by name where the name is known, anywhere otherwise
        let ok = match shown.get(field).or(shown.get(n)) {
            Some(v) => is(v),
            None => shown.values().any(is),
        };
        ensure!(ok, "value", "{} is {} in the file, but the search settings are {:?}", n, w, m);
        o.eval();
    }
    o.nontrivial((t.ints.clone(), s.clone()));
    o.sample(|| s.replace("\r\n", " | ").replace('\n', " | "));
    Ok(())
}

fn faulty(t: &Text, o: &mut Obs) -> Res {
    let s = t.render();
    let c = glue::parse_config(&s);
    let (m, a, p) = parts(&c);
    for (i, (what, r)) in [("search", m?.err()), ("learning", a?.err()), ("optimiser", p?.err())].iter().enumerate() {
        let b = t.broken(i as u8);
        ensure!(b == r.is_some(), if b { "accepted" } else { "refused" }, "with {:?} the {} settings {}", t.faults.iter().map(|f| (KEYS[f.0 as usize % 13].0, &f.1)).collect::<Vec<_>>(), what, match r { Some(e) => format!("are refused: {}", e), None => "are accepted".into() });
        o.class_if(b, &format!("{} refused", what));
        o.eval();
    }
    // and the learner is not made at all
    if !t.faults.is_empty() {
        let r = sut("from_config", || AlphaZero::from_config::<G>(None, &c));
        ensure!(r.is_err(), "accepted", "with {:?} a learner is made", t.faults);
        o.nontrivial(s);
    }
    Ok(())
}

fn fault() -> impl Strategy<Value = Fault> + Clone {
    prop_oneof![
        3 => Just(Fault::Missing),
        2 => prop_oneof![0u64..30, 0u64..1 << 60].prop_map(Fault::Negative),
        2 => prop::sample::select(vec!["\"many\"", "\"\"", "[]", "[3]", "{}", "{ a = 1 }", "\"1,5\"", "\"0.1 \"", "2020-01-01", "\"one\"", "\"--1\""]).prop_map(|s| Fault::Bad(s.to_string()))
    ]
}

/// The optimiser settings as they act: one training step.
fn rates(c: &(Vec<Samp<vh::ttt::TPos>>, Text, f64, f64), o: &mut Obs) -> Res {
    let mut t = c.1.clone();
    let n = c.0.len();
    for (k, v) in [("temperature", 1.0), ("lr", c.2), ("wd", c.3), ("exploration_const", 1.0), ("dirichlet_alpha", 0.3), ("dirichlet_epsilon", 0.1)] {
        t.floats[key(k)] = v;
        if t.style[key(k)] % 6 == 2 {
            t.style[key(k)] = 5
        }
    }
    t.ints[key("training_batch_size")] = n as u64 + t.ints[key("training_batch_size")] % 50;
    let s = t.render();
    let cfg = glue::parse_config(&s);
    let mut az = sut("from_config", || AlphaZero::from_config::<G>(None, &cfg))?;
    glue::sharpen::<G>(&az.model.vs, 2.0, 2.0);
    let start = glue::snapshot(&az.model.vs);
    let mut mem = fragments(&c.0);
    sut("train", || az.train(&mut mem))?;
    let step = |shake: bool, lr: f64, wd: f64| {
        let mut m = Model::new::<G>(&start, lr, wd);
        if shake {
            m.shake();
        }
        m.step(&c.0.iter().map(|x| (x.pos.game().as_tensor().squeeze_dim(0), x.target(9), x.outcome)).collect::<Vec<_>>());
        glue::snapshot(&m.net.vs)
    };
    let base = step(false, c.2, c.3);
    let d = distance(&glue::snapshot(&az.model.vs), &base, c.2, 1);
    if d.0 > TOL && (0..5).any(|_| distance(&base, &step(true, c.2, c.3), c.2, 1).0 > TOL / 10.0) {
        o.class("ill-conditioned, left out");
        return Ok(());
    }
    ensure!(d.0 <= TOL, "value", "the training step is not that of lr {} and wd {}: {} is off by {:.4} learning rates", c.2, c.3, d.1, d.0);
    // could the weight decay be told apart?
    o.class_if(distance(&base, &step(false, c.2, 0.0), c.2, 1).0 > TOL, "weight decay felt");
    o.nontrivial((c.2.to_bits(), c.3.to_bits(), s));
    Ok(())
}

/// Through the command-line program: the amounts of a learning run are those of the file.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
    text: Text,
    learn: u32,
    selfplay: u32,
    games: u32,
    limit: u32,
    epochs: u32,
    place: u8,
    seed: u64,
}

fn whole(c: &Whole, o: &mut Obs) -> Res {
    let mut t = c.text.clone();
    for (k, v) in [("learn_iterations", c.learn), ("self_play_iterations", c.selfplay), ("num_self_play_batches", c.games), ("simulate_round_limit", c.limit), ("num_epochs", c.epochs), ("training_batch_size", 8), ("iterations", 2)] {
        t.ints[key(k)] = v as u64;
    }
    for (k, v) in [("temperature", 1.25), ("lr", 0.001), ("wd", 0.0001), ("exploration_const", 2.0), ("dirichlet_alpha", 0.3), ("dirichlet_epsilon", 0.25)] {
        t.floats[key(k)] = v;
        if t.style[key(k)] % 6 == 2 {
            t.style[key(k)] = 5
        }
    }
    let dir = Dir::new();
    let (file, arg) = [("config", None), ("config.toml", None), ("other.cfg", Some("other.cfg")), ("sub/x.toml", Some("./sub/x.toml"))][c.place as usize % 4];
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let text = t.render();
    std::fs::write(dir.join(file), &text).unwrap();
    if arg.is_some() {
        // must not be read
        std::fs::write(dir.join("config.toml"), "iterations = 1\n").unwrap();
    }
    let mut a: Vec<String> = ["--game", "tic-tac-toe", "--n-cpus", "1"].iter().map(|s| s.to_string()).collect();
    if let Some(p) = arg {
        a.push("--config".into());
        a.push(p.into());
    }
    a.push("learn".into());
    let out = child::run(&child::cli(), &a, dir.path(), c.seed, "", 200);
    ensure!(!out.timeout, "hang", "learning does not end");
    let files = dir.files();
    let produced = files.iter().filter(|f| f.starts_with("data/") || f.starts_with("models/")).count();
    if !t.faults.is_empty() {
        ensure!(!out.ok() && produced == 0, "accepted", "learning goes on with {:?} (exit {:?}, {} files)", t.faults, out.code, produced);
        o.class("refused");
        o.nontrivial(text);
        return Ok(());
    }
    ensure!(out.ok(), "panic", "learning with {:?} fails: {}", text, out.tail());
    let models = (0..99).take_while(|i| dir.join(&format!("models/tictactoe/model_{}.ot", i)).exists()).count();
    ensure!(models == c.learn as usize, "value", "{} learning iterations in the file, {} made", c.learn, models);
    let sp: Vec<&str> = files.iter().filter_map(|f| f.strip_suffix("/ps.ot")).collect();
    ensure!(sp.len() == (c.learn * c.selfplay) as usize, "value", "{} x {} self-play iterations in the file, {} made", c.learn, c.selfplay, sp.len());
    for s in sp {
        let mem = sut("load_training_data", || AlphaZero::load_training_data(&dir.join(s)))?;
        let games = games::<G>(decisions::<G>(&mem, o)?)?;
        ensure!(games.len() == c.games as usize, "value", "{} games in the file, {} made", c.games, games.len());
        for g in &games {
            ensure!(g.len() == c.limit as usize, "value", "round limit {} in the file, a game of {} rounds", c.limit, g.len());
        }
    }
    o.class(format!("read from {}", file));
    o.nontrivial(text);
    Ok(())
}

/// The example shipped with the program.
fn example(_: &u8, o: &mut Obs) -> Res {
    let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/config-example.toml");
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let mut vals = BTreeMap::new();
    for l in s.lines() {
        if let Some((k, v)) = l.split('#').next().unwrap().split_once('=') {
            vals.insert(k.trim().to_string(), v.trim().to_string());
        }
    }
    let c = glue::parse_config(&s);
    let (m, a, p) = parts(&c);
    if m?.is_err() | a?.is_err() | p?.is_err() {
        return fail("example", "the example configuration is refused");
    }
    let t = Text { ints: KEYS.iter().map(|k| vals.get(k.0).and_then(|v| v.parse().ok()).unwrap_or(0)).collect(), floats: KEYS.iter().map(|k| vals.get(k.0).and_then(|v| v.parse().ok()).unwrap_or(0.0)).collect(), style: vec![6; 13], order: vec![], noise: vec![7; 13], faults: vec![] };
    ensure!(KEYS.iter().all(|k| vals.contains_key(k.0)), "example", "the example lacks a key");
    values(&Text { style: vec![5; 13], ..t }, o)
}

fn main() {
    let mut p = Prop::new("C29", "distinct configuration texts")
        .assume("search settings are read from their debug output (their effect is judged by C15, C16, C19 and C24); the words true, on, yes, false, off, no count as numbers for the configuration library");
    p.family("values", (20_000, 400_000), text(), values);
    p.family("faults", (6_000, 100_000), (text(), vec((any::<u8>(), fault()), 0..4)).prop_map(|(t, faults)| Text { faults, ..t }), faulty);
    p.family("example", (8, 8), any::<u8>(), example);
    let wd = prop_oneof![1 => Just(0.0f64), 2 => 0.01f64..1.0];
    p.family_opts("rates", (200, 6_000), 20, (vec(tsamp(), 2..7), text(), 1e-4f64..2e-2, wd), rates);
    let faults = prop_oneof![3 => Just(vec![]), 1 => vec((any::<u8>(), fault()), 1..3)];
    let w = (text(), faults, (0u32..2, 1u32..3, 1u32..5, 1u32..6, 0u32..3), any::<u8>(), any::<u64>())
        .prop_map(|(t, faults, (learn, selfplay, games, limit, epochs), place, seed)| Whole { text: Text { faults, ..t }, learn, selfplay, games, limit, epochs, place, seed });
    p.family_opts("whole", (96, 2_000), 10, w, whole);
    p.finish()
}
