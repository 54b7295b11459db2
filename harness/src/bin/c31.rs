//! C31: the play command saves every game of the match it reports; replay shows it.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{load_all_games, load_game, save_game, Agent, Game};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vh::bg::Pos;
use vh::child::{self, Out};
use vh::glue::{Az, Mc};
use vh::samples::{tpos, Dir, Posn};
use vh::search::Ref;
use vh::stats::FAR;
use vh::ttt::TPos;
use vh::{ensure, fail, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Side {
    Random,
    Mcts,
    /// a network that always prefers the cells in this order
    Model(Vec<u8>),
}

impl Side {
    fn name(&self) -> &'static str {
        match self {
            Side::Random => "Random",
            Side::Mcts => "Mcts",
            Side::Model(_) => "Model",
        }
    }
    /// as written on the command line
    fn word(&self, style: u8) -> String {
        let n = self.name();
        match style % 4 {
            0 => n.to_string(),
            1 => n.to_uppercase(),
            _ => n.to_lowercase(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: Side,
    b: Side,
    iterations: u32,
    temp: f64,
    style: u8,
    /// games of an earlier match are in the directory already
    earlier: u8,
    spare_models: bool,
    /// where the models lie
    layout: u8,
    seed: u64,
}

fn save_model(p: &std::path::Path, order: &[u8], value: f64) {
    let net = glue::net::<TicTacToe>();
    let mut logits = vec![0f32; 9];
    for (i, a) in order.iter().enumerate() {
        logits[*a as usize] = -(i as f32) * 0.7;
    }
    glue::fix_heads::<TicTacToe>(&net.vs, &logits, value);
    net.vs.save(p).unwrap();
}

fn game_word<T: LearnableGame>() -> &'static str {
    if T::IS_DETERMINISTIC { "tic-tac-toe" } else { "backgammon" }
}

fn head<T: LearnableGame>() -> Vec<String> {
    ["--game", game_word::<T>(), "--config", "conf", "--n-cpus", "1"].iter().map(|s| s.to_string()).collect()
}

/// The number behind a title in the summary.
fn number(out: &Out, title: &str) -> Res<f64> {
    let l = out.stdout.lines().find(|l| l.trim_start().to_lowercase().starts_with(&title.to_lowercase()));
    match l.and_then(|l| l.split(':').nth(1)).and_then(|v| v.trim().trim_end_matches('%').parse().ok()) {
        Some(n) => Ok(n),
        None => fail("summary", format!("the summary does not tell {:?}: {}", title, out.stdout.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>())),
    }
}

fn files(d: &Dir, sub: &str) -> BTreeMap<String, Vec<u8>> {
    d.files().into_iter().filter(|f| f.starts_with(sub)).map(|f| (f.clone(), std::fs::read(d.join(&f)).unwrap())).collect()
}

/// Chance that -1 (player 1) and 1 (player 2) win; None when a side cannot be predicted.
fn chances(p: &TPos, s: [&Side; 2], memo: &mut BTreeMap<TPos, Option<(f64, f64)>>) -> Option<(f64, f64)> {
    if let Some(w) = p.outcome() {
        return Some(((w == -1) as u8 as f64, (w == 1) as u8 as f64));
    }
    if let Some(x) = memo.get(p) {
        return *x;
    }
    let e = p.empty_cells();
    let next: Option<Vec<u8>> = match s[(p.player == 1) as usize] {
        Side::Random => Some(e.clone()),
        Side::Mcts => None,
        Side::Model(order) => order.iter().find(|m| e.contains(m)).map(|m| vec![*m]),
    };
    let r = next.and_then(|n| {
        let k = n.len() as f64;
        n.iter().try_fold((0.0, 0.0), |t, m| chances(&p.play(*m), s, memo).map(|x| (t.0 + x.0 / k, t.1 + x.1 / k)))
    });
    memo.insert(*p, r);
    r
}

fn play<T: Ref>(c: &Case, o: &mut Obs) -> Res {
    let dir = Dir::new();
    let w = dir.path();
    std::fs::create_dir_all(w.join("out")).unwrap();
    std::fs::write(w.join("conf"), glue::config_text(&Mc { iterations: c.iterations, eps: 0.0, limit: 60, ..Mc::default() }, &Az { temperature: c.temp, ..Az::default() })).unwrap();
    let long = c.style & 8 == 0;
    let mut args = head::<T>();
    args.push("play".into());
    let mut push = |a: &str, b: String| {
        args.push(a.into());
        args.push(b);
    };
    push(if long { "--agent-one" } else { "-a" }, c.a.word(c.style));
    push("--agent-two", c.b.word(c.style >> 2));
    let (one, two) = match c.layout % 4 {
        0 => ("one.ot".to_string(), "two.ot".to_string()),
        1 => ("first/best_model.ot".into(), "second/best_model.ot".into()),
        2 => ("./model_1.ot".into(), "./model_1/0.ot".into()),
        _ => (w.join("models of one/model.ot").display().to_string(), "model.ot".into()),
    };
    for f in [&one, &two] {
        std::fs::create_dir_all(w.join(f).parent().unwrap()).unwrap();
    }
    for (s, k, f) in [(&c.a, if long { "--model-path-one" } else { "-m" }, &one), (&c.b, "--model-path-two", &two)] {
        if let Side::Model(order) = s {
            save_model(&w.join(f), order, 0.1);
            push(k, f.clone());
        } else if c.spare_models && T::IS_DETERMINISTIC {
            // a model nobody asked for
            save_model(&w.join(f), &[0, 1, 2, 3, 4, 5, 6, 7, 8], 0.2);
            push(k, f.clone());
        }
    }
    push(if long { "--output-path" } else { "-o" }, if c.style & 16 == 0 { "out".into() } else { w.join("out").display().to_string() });
    for i in 0..c.earlier % 3 {
        let g = Game::new(Agent::Model, Agent::Random, T::new());
        save_game(&g, w.join("out").to_str().unwrap()).unwrap();
        std::fs::write(w.join(format!("out/notes{}.txt", i)), "x").unwrap();
    }
    let before = files(&dir, "");
    let out = child::run(&child::cli(), &args, w, c.seed, "", 300);
    ensure!(!out.timeout, "hang", "the match does not end");
    ensure!(out.ok(), "panic", "play fails: {}", out.tail());
    let after = files(&dir, "");
    for (f, b) in &before {
        ensure!(after.get(f) == Some(b), "changed", "the match changed {}", f);
    }
    let new: Vec<&String> = after.keys().filter(|f| !before.contains_key(*f)).collect();
    // the summary
    let (w1, w2, dr, n) = (number(&out, "Wins Player 1")? as usize, number(&out, "Wins Player 2")? as usize, number(&out, "Draws")? as usize, number(&out, "Number of Games")? as usize);
    ensure!(w1 + w2 + dr == n && n > 0, "summary", "{} and {} wins and {} draws of {} games", w1, w2, dr, n);
    let rate = number(&out, "Winrate")?;
    ensure!((rate - 100.0 * w1 as f64 / n as f64).abs() < 1e-6, "summary", "win rate {}% for {} of {}", rate, w1, n);
    for (t, s) in [("Player 1:", &c.a), ("Player 2:", &c.b)] {
        let l = out.stdout.lines().find(|l| l.trim_start().starts_with(t)).unwrap_or("");
        ensure!(l.contains(s.name()), "summary", "asked for {}, the summary says {:?}", s.name(), l);
    }
    // the records
    ensure!(new.len() == n, "records", "{} games in the summary, {} new files", n, new.len());
    let (mut a, mut b, mut none, mut first, mut idle) = (0, 0, 0, 0, 0);
    for f in &new {
        let v: Value = match serde_json::from_slice(&after[*f]) {
            Ok(v) => v,
            Err(e) => return fail("record", format!("{} cannot be read: {}", f, e)),
        };
        let g: Game<T> = match sut("load_game", || load_game::<T>(w.join(f)).map_err(|e| e.to_string()))? {
            Ok(g) => g,
            Err(e) => return fail("record", format!("{} cannot be loaded: {}", f, e)),
        };
        ensure!(**f == format!("out/{}.json", v["id"].as_str().unwrap_or("?")), "record", "{} holds the game {}", f, v["id"]);
        ensure!(v["player1"] == c.a.name() && v["player2"] == c.b.name(), "record-players", "{} names {} and {} instead of {} and {}", f, v["player1"], v["player2"], c.a.name(), c.b.name());
        let s: T = serde_json::from_value(v["initial_state"].clone()).unwrap();
        ensure!(v["initial_state"]["board"] == serde_json::to_value(T::new()).unwrap()["board"], "start", "{} starts from {}", f, s.show());
        first += (s.get_player() == -1) as usize;
        let win = v["winner"].as_str().unwrap_or("?").to_string();
        if win == "None" {
            none += 1
        } else {
            a += (win == c.a.name()) as usize;
            b += (win == c.b.name()) as usize;
            ensure!(win == c.a.name() || win == c.b.name(), "winner", "{} was won by {}", f, win);
            idle += g.turns.is_empty() as usize;
        }
        o.eval();
    }
    ensure!(none == dr, "totals", "{} records without winner, {} draws printed", none, dr);
    if c.a.name() != c.b.name() {
        ensure!(a == w1 && b == w2, "totals", "the records add up to {} and {} wins, printed are {} and {}", a, b, w1, w2);
    }
    ensure!(first * 2 == n, "starters", "player 1 starts {} of {} games", first, n);
    let all = sut("load_all_games", || load_all_games::<T>(w.join("out")).map_err(|e| e.to_string()))?;
    ensure!(all.as_ref().map(|x| x.len()) == Ok(n + (c.earlier % 3) as usize), "records", "the directory holds {:?} games", all.map(|x| x.len()));
    if idle > 0 {
        o.finding("turns-not-recorded", format!("{} of {} games are recorded as won without a single turn", idle, n))?;
    }
    // what the match must have come to
    if T::IS_DETERMINISTIC && c.iterations == 1 {
        let mut memo = BTreeMap::new();
        let x: Vec<Option<(f64, f64)>> = [-1, 1].iter().map(|f| chances(&TPos { board: [0; 9], player: *f }, [&c.a, &c.b], &mut memo)).collect();
        if let (Some(x), Some(y)) = (x[0], x[1]) {
            for (k, p, q, who) in [(w1, x.0, y.0, 1), (w2, x.1, y.1, 2)] {
                let sd = (200.0 * (p * (1.0 - p) + q * (1.0 - q))).max(0.0).sqrt();
                let want = 200.0 * (p + q);
                let slack = if sd < 1e-3 { 1e-3 } else { FAR * sd + 8.0 };
                ensure!((k as f64 - want).abs() <= slack, "agents", "{:?} against {:?}: player {} won {} games, {:.1} are to be expected", c.a, c.b, who, k, want);
            }
            o.class("result known");
        }
    }
    o.class(format!("{} against {}", c.a.name(), c.b.name()));
    o.class_if(c.earlier % 3 > 0, "earlier games in the directory");
    o.nontrivial(format!("{:?}", c));
    o.sample(|| format!("{:?}: {} - {} - {}", c, w1, w2, dr));
    Ok(())
}

/// Requests that cannot be met leave nothing behind.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Wrong {
    NoAgentOne,
    NoAgentTwo,
    UnknownAgent(u8),
    NoOutput,
    OutputMissing,
    OutputIsFile,
    ModelMissing,
    ModelIsNone,
    NoConfig,
    NoTemperature,
}

fn refused(c: &(Wrong, bool), o: &mut Obs) -> Res {
    let dir = Dir::new();
    let w = dir.path();
    std::fs::create_dir_all(w.join("out")).unwrap();
    std::fs::write(w.join("file"), "x").unwrap();
    let text = glue::config_text(&Mc { iterations: 1, ..Mc::default() }, &Az::default());
    let text = if let Wrong::NoTemperature = c.0 { text.replace("temperature", "warmth") } else { text };
    if !matches!(c.0, Wrong::NoConfig) {
        std::fs::write(w.join("conf"), text).unwrap();
    }
    let (mut a, mut b, mut out) = (Some("random"), Some("mcts"), Some("out"));
    let mut more: Vec<String> = vec![];
    match c.0 {
        Wrong::NoAgentOne => a = None,
        Wrong::NoAgentTwo => b = None,
        Wrong::UnknownAgent(k) => {
            let x = ["human", "", "none", "rand", "random ", "models"][k as usize % 6];
            if c.1 { a = Some(x) } else { b = Some(x) }
        }
        Wrong::NoOutput => out = None,
        Wrong::OutputMissing => out = Some("nowhere"),
        Wrong::OutputIsFile => out = Some("file"),
        Wrong::ModelMissing => {
            if c.1 { a = Some("model") } else { b = Some("model") }
            more = vec![if c.1 { "--model-path-one" } else { "--model-path-two" }.into(), "nowhere.ot".into()];
        }
        Wrong::ModelIsNone => {
            if c.1 { a = Some("model") } else { b = Some("model") }
        }
        Wrong::NoConfig | Wrong::NoTemperature => {}
    }
    let mut args = head::<TicTacToe>();
    args.push("play".into());
    for (k, v) in [("--agent-one", a), ("--agent-two", b), ("--output-path", out)] {
        if let Some(v) = v {
            args.push(k.into());
            args.push(v.into());
        }
    }
    args.extend(more);
    let before = dir.files();
    let r = child::run(&child::cli(), &args, w, 1, "", 100);
    ensure!(!r.timeout, "hang", "{:?} does not end", args);
    ensure!(!r.ok(), "accepted", "{:?} is accepted", args);
    ensure!(dir.files() == before, "accepted", "{:?} is refused but leaves {:?}", args, dir.files());
    o.class(format!("{:?}", c.0).split('(').next().unwrap_or(""));
    o.nontrivial(format!("{:?}", c));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Rec<P> {
    id: String,
    agents: (u8, u8, u8),
    start: P,
    turns: Vec<(Option<(u8, u8)>, u8)>,
    seed: u64,
}

const AGENTS: [&str; 4] = ["Random", "Mcts", "Model", "None"];

fn replay<P: Posn>(r: &Rec<P>, o: &mut Obs) -> Res {
    let dir = Dir::new();
    let w = dir.path();
    let name = |x: u8| AGENTS[x as usize % 4];
    let state = r.start.game();
    let v = json!({
        "id": r.id, "player1": name(r.agents.0), "player2": name(r.agents.1), "winner": name(r.agents.2), "initial_state": state,
        "turns": r.turns.iter().map(|t| json!({ "roll": t.0, "player": name(t.1), "action": Vec::<P::G>::new() })).collect::<Vec<_>>(),
    });
    let g: Game<P::G> = match serde_json::from_value(v) {
        Ok(g) => g,
        Err(e) => return fail("record", format!("a record is not accepted: {}", e)),
    };
    save_game(&g, w.to_str().unwrap()).unwrap();
    std::fs::write(w.join("conf"), glue::config_text(&Mc::default(), &Az::default())).unwrap();
    let mut args = head::<P::G>();
    args.extend(["replay".to_string(), if r.seed & 1 == 0 { "--game-path" } else { "-g" }.into(), format!("./{}.json", r.id)]);
    let before = files(&dir, "");
    let out = child::run(&child::cli(), &args, w, r.seed, &"\n".repeat(r.turns.len() + 1), 60);
    ensure!(!out.timeout, "hang", "replay does not end");
    ensure!(out.ok(), "panic", "replay fails: {}", out.tail());
    ensure!(files(&dir, "") == before, "changed", "replay changed the files");
    let text = &out.stdout;
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.iter().any(|l| l.contains(&r.id)), "identifier", "replay does not show the identifier {:?}: {}", r.id, text);
    let at = |part: &str| lines.iter().find_map(|l| l.find(part).map(|i| l[i + part.len()..].trim_start_matches(':').trim_start().to_string()));
    for (t, a) in [("Player 1", r.agents.0), ("Player 2", r.agents.1), ("winner", r.agents.2)] {
        let s = at(t).unwrap_or_default();
        ensure!(s.starts_with(name(a)), "players", "replay shows {:?} behind {:?}, the record says {}", s, t, name(a));
    }
    let pic = sut("to_pretty_str", || state.to_pretty_str())?;
    let pos = match text.find(pic.trim_end()) {
        Some(p) => p,
        None => return fail("start", format!("replay does not show the starting position {}", state.show())),
    };
    // the turns, in order
    let mut rest = &text[pos + pic.trim_end().len()..];
    for (i, t) in r.turns.iter().enumerate() {
        for s in [format!("Player: {}", name(t.1)), format!("Roll: {:?}", t.0)] {
            match rest.find(&s) {
                Some(p) => rest = &rest[p + s.len()..],
                None => return fail("turns", format!("replay does not show turn {} of {} ({})", i, r.turns.len(), s)),
            }
        }
        o.eval();
    }
    ensure!(rest.matches("Action:").count() <= 1, "turns", "replay shows more than the {} turns of the record", r.turns.len());
    // no such file
    let mut a2 = head::<P::G>();
    a2.extend(["replay".to_string(), "--game-path".into(), "./nowhere.json".into()]);
    ensure!(!child::run(&child::cli(), &a2, w, 1, "", 60).ok(), "accepted", "a record that does not exist is replayed");
    o.class_if(!r.turns.is_empty(), "with turns");
    o.nontrivial(r);
    o.sample(|| format!("{:?}", r));
    Ok(())
}

fn rec<P: Posn>(s: impl Strategy<Value = P> + 'static) -> impl Strategy<Value = Rec<P>> {
    ("[A-Za-z0-9_-]{21}", (0u8..4, 0u8..4, 0u8..4), s, prop_oneof![5 => vec(turn(), 0..6), 1 => vec(turn(), 60..400)], any::<u64>()).prop_map(|(id, agents, start, turns, seed)| Rec { id, agents, start, turns, seed })
}

fn turn() -> impl Strategy<Value = (Option<(u8, u8)>, u8)> + Clone {
    (proptest::option::of((1u8..=6, 1u8..=6)), 0u8..4)
}

fn main() {
    let mut p = Prop::new("C31", "distinct matches and replayed records")
        .assume("with random players the totals are judged at a score of 7 against the exact chances");
    let side = || prop_oneof![2 => Just(Side::Random), 1 => Just(Side::Mcts), 3 => Just((0u8..9).collect::<Vec<_>>()).prop_shuffle().prop_map(Side::Model)];
    let case = move || {
        (side(), side(), prop_oneof![2 => Just(1u32), 1 => 2u32..10], 0.05f64..2.0, any::<u8>(), any::<u8>(), any::<bool>(), 0u8..4, any::<u64>())
            .prop_map(|(a, b, iterations, temp, style, earlier, spare_models, layout, seed)| Case { a, b, iterations, temp, style, earlier, spare_models, layout, seed })
    };
    p.family_opts("tictactoe", (120, 4_000), 12, case(), play::<TicTacToe>);
    let bg = case().prop_map(|c| {
        let f = |s: Side| if s == Side::Mcts { s } else { Side::Random };
        Case { a: f(c.a), b: f(c.b), iterations: 1, ..c }
    });
    p.family_opts("backgammon", (16, 200), 1, bg, play::<Backgammon>);
    let wrong = prop_oneof![Just(Wrong::NoAgentOne), Just(Wrong::NoAgentTwo), any::<u8>().prop_map(Wrong::UnknownAgent), Just(Wrong::NoOutput), Just(Wrong::OutputMissing), Just(Wrong::OutputIsFile), Just(Wrong::ModelMissing), Just(Wrong::ModelIsNone), Just(Wrong::NoConfig), Just(Wrong::NoTemperature)];
    p.family_opts("refused", (64, 400), 6, (wrong, any::<bool>()), refused);
    p.family_opts("replay-tictactoe", (120, 5_000), 30, rec::<TPos>(tpos()), replay::<TPos>);
    p.family_opts("replay-backgammon", (120, 5_000), 30, rec::<Pos>(gen::position()), replay::<Pos>);
    p.finish()
}
