//! C10: saved games read back unchanged.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{load_all_games, load_game, save_game, Agent, Game};
use proptest::collection::vec;
use proptest::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vh::bg::*;
use vh::ttt::TPos;
use vh::{ensure, gen, glue, scratch, sut, Obs, Prop, Res};

const AGENTS: [&str; 4] = ["Random", "Mcts", "Model", "None"];

fn agent() -> impl Strategy<Value = u8> + Clone {
    0u8..4
}

fn ident() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        3 => "[A-Za-z0-9_-]{21}",
        1 => "[A-Za-z0-9_-]{1,4}",
        1 => Just("a.json".to_string()),
        1 => "[a-z .]{2,8}x",
    ]
}

type Turn = (Option<(u8, u8)>, Vec<Pos>, u8);
type Rec = (String, u8, u8, u8, Pos, Vec<Turn>, u16);

fn rec() -> impl Strategy<Value = Rec> {
    let turn = (proptest::option::of((any::<u8>(), 1u8..=6)), vec(gen::position(), 0..3), agent());
    (ident(), agent(), agent(), agent(), gen::position(), vec(turn, 0..5), any::<u16>())
}

fn value<T: LearnableGame>(r: &Rec, state: &dyn Fn(&Pos, usize) -> T) -> Value {
    json!({
        "id": r.0, "player1": AGENTS[r.1 as usize], "player2": AGENTS[r.2 as usize], "winner": AGENTS[r.3 as usize],
        "initial_state": state(&r.4, r.6 as usize),
        "turns": r.5.iter().map(|t| json!({
            "roll": t.0, "player": AGENTS[t.2 as usize],
            "action": t.1.iter().map(|p| state(p, 3)).collect::<Vec<_>>() })).collect::<Vec<_>>(),
    })
}

fn same<T: LearnableGame>(g: &Game<T>, v: &Value) -> bool {
    // compared as written records: every public and private part
    serde_json::to_value(g).unwrap() == *v && format!("{:?}", g.winner) == v["winner"].as_str().unwrap() && g.turns.len() == v["turns"].as_array().unwrap().len()
}

fn run<T: LearnableGame>(recs: &[Rec], noise: &[u8], state: &dyn Fn(&Pos, usize) -> T, o: &mut Obs) -> Res {
    let dir = scratch().join("games");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let d = dir.to_str().unwrap();
    // files that are not games
    for n in noise {
        match n % 6 {
            0 => std::fs::write(dir.join("notes.txt"), "hello").unwrap(),
            1 => std::fs::write(dir.join("README"), "{}").unwrap(),
            2 => std::fs::write(dir.join("old.json.bak"), "not json").unwrap(),
            3 => std::fs::create_dir_all(dir.join("sub.json")).unwrap(),
            4 => { std::fs::create_dir_all(dir.join("more")).unwrap(); std::fs::write(dir.join("more/x.json"), "{}").unwrap() }
            _ => std::fs::write(dir.join("json"), "").unwrap(),
        }
    }
    let before: BTreeSet<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name()).collect();
    let mut want: BTreeMap<String, Value> = BTreeMap::new();
    for r in recs {
        let v = value(r, state);
        let g: Game<T> = match serde_json::from_value(v.clone()) {
            Ok(g) => g,
            Err(e) => return vh::fail("record", format!("a record is not accepted: {} {}", e, v)),
        };
        ensure!(same(&g, &v), "record", "the record {} becomes {:?}", v, g);
        let res = sut("save_game", || save_game(&g, d).map_err(|e| e.to_string()))?;
        ensure!(res.is_ok(), "save", "saving {} failed: {:?}", r.0, res);
        want.insert(r.0.clone(), v);
        o.eval();
        // every game saved so far is still there
        for (id, v) in &want {
            let path = dir.join(format!("{}.json", id));
            ensure!(path.is_file(), "file-name", "no file {:?} after saving the game {}", path, id);
            let l = sut("load_game", || load_game::<T>(path.clone()).map_err(|e| e.to_string()))?;
            match l {
                Ok(l) => ensure!(same(&l, v), "changed", "the game {} reads back as {:?}", v, l),
                Err(e) => return vh::fail("load", format!("game {} cannot be read back: {}", id, e)),
            }
        }
    }
    let after: BTreeSet<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name()).collect();
    let names: BTreeSet<_> = want.keys().map(|k| std::ffi::OsString::from(format!("{}.json", k))).chain(before).collect();
    ensure!(after == names, "files", "files after saving: {:?}, expected {:?}", after, names);
    let all = sut("load_all_games", || load_all_games::<T>(dir.clone()).map_err(|e| e.to_string()))?;
    match all {
        Ok(all) => {
            ensure!(all.len() == want.len(), "load-all", "{} games loaded of {}", all.len(), want.len());
            for v in want.values() {
                ensure!(all.iter().any(|g| same(g, v)), "load-all", "game {} is missing from the loaded directory", v["id"]);
            }
        }
        Err(e) => return vh::fail("load-all", format!("the directory cannot be loaded: {}", e)),
    }
    let _ = std::fs::remove_dir_all(&dir);
    o.class(format!("{} games", want.len()));
    o.class_if(recs.len() > want.len(), "a game saved again");
    o.class_if(!noise.is_empty(), "other files in the directory");
    if !want.is_empty() {
        o.nontrivial(serde_json::to_string(&want).unwrap());
    }
    o.sample(|| format!("{:?} in a directory with {} other files", want.keys().collect::<Vec<_>>(), noise.len()));
    Ok(())
}

/// A record of many turns: those of the given record over and over.
fn long<T: LearnableGame>(c: &(Rec, usize, Rec), state: &dyn Fn(&Pos, usize) -> T, o: &mut Obs) -> Res {
    let (mut r, n, other) = c.clone();
    if r.5.is_empty() {
        return Ok(());
    }
    r.5 = (0..n).map(|i| r.5[(i * 7 + i / 3) % r.5.len()].clone()).collect();
    o.class(format!("{} turns", if n > 1000 { "1000+" } else if n > 100 { "101 to 1000" } else { "at most 100" }));
    run(&[r, other], &[], state, &mut *o)
}

/// Many games in one directory.
fn crowd<T: LearnableGame>(c: &(Vec<Rec>, usize), state: &dyn Fn(&Pos, usize) -> T, o: &mut Obs) -> Res {
    let dir = scratch().join("crowd");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut want: BTreeMap<String, Value> = BTreeMap::new();
    for i in 0..c.1 {
        let mut r = c.0[i % c.0.len()].clone();
        r.0 = format!("{}{}", i, r.0);
        let v = value(&r, state);
        let g: Game<T> = match serde_json::from_value(v.clone()) {
            Ok(g) => g,
            Err(e) => return vh::fail("record", format!("a record is not accepted: {} {}", e, v)),
        };
        let res = sut("save_game", || save_game(&g, dir.to_str().unwrap()).map_err(|e| e.to_string()))?;
        ensure!(res.is_ok(), "save", "saving {} failed: {:?}", r.0, res);
        want.insert(r.0, v);
    }
    match sut("load_all_games", || load_all_games::<T>(dir.clone()).map_err(|e| e.to_string()))? {
        Ok(all) => {
            ensure!(all.len() == want.len(), "load-all", "{} games loaded of {}", all.len(), want.len());
            let mut seen = BTreeSet::new();
            for g in &all {
                let v = serde_json::to_value(g).unwrap();
                let id = v["id"].as_str().unwrap().to_string();
                ensure!(want.get(&id) == Some(&v) && seen.insert(id.clone()), "load-all", "the game {} was not saved like this, or is loaded twice", id);
            }
        }
        Err(e) => return vh::fail("load-all", format!("the directory cannot be loaded: {}", e)),
    }
    let _ = std::fs::remove_dir_all(&dir);
    o.eval();
    o.class(if c.1 > 400 { "more games than a match" } else { "many games" });
    o.nontrivial((c.1, format!("{:?}", want.keys().next())));
    Ok(())
}

fn bg(p: &Pos, id: usize) -> Backgammon {
    let mut g = glue::bgame(p);
    g.id = id;
    g
}
fn tt(p: &Pos, id: usize) -> TicTacToe {
    let mut g = glue::tgame(&TPos::from_index(vh_index(p), p.player));
    g.set_id(id);
    g
}
fn vh_index(p: &Pos) -> u32 {
    p.board.0.iter().fold(7u32, |h, x| h.wrapping_mul(31).wrapping_add((*x + 16) as u32)) % 19683
}

/// Fresh records: distinct identifiers, nothing played yet, and they survive saving.
fn fresh(c: &(Pos, u8, u8), o: &mut Obs) -> Res {
    let ag = |i: u8| match i { 0 => Agent::Random, 1 => Agent::Mcts, 2 => Agent::Model, _ => Agent::None };
    let dir = scratch().join("fresh");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut ids = BTreeSet::new();
    let n = 40;
    for i in 0..n {
        let g = sut("Game::new", || Game::new(ag(c.1), ag(c.2), bg(&c.0, i)))?;
        let v = serde_json::to_value(&g).unwrap();
        let id = v["id"].as_str().unwrap().to_string();
        let want = json!({"id": id, "player1": AGENTS[c.1 as usize], "player2": AGENTS[c.2 as usize], "winner": "None", "turns": [], "initial_state": bg(&c.0, i)});
        ensure!(v == want, "new-record", "a new game is {} instead of {}", v, want);
        ensure!(!id.is_empty() && !id.contains('/') && ids.insert(id.clone()), "identifier", "identifier {:?} is unusable or used twice", id);
        let r = sut("save_game", || save_game(&g, dir.to_str().unwrap()).map_err(|e| e.to_string()))?;
        ensure!(r.is_ok(), "save", "saving failed: {:?}", r);
    }
    let all = sut("load_all_games", || load_all_games::<Backgammon>(dir.clone()).map_err(|e| e.to_string()))?;
    ensure!(all.as_ref().map(|a| a.len()) == Ok(n), "load-all", "{} games saved, loaded {:?}", n, all.map(|a| a.len()));
    let _ = std::fs::remove_dir_all(&dir);
    o.class("fresh records");
    o.nontrivial(c);
    Ok(())
}

/// Records put together in memory, compared after saving with everything they show of themselves.
fn memory<T: LearnableGame>(c: &(Vec<Rec>, u64), state: &dyn Fn(&Pos, usize) -> T, o: &mut Obs) -> Res {
    let ag = |i: u8| match i { 0 => Agent::Random, 1 => Agent::Mcts, 2 => Agent::Model, _ => Agent::None };
    let dir = scratch().join("memory");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut shown = BTreeMap::new();
    for (k, r) in c.0.iter().enumerate() {
        let tag = |i: usize| ((c.1 >> (i * 7 % 50)) as usize).wrapping_add(i);
        let mut g = sut("Game::new", || Game::new(ag(r.1), ag(r.2), state(&r.4, tag(k))))?;
        for (i, t) in r.5.iter().enumerate() {
            g.turns.push(die_e::versus::Turn { roll: t.0, action: t.1.iter().map(|p| state(p, tag(i + 9))).collect(), player: ag(t.2) });
        }
        g.winner = ag(r.3);
        let id = serde_json::to_value(&g).unwrap()["id"].as_str().unwrap_or("").to_string();
        let r = sut("save_game", || save_game(&g, dir.to_str().unwrap()).map_err(|e| e.to_string()))?;
        ensure!(r.is_ok(), "save", "saving failed: {:?}", r);
        shown.insert(id, format!("{:?}", g));
        o.eval();
    }
    for (id, was) in &shown {
        let l = sut("load_game", || load_game::<T>(dir.join(format!("{}.json", id))).map_err(|e| e.to_string()))?;
        match l {
            Ok(l) => {
                let is = format!("{:?}", l);
                ensure!(is == *was, "changed", "{} reads back as {}", was, is)
            }
            Err(e) => return vh::fail("load", format!("game {} cannot be read back: {}", id, e)),
        }
    }
    let all = sut("load_all_games", || load_all_games::<T>(dir.clone()).map_err(|e| e.to_string()))?;
    match all {
        Ok(all) => {
            let mut got: Vec<String> = all.iter().map(|g| format!("{:?}", g)).collect();
            got.sort();
            let mut want: Vec<String> = shown.values().cloned().collect();
            want.sort();
            ensure!(got == want, "load-all", "the directory holds {:?}, expected {:?}", got, want);
        }
        Err(e) => return vh::fail("load-all", format!("the directory cannot be loaded: {}", e)),
    }
    let _ = std::fs::remove_dir_all(&dir);
    o.class(format!("{} records from memory", c.0.len()));
    o.nontrivial(shown.values().cloned().collect::<String>());
    Ok(())
}

fn main() {
    let mut p = Prop::new("C10", "distinct directories with at least one saved game");
    p.family("backgammon", (1_600, 100_000), (vec(rec(), 0..5), vec(any::<u8>(), 0..4)), |c, o| run::<Backgammon>(&c.0, &c.1, &bg, o));
    p.family("tictactoe", (800, 50_000), (vec(rec(), 0..5), vec(any::<u8>(), 0..4)), |c, o| run::<TicTacToe>(&c.0, &c.1, &tt, o));
    let turns = || prop_oneof![1 => 6usize..100, 2 => 100usize..1000, 1 => 1000usize..5000];
    p.family_opts("long-backgammon", (60, 2_000), 8, (rec(), turns(), rec()), |c, o| long::<Backgammon>(c, &bg, o));
    p.family_opts("long-tictactoe", (60, 2_000), 8, (rec(), turns(), rec()), |c, o| long::<TicTacToe>(c, &tt, o));
    p.family_opts("crowd-backgammon", (8, 200), 4, (vec(rec(), 1..6), 20usize..1500), |c, o| crowd::<Backgammon>(c, &bg, o));
    p.family_opts("crowd-tictactoe", (16, 200), 4, (vec(rec(), 1..6), 20usize..3000), |c, o| crowd::<TicTacToe>(c, &tt, o));
    p.family("fresh", (80, 4_000), (gen::position(), agent(), agent()), fresh);
    p.family("memory-backgammon", (300, 20_000), (vec(rec(), 1..6), any::<u64>()), |c, o| memory::<Backgammon>(c, &bg, o));
    p.family("memory-tictactoe", (200, 10_000), (vec(rec(), 1..6), any::<u64>()), |c, o| memory::<TicTacToe>(c, &tt, o));
    p.finish()
}
