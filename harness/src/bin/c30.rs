//! C30: the train command uses exactly the selected data.
use die_e::base::LearnableGame;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use tch::Tensor;
use vh::bg::Pos;
use vh::child;
use vh::glue::{Az, Mc};
use vh::optim::*;
use vh::samples::*;
use vh::ttt::TPos;
use vh::{ensure, fail, glue, sut, Obs, Prop, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leaf<P> {
    other_game: bool,
    run: u8,
    lrn: u8,
    sp: u8,
    samples: Vec<Samp<P>>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Pick {
    All,
    Run,
    Learn,
    SelfPlay,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Wrong {
    NoSuchRun,
    NoSuchLearn,
    NoSuchSelfPlay,
    LearnAlone,
    SelfPlayAlone,
    RunAndSelfPlay,
    LearnAndSelfPlay,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case<P> {
    leaves: Vec<Leaf<P>>,
    pick: Pick,
    which: u8,
    wrong: Option<Wrong>,
    litter: u8,
    lr: f64,
    wd: f64,
    epochs: u32,
    policy: f64,
    value: f64,
    /// start from the best model there is
    best: bool,
    out: u8,
    short: bool,
    seed: u64,
}

/// Identifiers as nanoid makes them; some are prefixes of others.
const IDS: [&str; 12] = ["V1StGXR8_Z5jdHi6B-myT", "V1StGXR8_Z5jdHi6B-my", "a", "sp-0", "lrn-1", "run-a", "_1StGXR8_Z5jdHi6B-myT", "-asp-XR8_Z5jdHi6B-lrn", "__", "0", "Asp-0", "v1stgxr8_z5jdhi6b-myt"];
const IDX: [u8; 5] = [0, 1, 2, 10, 11];

fn id(x: u8) -> &'static str {
    IDS[x as usize % IDS.len()]
}
fn idx(x: u8) -> u8 {
    IDX[x as usize % IDX.len()]
}

fn name(d: bool) -> &'static str {
    if d { "tictactoe" } else { "backgammon" }
}

fn leaf_path<P>(det: bool, l: &Leaf<P>) -> String {
    format!("data/{}/run-{}/lrn-{}/sp-{}", name(det != l.other_game), id(l.run), idx(l.lrn), idx(l.sp))
}

fn store<P: Posn>(s: &[Samp<P>], p: &Path) -> Res {
    std::fs::create_dir_all(p).unwrap();
    // as save_training_data lays them out
    let f = fragments(s);
    let ps = Tensor::stack(&f.iter().map(|m| m.ps.shallow_clone()).collect::<Vec<_>>(), 0);
    let st = Tensor::concat(&f.iter().map(|m| m.state.shallow_clone()).collect::<Vec<_>>(), 0);
    let z = Tensor::from_slice(&f.iter().map(|m| m.outcome).collect::<Vec<i8>>());
    sut("storing", || {
        ps.save(p.join("ps.ot")).unwrap();
        st.save(p.join("states.ot")).unwrap();
        z.save(p.join("outcomes.ot")).unwrap();
    })
}

fn train<P: Posn>(c: &Case<P>, o: &mut Obs) -> Res {
    let det = P::G::IS_DETERMINISTIC;
    let dir = Dir::new();
    let w = dir.path();
    std::fs::create_dir_all(w.join(format!("data/{}", name(det)))).unwrap();
    // later leaves in the same place are dropped
    let mut leaves: Vec<&Leaf<P>> = vec![];
    for l in &c.leaves {
        if !leaves.iter().any(|k| leaf_path(det, k) == leaf_path(det, l)) {
            store(&l.samples, &w.join(leaf_path(det, l)))?;
            leaves.push(l);
        }
    }
    let own: Vec<&&Leaf<P>> = leaves.iter().filter(|l| !l.other_game).collect();
    // things that are no training data
    let base = w.join(format!("data/{}", name(det)));
    if c.litter & 1 != 0 {
        std::fs::write(base.join("sp-notes.txt"), "x").unwrap();
        std::fs::write(base.join("README"), "x").unwrap();
    }
    if c.litter & 2 != 0 {
        std::fs::create_dir_all(base.join("run-empty/lrn-0")).unwrap();
    }
    if c.litter & 4 != 0 {
        if let Some(l) = own.first() {
            std::fs::write(w.join(leaf_path(det, l)).parent().unwrap().join("sp-77"), "x").unwrap();
            std::fs::create_dir_all(w.join(leaf_path(det, l)).join("notes")).unwrap();
        }
    }
    // the starting model
    let net = glue::net::<P::G>();
    glue::sharpen::<P::G>(&net.vs, c.policy, c.value);
    let start = glue::snapshot(&net.vs);
    let models = w.join(format!("models/{}", name(det)));
    let mut args: Vec<String> = vec!["--game".into(), if det { "tic-tac-toe" } else { "backgammon" }.into(), "--config".into(), "conf".into(), "--n-cpus".into(), (1 + c.seed % 3).to_string(), "train".into()];
    let mut push = |k: &str, v: String| args.push(format!("--{}={}", k, v));
    if c.best {
        std::fs::create_dir_all(&models).unwrap();
        net.vs.save(models.join("best_model.ot")).unwrap();
    } else {
        net.vs.save(w.join("start.ot")).unwrap();
        push("model-path", "start.ot".into());
        if c.seed & 4 == 0 && det {
            // must not be taken
            std::fs::create_dir_all(&models).unwrap();
            glue::net::<P::G>().vs.save(models.join("best_model.ot")).unwrap();
        }
    }
    let out: PathBuf = match c.out % 6 {
        0 => models.join("trained_model.ot"),
        1 => w.join("mine.ot"),
        2 => w.join("some/where.ot"),
        3 => w.join("model.v2"),
        4 => w.join("plain"),
        _ => w.join("some.dir/weights.safetensors"),
    };
    if c.out % 6 != 0 {
        std::fs::create_dir_all(out.parent().unwrap()).unwrap();
        push("out-path", if c.out & 128 != 0 { out.display().to_string() } else { out.strip_prefix(w).unwrap().display().to_string() });
    }
    // the selection
    let (mut run, mut lrn, mut sp) = (None, None, None);
    let mut selected: Vec<&Leaf<P>> = vec![];
    let chosen = if own.is_empty() { None } else { Some(own[c.which as usize % own.len()]).map(|l| (l.run, l.lrn, l.sp)) };
    let pick = if chosen.is_none() { Pick::All } else { c.pick };
    if let Some((r, l, s)) = chosen {
        let same = |x: &Leaf<P>, n: u8| (n < 1 || id(x.run) == id(r)) && (n < 2 || idx(x.lrn) == idx(l)) && (n < 3 || idx(x.sp) == idx(s));
        let n = pick as u8;
        selected = own.iter().map(|l| **l).filter(|x| same(x, n)).collect();
        if n >= 1 {
            run = Some(id(r).to_string())
        }
        if n >= 2 {
            lrn = Some(idx(l).to_string())
        }
        if n >= 3 {
            sp = Some(idx(s).to_string())
        }
    }
    if let Some(wr) = c.wrong {
        let (r, l, s) = chosen.map_or(("a".to_string(), "0".to_string(), "0".to_string()), |(r, l, s)| (id(r).to_string(), idx(l).to_string(), idx(s).to_string()));
        (run, lrn, sp) = match wr {
            Wrong::NoSuchRun => (Some("V1StGXR8_Z5jd".into()), None, None),
            Wrong::NoSuchLearn => (Some(r), Some("100".into()), None),
            Wrong::NoSuchSelfPlay => (Some(r), Some(l), Some("100".into())),
            Wrong::LearnAlone => (None, Some(l), None),
            Wrong::SelfPlayAlone => (None, None, Some(s)),
            Wrong::RunAndSelfPlay => (Some(r), None, Some(s)),
            Wrong::LearnAndSelfPlay => (None, Some(l), Some(s)),
        };
    }
    for (k, v) in [("run-id", &run), ("learn", &lrn), ("self-play", &sp)] {
        if let Some(v) = v {
            push(k, v.clone());
        }
    }
    if c.short {
        for a in args.iter_mut() {
            for (l, s) in [("--run-id=", "-r"), ("--learn=", "-l"), ("--self-play=", "-s"), ("--out-path=", "-o"), ("--model-path=", "-m")] {
                if let Some(v) = a.strip_prefix(l) {
                    *a = format!("{}{}", s, v);
                    break;
                }
            }
        }
    }
    let want: Vec<&Samp<P>> = selected.iter().flat_map(|l| l.samples.iter()).collect();
    let az = Az { epochs: c.epochs, batch: 1000, lr: c.lr, wd: c.wd, ..Az::default() };
    std::fs::write(w.join("conf"), glue::config_text(&Mc::default(), &az)).unwrap();
    let before: Vec<(String, Vec<u8>)> = dir.files().into_iter().map(|f| (f.clone(), std::fs::read(w.join(&f)).unwrap())).collect();
    let res = child::run(&child::cli(), &args, w, c.seed, "", 220);
    ensure!(!res.timeout, "hang", "training does not end");
    // nothing but the new model changes
    for (f, b) in &before {
        ensure!(std::fs::read(w.join(f)).ok().as_ref() == Some(b), "changed", "training changed {}", f);
    }
    let new: Vec<String> = dir.files().into_iter().filter(|f| !before.iter().any(|b| &b.0 == f)).collect();
    let sel = format!("run {:?} learn {:?} self-play {:?}", run, lrn, sp);
    if let Some(wr) = c.wrong {
        ensure!(!res.ok(), "accepted", "the selection {} is accepted, the directories are {:?}", sel, leaves.iter().map(|l| leaf_path(det, l)).collect::<Vec<_>>());
        ensure!(new.is_empty(), "accepted", "the selection {} is refused, but {:?} appeared", sel, new);
        o.class(format!("{:?} refused", wr));
        return Ok(());
    }
    ensure!(res.ok(), "refused", "the selection {} is refused: {}", sel, res.tail());
    ensure!(new == [out.strip_prefix(w).unwrap().display().to_string()], "output", "{:?} appeared instead of {}", new, out.display());
    let count = res.stdout.lines().find_map(|l| l.strip_prefix("Total memory fragments: ")).and_then(|n| n.trim().parse::<usize>().ok());
    if let Some(n) = count {
        ensure!(n == want.len(), "count", "{}: {} samples used, the selection holds {}", sel, n, want.len());
        o.class("number of samples announced");
    }
    let mut got = glue::net::<P::G>();
    if let Err(e) = got.vs.load(&out) {
        return fail("output", format!("the trained model cannot be read: {}", e.to_string().chars().take(200).collect::<String>()));
    }
    let got = glue::snapshot(&got.vs);
    if want.is_empty() {
        if let Some(d) = glue::same_vars(&start, &got) {
            return fail("trained", format!("{}: there is nothing to train on, but {}", sel, d));
        }
        o.class("nothing selected");
        return Ok(());
    }
    let batch: Vec<(Tensor, Vec<f32>, i8)> = want.iter().map(|s| (s.pos.game().as_tensor().squeeze_dim(0), s.target(P::G::ACTION_SPACE_SIZE), s.outcome)).collect();
    let step = |shake: bool| {
        let mut m = Model::new::<P::G>(&start, c.lr, c.wd);
        if shake {
            m.shake();
        }
        m.step(&batch);
        glue::snapshot(&m.net.vs)
    };
    let base = step(false);
    let d = distance(&got, &base, c.lr, 1);
    if d.0 > TOL && (0..5).any(|_| distance(&base, &step(true), c.lr, 1).0 > TOL / 10.0) {
        o.class("ill-conditioned, left out");
        return Ok(());
    }
    ensure!(d.0 <= TOL, "trained", "{}: the written model is not the {} one trained once on the {} selected of {} samples: {} is off by {:.4} learning rates", sel, if c.best { "best" } else { "given" }, want.len(), own.iter().map(|l| l.samples.len()).sum::<usize>(), d.1, d.0);
    o.class(format!("{:?}", pick));
    o.class_if((1..want.len()).any(|i| want[..i].contains(&want[i])), "equal samples");
    o.class_if(selected.len() < own.len(), "part of the data");
    o.class_if(leaves.iter().any(|l| l.other_game), "data of the other game around");
    o.class_if(c.best, "from the best model");
    o.nontrivial(format!("{:?}", c));
    o.sample(|| format!("{}: {} of {} directories, {} samples; lr {}; {} by {:.5}", sel, selected.len(), leaves.len(), want.len(), c.lr, d.1, d.0));
    o.eval();
    Ok(())
}

fn case<P: Posn>(s: impl Strategy<Value = Samp<P>> + 'static, leaves: usize, samples: usize) -> impl Strategy<Value = Case<P>> {
    let leaf = (prop::bool::weighted(0.2), 0u8..12, any::<u8>(), any::<u8>(), vec(s, 1..samples)).prop_map(|(other_game, run, lrn, sp, samples)| Leaf { other_game, run, lrn, sp, samples });
    // few runs, so that they hold several iterations
    let leaf = (leaf, any::<bool>()).prop_map(|(mut l, b)| {
        if b {
            l.run %= 2;
            l.lrn %= 2;
        }
        l
    });
    let pick = prop::sample::select(vec![Pick::All, Pick::Run, Pick::Run, Pick::Learn, Pick::Learn, Pick::SelfPlay]);
    let wrong = prop_oneof![3 => Just(None), 1 => prop::sample::select(vec![Wrong::NoSuchRun, Wrong::NoSuchLearn, Wrong::NoSuchSelfPlay, Wrong::LearnAlone, Wrong::SelfPlayAlone, Wrong::RunAndSelfPlay, Wrong::LearnAndSelfPlay]).prop_map(Some)];
    let wd = prop_oneof![Just(0.0f64), 1e-3f64..0.5];
    (vec(leaf, 0..leaves), (pick, any::<u8>(), wrong, any::<u8>()), (1e-4f64..1e-2, wd, 0u32..4, 0.3f64..5.0, 0.3f64..5.0), (any::<bool>(), any::<u8>(), any::<bool>(), any::<u64>()))
        .prop_map(|(mut leaves, (pick, which, wrong, litter), (lr, wd, epochs, policy, value), (best, out, short, seed))| {
            // games often reach the same position with the same result: equal samples count each
            let copies: Vec<Samp<P>> = leaves.iter().flat_map(|l| l.samples.first().cloned()).take(2).collect();
            for (i, l) in leaves.iter_mut().enumerate() {
                if (which as usize >> (i % 7)) & 1 == 1 && !copies.is_empty() {
                    l.samples.push(copies[i % copies.len()].clone());
                    l.samples.push(copies[i % copies.len()].clone());
                }
            }
            Case { leaves, pick, which, wrong, litter, lr, wd, epochs, policy, value, best, out, short, seed }
        })
}

fn main() {
    let mut p = Prop::new("C30", "distinct trees and selections whose training was computed again")
        .assume("all selected samples fit into one batch; selections where rounding decides the step are left out");
    p.family_opts("tictactoe", (320, 8_000), 40, case(tsamp(), 12, 6), train::<TPos>);
    p.family_opts("backgammon", (4, 80), 1, case(bsamp(), 3, 3).prop_map(|c: Case<Pos>| Case { wrong: None, ..c }), train::<Pos>);
    p.finish()
}
