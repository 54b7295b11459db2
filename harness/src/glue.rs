//! Between the reference models and the system under test.
use crate::bg::{Pos, RawBoard};
use crate::ttt::TPos;
use config::Config;
use die_e::alphazero::alphazero::{AlphaZero, AlphaZeroConfig, OptimizerParams};
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::MctsConfig;
use serde::{Deserialize, Serialize};
use tch::{nn::VarStore, Device, Kind, Tensor};

pub fn bgame(p: &Pos) -> Backgammon {
    Backgammon { board: p.board, roll: p.roll, player: p.player, is_second_play: p.second, id: 0 }
}

pub fn pos_of(g: &Backgammon) -> Pos {
    Pos { board: g.board, player: g.player, roll: g.roll, second: g.is_second_play }
}

pub fn tgame(p: &TPos) -> TicTacToe {
    let mut t = TicTacToe::new();
    if t.get_player() != p.player {
        t.skip_turn();
    }
    t.board = p.board;
    t
}

pub fn tpos_of(t: &TicTacToe) -> TPos {
    TPos { board: t.board, player: t.get_player() }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Mc {
    pub iterations: u32,
    pub c: f64,
    pub limit: u64,
    pub alpha: f64,
    pub eps: f64,
}

impl Default for Mc {
    fn default() -> Self {
        Mc { iterations: 10, c: 1.5, limit: 400, alpha: 0.3, eps: 0.0 }
    }
}

impl Mc {
    pub fn build(&self) -> MctsConfig {
        MctsConfig::from_config(&self.config()).expect("mcts config")
    }
    pub fn config(&self) -> Config {
        full_config(self, &Az::default())
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Az {
    pub temperature: f64,
    pub learn: u32,
    pub selfplay: u32,
    pub epochs: u32,
    pub batch: u32,
    pub games: u32,
    pub wd: f64,
    pub lr: f64,
}

impl Default for Az {
    fn default() -> Self {
        Az { temperature: 1.0, learn: 1, selfplay: 1, epochs: 1, batch: 16, games: 2, wd: 0.0, lr: 0.001 }
    }
}

pub fn config_text(m: &Mc, a: &Az) -> String {
    format!(
        "temperature = {:?}\nlearn_iterations = {}\nnum_epochs = {}\ntraining_batch_size = {}\nself_play_iterations = {}\nnum_self_play_batches = {}\niterations = {}\nexploration_const = {:?}\nsimulate_round_limit = {}\ndirichlet_alpha = {:?}\ndirichlet_epsilon = {:?}\nwd = {:?}\nlr = {:?}\n",
        a.temperature, a.learn, a.epochs, a.batch, a.selfplay, a.games, m.iterations, m.c, m.limit, m.alpha, m.eps, a.wd, a.lr
    )
}

pub fn parse_config(text: &str) -> Config {
    Config::builder()
        .add_source(config::File::from_str(text, config::FileFormat::Toml))
        .build()
        .expect("config text")
}

pub fn full_config(m: &Mc, a: &Az) -> Config {
    parse_config(&config_text(m, a))
}

pub fn learner<T: LearnableGame>(m: &Mc, a: &Az) -> AlphaZero {
    let c = full_config(m, a);
    AlphaZero::new::<T>(
        None,
        AlphaZeroConfig::from_config(&c).unwrap(),
        MctsConfig::from_config(&c).unwrap(),
        OptimizerParams::from_config(&c).unwrap(),
    )
}

pub fn net<T: LearnableGame>() -> ResNet {
    crate::must("ResNet::new", || ResNet::new::<T>(VarStore::new(Device::Cpu)))
}

/// The parameters of the last linear layers: (policy weight, policy bias, value weight, value bias).
pub fn heads<T: LearnableGame>(vs: &VarStore) -> (Tensor, Tensor, Tensor, Tensor) {
    let (mut pw, mut pb, mut vw, mut vb): (Option<Tensor>, _, _, _) = (None, None, None, None);
    if T::ACTION_SPACE_SIZE == 1 {
        // the heads look alike: the policy's reads more; it answers 1 in any case, so that both biases may serve as the value's
        let bias: Vec<Tensor> = vs.variables().into_values().filter(|t| t.size() == [1]).collect();
        let mut w: Vec<Tensor> = vs.variables().into_values().filter(|t| t.size().len() == 2 && t.size()[0] == 1).collect();
        w.sort_by_key(|t| -t.size()[1]);
        assert!(w.len() == 2 && bias.len() == 2, "heads");
        return (w.remove(0), bias[0].shallow_clone(), w.remove(0), bias[1].shallow_clone());
    }
    for (_, t) in vs.variables() {
        let s = t.size();
        if s.len() == 2 && s[0] == T::ACTION_SPACE_SIZE {
            pw = Some(t)
        } else if s.len() == 2 && s[0] == 1 {
            vw = Some(t)
        } else if s == [T::ACTION_SPACE_SIZE] {
            pb = Some(t)
        } else if s == [1] {
            vb = Some(t)
        }
    }
    (pw.expect("policy weight"), pb.expect("policy bias"), vw.expect("value weight"), vb.expect("value bias"))
}

/// Makes the network answer the same policy (softmax of `logits`) and value everywhere.
pub fn fix_heads<T: LearnableGame>(vs: &VarStore, logits: &[f32], value: f64) {
    let _g = tch::no_grad_guard();
    let (mut pw, mut pb, mut vw, mut vb) = heads::<T>(vs);
    let _ = pw.zero_();
    let _ = vw.zero_();
    pb.copy_(&if logits.len() == 1 { Tensor::from_slice(&[value.atanh() as f32]) } else { Tensor::from_slice(logits) });
    vb.copy_(&Tensor::from_slice(&[value.atanh() as f32]));
}

/// Spreads the answers of the network over positions.
pub fn sharpen<T: LearnableGame>(vs: &VarStore, policy: f64, value: f64) {
    let _g = tch::no_grad_guard();
    let (mut pw, mut pb, mut vw, mut vb) = heads::<T>(vs);
    let _ = pw.g_mul_scalar_(policy);
    let _ = pb.g_mul_scalar_(if T::ACTION_SPACE_SIZE == 1 { value } else { policy });
    let _ = vw.g_mul_scalar_(value);
    let _ = vb.g_mul_scalar_(value);
}

/// Gives every running statistic and affine parameter of the normalisation layers some random content.
pub fn roughen(vs: &VarStore) {
    let _g = tch::no_grad_guard();
    for (n, mut t) in vs.variables() {
        if n.contains("running_mean") {
            let r = Tensor::rand_like(&t) * 0.4 - 0.2;
            t.copy_(&r);
        } else if n.contains("running_var") {
            let r = Tensor::rand_like(&t) * 1.0 + 0.5;
            t.copy_(&r);
        } else if t.size().len() == 1 {
            let r = &t + (Tensor::rand_like(&t) * 0.2 - 0.1);
            t.copy_(&r);
        }
    }
}

pub fn vecf(t: &Tensor) -> Vec<f32> {
    let t = t.to_kind(Kind::Float).contiguous().view([-1]);
    Vec::<f32>::try_from(&t).expect("tensor to vec")
}

pub fn veci(t: &Tensor) -> Vec<i64> {
    let t = t.to_kind(Kind::Int64).contiguous().view([-1]);
    Vec::<i64>::try_from(&t).expect("tensor to vec")
}

/// Snapshot of every variable (buffers included), by name.
pub fn snapshot(vs: &VarStore) -> std::collections::BTreeMap<String, Tensor> {
    vs.variables().into_iter().map(|(k, v)| (k, v.detach().copy())).collect()
}

pub fn same_vars(a: &std::collections::BTreeMap<String, Tensor>, b: &std::collections::BTreeMap<String, Tensor>) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} variables against {}", a.len(), b.len()));
    }
    for (k, v) in a {
        match b.get(k) {
            Some(w) if v.size() == w.size() && v.equal(w) => {}
            Some(_) => return Some(format!("variable {} differs", k)),
            None => return Some(format!("variable {} is missing", k)),
        }
    }
    None
}

pub fn conserved(b: &RawBoard) -> bool {
    crate::bg::total(b, 1) == 15 && crate::bg::total(b, -1) == 15
}
