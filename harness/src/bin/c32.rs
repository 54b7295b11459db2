//! C32: any game that implements the interface is served alike. The families of the other checks, on made-up
//! games of other shapes: numbers of actions, channels, rows, filters and blocks, with and without dice.
#![allow(dead_code)]
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use proptest::prelude::*;
use tch::nn::VarStore;
use tch::{Device, Tensor};
use vh::synth::{world, Step, Syn, World};
use vh::{child, ensure, sut, Obs, Prop, Res};

#[path = "c11.rs"]
mod c11;
#[path = "c12.rs"]
mod c12;
#[path = "c13.rs"]
mod c13;
#[path = "c14.rs"]
mod c14;
#[path = "c15.rs"]
mod c15;
#[path = "c16.rs"]
mod c16;
#[path = "c17.rs"]
mod c17;
#[path = "c18.rs"]
mod c18;
#[path = "c21.rs"]
mod c21;
#[path = "c22.rs"]
mod c22;
#[path = "c23.rs"]
mod c23;
#[path = "c24.rs"]
mod c24;
#[path = "c25.rs"]
mod c25;
#[path = "c26.rs"]
mod c26;
#[path = "c28.rs"]
mod c28;

type Single = Syn<1, 2, 3, true>;
type Small = Syn<6, 1, 4, true>;
type Square = Syn<44, 7, 2, true>;
type Odd = Syn<1353, 3, 3, false>;
type Long = Syn<4100, 2, 12, false>;
type Huge = Syn<70000, 1, 2, true>;

fn servant(j: c28::Job) {
    let done = c28::serves::<Single>(&j) || c28::serves::<Small>(&j) || c28::serves::<Square>(&j) || c28::serves::<Odd>(&j) || c28::serves::<Long>(&j) || c28::serves::<Huge>(&j);
    assert!(done, "unknown game");
}

fn all<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    c11::any_game::<A, C, W, D>(p, name, branch, k);
    c12::any_game::<A, C, W, D>(p, name, branch, k);
    c13::any_game::<A, C, W, D>(p, name, branch, k);
    c14::any_game::<A, C, W, D>(p, name, branch, k);
    c15::any_game::<A, C, W, D>(p, name, branch, k);
    c16::any_game::<A, C, W, D>(p, name, branch, k);
    c17::any_game::<A, C, W, D>(p, name, branch, k);
    c18::any_game::<A, C, W, D>(p, name, branch, k);
    c21::any_game::<A, C, W, D>(p, name, branch, k);
    c22::any_game::<A, C, W, D>(p, name, branch, k);
    c23::any_game::<A, C, W, D>(p, name, branch, k);
    c24::any_game::<A, C, W, D>(p, name, branch, k);
    c25::any_game::<A, C, W, D>(p, name, branch, k);
    if A <= 44 {
        c26::any_game::<A, C, W, D>(p, name, branch, k);
    }
    c28::any_game::<A, C, W, D>(p, name, branch, k);
}

/// The same game with networks of other sizes.
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
struct Of<const R: i64, const F: i64>(Syn<9, 3, 9, false>);

impl<const R: i64, const F: i64> LearnableGame for Of<R, F> {
    type Move = Step;
    const EMPTY_MOVE: Step = Step(u32::MAX);
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 9;
    const N_INPUT_CHANNELS: i64 = 3;
    const CONV_OUTPUT_SIZE: i64 = 9;
    const N_FILTERS: i64 = F;
    const N_RES_BLOCKS: i64 = R;
    fn new() -> Self {
        Of(Syn::new())
    }
    fn name() -> String {
        format!("Sized {} {}", R, F)
    }
    fn get_valid_moves(&self) -> Vec<Step> {
        self.0.get_valid_moves()
    }
    fn apply_move(&mut self, m: &Step) {
        self.0.apply_move(m)
    }
    fn skip_turn(&mut self) {
        self.0.skip_turn()
    }
    fn get_player(&self) -> i8 {
        self.0.get_player()
    }
    fn check_winner(&self) -> Option<i8> {
        self.0.check_winner()
    }
    fn as_tensor(&self) -> Tensor {
        self.0.as_tensor()
    }
    fn decode(&self, action: u32) -> Step {
        self.0.decode(action)
    }
    fn encode(&self, m: &Step) -> u32 {
        self.0.encode(m)
    }
    fn get_id(&self) -> usize {
        self.0.get_id()
    }
    fn set_id(&mut self, id: usize) {
        self.0.set_id(id)
    }
    fn to_pretty_str(&self) -> String {
        self.0.to_pretty_str()
    }
}

/// A network: how many variables and weights, and whether it answers as it should.
struct Size {
    blocks: i64,
    filters: i64,
    vars: i64,
    weights: i64,
}

fn size<const R: i64, const F: i64>(x: &Tensor) -> Res<Size> {
    let net = sut("ResNet::new", || ResNet::new::<Of<R, F>>(VarStore::new(Device::Cpu)))?;
    let (p, v) = sut("forward_t", || net.forward_t(x, false))?;
    ensure!(p.size() == [x.size()[0], 9] && v.size() == [x.size()[0], 1], "shape", "a network of {} blocks and {} filters answers with {:?} and {:?}", R, F, p.size(), v.size());
    let vars = net.vs.variables();
    Ok(Size { blocks: R, filters: F, vars: vars.len() as i64, weights: vars.values().map(|t| t.numel() as i64).sum() })
}

fn sizes<const F: i64>(x: &Tensor) -> Res<Vec<Size>> {
    Ok(vec![size::<0, F>(x)?, size::<1, F>(x)?, size::<2, F>(x)?, size::<3, F>(x)?, size::<7, F>(x)?, size::<8, F>(x)?, size::<16, F>(x)?, size::<19, F>(x)?, size::<20, F>(x)?, size::<33, F>(x)?, size::<40, F>(x)?])
}

/// Every block and filter a game asks for is there: each block adds the same to the network, and is as wide as the rest.
fn network(c: &(World, u8, u8), o: &mut Obs) -> Res {
    c.0.set();
    let x = Tensor::cat(&(0..1 + c.1 % 4).map(|n| Syn::<9, 3, 9, false>::nth(c.0, n as u32).as_tensor()).collect::<Vec<_>>(), 0);
    let row = match c.2 % 6 {
        0 => sizes::<1>(&x)?,
        1 => sizes::<2>(&x)?,
        2 => sizes::<5>(&x)?,
        3 => sizes::<16>(&x)?,
        4 => sizes::<33>(&x)?,
        _ => sizes::<70>(&x)?,
    };
    let (one, two) = (&row[0], &row[1]);
    ensure!(two.vars > one.vars && two.weights >= one.weights + 2 * 9 * one.filters * one.filters, "blocks", "one more block of {} filters adds {} variables and {} weights", one.filters, two.vars - one.vars, two.weights - one.weights);
    for s in &row {
        ensure!(s.vars == one.vars + s.blocks * (two.vars - one.vars) && s.weights == one.weights + s.blocks * (two.weights - one.weights), "blocks", "a network of {} blocks and {} filters has {} variables and {} weights; without blocks it has {} and {}, with one {} and {}", s.blocks, s.filters, s.vars, s.weights, one.vars, one.weights, two.vars, two.weights);
        o.eval();
    }
    o.class(format!("{} filters", one.filters));
    o.nontrivial(c);
    o.sample(|| format!("{} filters: {:?} variables", one.filters, row.iter().map(|s| (s.blocks, s.vars)).collect::<Vec<_>>()));
    Ok(())
}

fn main() {
    child::serve(servant);
    let mut p = Prop::new("C32", "distinct cases of the several families (see the checks of the same subject), all on made-up games")
        .assume("the games are drawn from a hash: any number of plays up to 120 in a position, passes, repeated turns, draws, early ends");
    all::<1, 2, 3, true>(&mut p, "single", 1, 40);
    all::<6, 1, 4, true>(&mut p, "small", 6, 400);
    all::<44, 7, 2, true>(&mut p, "square", 30, 280);
    all::<1353, 3, 3, false>(&mut p, "odd", 60, 200);
    all::<4100, 2, 12, false>(&mut p, "long", 120, 120);
    all::<70000, 1, 2, true>(&mut p, "huge", 250, 8);
    p.family_opts("network sizes", (24, 200), 4, (world(1..=8, 1..=6), any::<u8>(), any::<u8>()), network);
    p.finish()
}
