//! C07: the network input represents the position faithfully.
use die_e::base::LearnableGame;
use die_e::constants::DEFAULT_TYPE;
use proptest::prelude::*;
use tch::Device;
use vh::bg::*;
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

fn want(p: &Pos) -> Vec<f32> {
    let mut v: Vec<f32> = p.board.0.iter().map(|x| *x as f32).collect();
    v.extend([p.player as f32; 24]);
    let mut half = |a: u8, b: u8| {
        v.extend([a as f32; 12]);
        v.extend([b as f32; 12]);
    };
    half(p.board.1 .0, p.board.1 .1);
    half(p.board.2 .0, p.board.2 .1);
    half(p.roll.0, p.roll.1);
    half(p.second as u8, p.second as u8);
    v
}

fn backgammon(c: &(Pos, u16), o: &mut Obs) -> Res {
    let (p, id) = c;
    let mut g = glue::bgame(p);
    g.id = *id as usize;
    let t = sut("as_tensor", || g.as_tensor())?;
    ensure!(glue::pos_of(&g) == *p && g.id == *id as usize, "impure", "as_tensor changed {:?} to {:?}", p, g);
    ensure!(t.size() == [1, 6, 4, 6], "shape", "the tensor of {:?} has shape {:?}", p, t.size());
    ensure!(t.kind() == DEFAULT_TYPE && t.device() == Device::Cpu, "type", "the tensor of {:?} has kind {:?} on {:?}", p, t.kind(), t.device());
    let v = glue::vecf(&t);
    let w = want(p);
    for i in 0..w.len() {
        ensure!(v[i] == w[i], "content", "plane {} cell {} of {:?} holds {} instead of {}", i / 24, i % 24, p, v[i], w[i]);
    }
    // a second tensor is independent of the first
    let t2 = sut("as_tensor", || g.as_tensor())?;
    let mut t1 = t.shallow_clone();
    let _ = t1.fill_(9.0);
    ensure!(glue::vecf(&t2) == w, "aliasing", "two tensors of {:?} share storage", p);
    for d in gen::describe(p) {
        o.class(d);
    }
    if p.board != START {
        o.nontrivial(p);
    }
    o.sample(|| format!("{:?} id {}", p, id));
    Ok(())
}

/// Two positions that differ in one thing never share a tensor.
fn distinct(c: &(Pos, u8, u8, u8), o: &mut Obs) -> Res {
    let (p, what, a, b) = c;
    let mut q = *p;
    match what % 7 {
        0 => q.player = -q.player,
        1 => q.roll = (q.roll.1, q.roll.0),
        2 => q.roll.0 = a % 6 + 1,
        3 => q.second = !q.second,
        4 | 5 => {
            // move one checker somewhere else
            let s = if b % 2 == 0 { 1 } else { -1 };
            let (mut me, op) = sides(&p.board, s);
            let from: Vec<usize> = (0..=25).filter(|d| me.n[*d] > 0).collect();
            let f = from[*a as usize % from.len()];
            let to: Vec<usize> = (0..=25).filter(|d| *d != f && (*d == 0 || *d == 25 || op.n[25 - d] == 0)).collect();
            let t = to[*b as usize / 2 % to.len()];
            me.n[f] -= 1;
            me.n[t] += 1;
            q.board = unsides(&me, &op, s);
        }
        _ => q = q.mirror(),
    }
    let same_pos = *p == q;
    let t = sut("as_tensor", || glue::bgame(p).as_tensor())?;
    let u = sut("as_tensor", || glue::bgame(&q).as_tensor())?;
    let same = t.size() == u.size() && t.equal(&u);
    ensure!(same == same_pos, "not-injective", "{:?} and {:?}: same tensor {}", p, q, same);
    o.class(["player", "dice swapped", "first die", "second play", "one checker", "one checker", "mirror image"][*what as usize % 7]);
    if !same_pos {
        o.nontrivial((p, q));
    }
    Ok(())
}

fn tictactoe(c: &(u32, bool), o: &mut Obs) -> Res {
    let p = TPos::from_index(c.0 % 19683, if c.1 { 1 } else { -1 });
    let g = glue::tgame(&p);
    let t = sut("as_tensor", || g.as_tensor())?;
    ensure!(glue::tpos_of(&g) == p, "impure", "as_tensor changed {:?}", p);
    ensure!(t.size() == [1, 3, 3, 3] && t.kind() == DEFAULT_TYPE, "shape", "the tensor of {:?} is {:?} {:?}", p, t.size(), t.kind());
    let v = glue::vecf(&t);
    for (plane, val) in [-1i8, 0, 1].iter().enumerate() {
        for i in 0..9 {
            let w = (p.board[i] == *val) as u8 as f32;
            ensure!(v[plane * 9 + i] == w, "content", "plane {} cell {} of {:?} holds {}", plane, i, p, v[plane * 9 + i]);
        }
    }
    o.class("tic-tac-toe");
    if c.0 % 19683 != 9841 {
        o.nontrivial(p);
    }
    Ok(())
}

fn main() {
    let mut p = Prop::new("C07", "distinct positions other than the start; distinct pairs of differing positions");
    p.family("backgammon", (40_000, 1_500_000), (gen::position(), any::<u16>()), backgammon);
    p.family("distinct", (20_000, 1_000_000), (gen::position(), any::<u8>(), any::<u8>(), any::<u8>()), distinct);
    p.family("tictactoe", (20_000, 300_000), (0u32..19683, any::<bool>()), tictactoe);
    p.finish()
}
