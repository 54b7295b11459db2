//! Generated training samples, and running code in a directory of its own.
use crate::bg::Pos;
use crate::glue;
use crate::search::Ref;
use crate::ttt::TPos;
use crate::{gen, runner};
use crate::{sut, Res};
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use tch::{Kind, Tensor};

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq)]
pub struct Samp<P> {
    pub pos: P,
    /// (action, weight) pairs of the policy target; normalised
    pub policy: Vec<(u16, u8)>,
    pub outcome: i8,
}

impl<P> Samp<P> {
    pub fn target(&self, space: i64) -> Vec<f32> {
        let mut v = vec![0f32; space as usize];
        for (a, w) in &self.policy {
            v[*a as usize % space as usize] += 1.0 + *w as f32;
        }
        let s: f32 = v.iter().sum();
        if s == 0.0 {
            return v;
        }
        v.iter().map(|x| x / s).collect()
    }
    pub fn fragment<T: Ref>(&self, g: &T) -> MemoryFragment {
        MemoryFragment {
            outcome: self.outcome,
            ps: Tensor::from_slice(&self.target(T::ACTION_SPACE_SIZE)),
            state: g.as_tensor(),
        }
    }
}

/// A position of the case together with the game it belongs to.
pub trait Posn: Clone + PartialEq + std::fmt::Debug + Serialize + serde::de::DeserializeOwned + Send + std::hash::Hash + 'static {
    type G: Ref;
    fn game(&self) -> Self::G;
}

impl Posn for Pos {
    type G = Backgammon;
    fn game(&self) -> Backgammon {
        glue::bgame(self)
    }
}

impl Posn for TPos {
    type G = TicTacToe;
    fn game(&self) -> TicTacToe {
        glue::tgame(self)
    }
}

pub fn fragments<P: Posn>(s: &[Samp<P>]) -> Vec<MemoryFragment> {
    s.iter().map(|x| x.fragment(&x.pos.game())).collect()
}

/// The samples as they come back from storage.
pub fn stored<P: Posn>(az: &AlphaZero, s: &[Samp<P>]) -> Res<Vec<MemoryFragment>> {
    let dir = Dir::new();
    sut("save_training_data", || az.save_training_data(&fragments(s), dir.path()))?;
    sut("load_training_data", || AlphaZero::load_training_data(dir.path()))
}

pub fn tpos() -> impl Strategy<Value = TPos> + Clone {
    (any::<bool>(), vec(any::<u8>(), 0..10)).prop_map(|(f, p)| *TPos::run(if f { 1 } else { -1 }, &p).last().unwrap())
}

pub fn open_tpos() -> impl Strategy<Value = TPos> + Clone {
    (any::<bool>(), vec(any::<u8>(), 0..9)).prop_map(|(f, p)| *TPos::run(if f { 1 } else { -1 }, &p).iter().filter(|p| p.outcome().is_none()).last().unwrap())
}

fn rest() -> impl Strategy<Value = (Vec<(u16, u8)>, i8)> + Clone {
    (vec((any::<u16>(), any::<u8>()), 1..5), -1i8..=1)
}

pub fn tsamp() -> impl Strategy<Value = Samp<TPos>> + Clone {
    (tpos(), rest()).prop_map(|(pos, (policy, outcome))| Samp { pos, policy, outcome })
}

pub fn bsamp() -> BoxedStrategy<Samp<Pos>> {
    (gen::position(), rest()).prop_map(|(pos, (policy, outcome))| Samp { pos, policy, outcome }).boxed()
}

/// A directory removed when dropped.
pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = runner::scratch().join(format!("d{}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn join(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
    /// Runs `f` with this directory as the working directory.
    pub fn within<T>(&self, f: impl FnOnce() -> T) -> T {
        let old = std::env::current_dir().expect("cwd");
        std::env::set_current_dir(&self.0).expect("cwd");
        let r = f();
        std::env::set_current_dir(&old).expect("cwd");
        r
    }
    /// All files below, relative, sorted.
    pub fn files(&self) -> Vec<String> {
        fn rec(d: &Path, base: &Path, out: &mut Vec<String>) {
            for e in std::fs::read_dir(d).expect("read dir") {
                let p = e.expect("entry").path();
                if p.is_dir() {
                    rec(&p, base, out)
                } else {
                    out.push(p.strip_prefix(base).unwrap().to_string_lossy().into_owned())
                }
            }
        }
        let mut v = vec![];
        rec(&self.0, &self.0, &mut v);
        v.sort();
        v
    }
}

impl Default for Dir {
    fn default() -> Self {
        Dir::new()
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Same sample? Kinds may differ between memory and disk; values may not.
pub fn same_sample<T: Ref>(a: &MemoryFragment, b: &MemoryFragment) -> Option<String> {
    let shape = |m: &MemoryFragment| {
        let s = m.state.size();
        if s.len() == 4 && s[0] == 1 { s[1..].to_vec() } else { s }
    };
    if a.outcome != b.outcome {
        return Some(format!("outcome {} against {}", a.outcome, b.outcome));
    }
    if a.ps.size() != b.ps.size() || glue::vecf(&a.ps) != glue::vecf(&b.ps) {
        return Some("policy targets differ".into());
    }
    if shape(a) != shape(b) {
        return Some(format!("states of shape {:?} against {:?}", a.state.size(), b.state.size()));
    }
    if a.state.kind() != Kind::Float || b.state.kind() != Kind::Float || glue::vecf(&a.state) != glue::vecf(&b.state) {
        return Some("position tensors differ".into());
    }
    None
}
