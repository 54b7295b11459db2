//! Made-up games: any shape of network input, any action space, repeated turns, turns that have to be passed,
//! draws, games that end early, all of it drawn from a hash. The world (the parameters) is set before use.
use crate::search::Ref;
use crate::selfplay::{Dec, Game};
use crate::glue;
use die_e::base::LearnableGame;
use crate::samples::{Posn, Samp};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use tch::Tensor;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct World {
    pub seed: u16,
    /// a game ends after so many turns at the latest
    pub depth: u8,
    /// most plays of a position
    pub branch: u8,
    /// shares of 256: positions without a play, turns kept by the same side, ends before the last turn, draws
    pub pass: u8,
    pub stay: u8,
    pub end: u8,
    pub draw: u8,
}

static WORLD: AtomicU64 = AtomicU64::new(0);
static STARTS: AtomicU32 = AtomicU32::new(0);

impl World {
    fn pack(&self) -> u64 {
        u64::from_le_bytes([self.seed as u8, (self.seed >> 8) as u8, self.depth, self.branch, self.pass, self.stay, self.end, self.draw])
    }
    /// Games made by `new` belong to this world from now on; they are numbered from 0.
    pub fn set(&self) {
        WORLD.store(self.pack(), Ordering::SeqCst);
        STARTS.store(0, Ordering::SeqCst);
    }
    pub fn now() -> World {
        let b = WORLD.load(Ordering::SeqCst).to_le_bytes();
        World { seed: b[0] as u16 | (b[1] as u16) << 8, depth: b[2].max(1), branch: b[3].max(1), pass: b[4], stay: b[5], end: b[6], draw: b[7] }
    }
}

pub fn started() -> u32 {
    STARTS.load(Ordering::SeqCst)
}

pub fn world(depth: std::ops::RangeInclusive<u8>, branch: std::ops::RangeInclusive<u8>) -> impl Strategy<Value = World> + Clone {
    let share = |hi: u8| prop_oneof![2 => Just(0u8), 3 => 0u8..=hi];
    (any::<u16>(), depth, branch, share(90), share(160), share(40), share(200))
        .prop_map(|(seed, depth, branch, pass, stay, end, draw)| World { seed, depth, branch, pass, stay, end, draw })
}

fn h(a: u32, b: u32) -> u32 {
    let mut z = (a as u64) << 32 | b as u64;
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) as u32
}

/// A play; not its own code.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Step(pub u32);

/// A: action space, C x W: network input, D: with dice.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Syn<const A: i64, const C: i64, const W: i64, const D: bool> {
    pub w: World,
    pub key: u32,
    pub depth: u8,
    pub player: i8,
    /// reached by a pass: never the end of a game
    pub idle: bool,
    pub rolled: bool,
    pub id: usize,
}

const KEY_BITS: u32 = 32;
const BITS: u32 = KEY_BITS + 8 + 1 + 1;

impl<const A: i64, const C: i64, const W: i64, const D: bool> Syn<A, C, W, D> {
    /// The n-th game of this world, ready to be played.
    pub fn nth(w: World, n: u32) -> Self {
        let mut s = Self::fresh(w, n);
        if D {
            s.die();
        }
        s
    }
    pub fn fresh(w: World, n: u32) -> Self {
        Syn { w, key: h(w.seed as u32, n), depth: 0, player: -1, idle: false, rolled: !D, id: 0 }
    }
    fn die(&mut self) -> (u8, u8) {
        self.key = h(self.key, 0xd1e);
        self.rolled = true;
        (1 + (self.key % 6) as u8, 1 + (self.key / 6 % 6) as u8)
    }
    fn chance(&self, what: u32, share: u8) -> bool {
        (h(self.key, what) & 255) < share as u32
    }
    pub fn outcome(&self) -> Option<i8> {
        if self.idle || self.depth < 1 || (self.depth < self.w.depth && !self.chance(11, self.w.end)) {
            return None;
        }
        Some(if self.chance(12, self.w.draw) {
            0
        } else if h(self.key, 13) & 64 == 0 {
            1
        } else {
            -1
        })
    }
    /// Numbers of the plays, each once, in no particular order.
    pub fn steps(&self) -> Vec<u32> {
        assert!(self.rolled, "asked for plays before the dice were thrown");
        if self.depth > 0 && self.chance(14, self.w.pass) {
            return vec![];
        }
        let n = (1 + h(self.key, 15) % self.w.branch as u32).min(A as u32);
        let mut v: Vec<u32> = vec![];
        let mut i = 100;
        while (v.len() as u32) < n {
            let x = h(self.key, i) % A as u32;
            if !v.contains(&x) {
                v.push(x);
            } else if i > 400 {
                // crowded: the next free one
                let y = (0..A as u32).map(|d| (x + d) % A as u32).find(|y| !v.contains(y)).unwrap();
                v.push(y);
            }
            i += 1;
        }
        v
    }
    pub fn after(&self, m: u32) -> Self {
        let mut s = *self;
        s.key = h(self.key, 1000 + m);
        s.depth += 1;
        s.idle = false;
        if !s.chance(16, s.w.stay) {
            s.player = -s.player;
        }
        if D {
            s.die();
        }
        s
    }
    pub fn passed(&self) -> Self {
        let mut s = *self;
        s.key = h(self.key, 999);
        s.idle = true;
        s.player = -s.player;
        if D {
            s.die();
        }
        s
    }
    /// Passes until a play is possible or the game is over; how many.
    pub fn settle(mut self) -> (Self, usize) {
        let mut n = 0;
        while self.outcome().is_none() && self.steps().is_empty() {
            self = self.passed();
            n += 1;
        }
        (self, n)
    }
    /// The positions of a game, plays picked by number.
    pub fn run(w: World, n: u32, picks: &[u8]) -> Vec<Self> {
        let mut v = vec![Self::nth(w, n)];
        for k in picks {
            let s = *v.last().unwrap();
            if s.outcome().is_some() {
                break;
            }
            let st = s.steps();
            v.push(if st.is_empty() { s.passed() } else { s.after(st[*k as usize % st.len()]) });
        }
        v
    }
    /// The last unfinished position of such a game.
    pub fn open(w: World, n: u32, picks: &[u8]) -> Self {
        *Self::run(w, n, picks).iter().filter(|s| s.outcome().is_none()).last().unwrap()
    }
    /// Value for player 1 under perfect play.
    pub fn minimax(&self) -> i8 {
        if let Some(w) = self.outcome() {
            return w;
        }
        let st = self.steps();
        if st.is_empty() {
            return self.passed().minimax();
        }
        st.iter().map(|m| self.after(*m).minimax() * self.player).max().unwrap() * self.player
    }
    fn per_cell() -> u32 {
        let n = (C * W) as u32;
        BITS.div_ceil(n)
    }
    pub fn same(&self, o: &Self) -> bool {
        let (mut a, mut b) = (*self, *o);
        a.id = 0;
        b.id = 0;
        a == b
    }
}

impl<const A: i64, const C: i64, const W: i64, const D: bool> LearnableGame for Syn<A, C, W, D> {
    type Move = Step;
    const EMPTY_MOVE: Step = Step(u32::MAX);
    const IS_DETERMINISTIC: bool = !D;
    const ACTION_SPACE_SIZE: i64 = A;
    const N_INPUT_CHANNELS: i64 = C;
    const CONV_OUTPUT_SIZE: i64 = W;
    const N_FILTERS: i64 = 4 + C;
    const N_RES_BLOCKS: i64 = (A + C) % 3;

    fn new() -> Self {
        let w = World::now();
        Self::fresh(w, STARTS.fetch_add(1, Ordering::SeqCst))
    }
    fn name() -> String {
        format!("Synthetic {}_{}x{}{}", A, C, W, if D { "-Dice" } else { "" })
    }
    fn get_valid_moves(&self) -> Vec<Step> {
        self.steps().into_iter().map(Step).collect()
    }
    fn apply_move(&mut self, m: &Step) {
        assert!(self.steps().contains(&m.0), "{:?} is no play of {:?}", m, self);
        *self = self.after(m.0);
    }
    fn roll_die(&mut self) -> (u8, u8) {
        assert!(D, "dice thrown in a game without dice");
        self.die()
    }
    fn skip_turn(&mut self) {
        *self = self.passed();
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        self.outcome()
    }
    fn as_tensor(&self) -> Tensor {
        let b = Self::per_cell();
        let n = (C * W) as usize;
        let info = (self.key as u64) | (self.depth as u64) << 32 | ((self.player == 1) as u64) << 40 | (self.idle as u64) << 41;
        let v: Vec<f32> = (0..n as u32)
            .map(|i| {
                if i * b < BITS {
                    let x = (info >> (i * b)) & ((1u64 << b) - 1);
                    (x as f64 / ((1u64 << b) - 1) as f64 * 2.0 - 1.0) as f32
                } else {
                    (h(self.key, 5000 + i) % 2001) as f32 / 1000.0 - 1.0
                }
            })
            .collect();
        // boards of one or several rows
        let rows = if W % 3 == 0 { 3 } else if W % 2 == 0 { 2 } else { 1 };
        Tensor::from_slice(&v).view([1, C, W / rows, rows])
    }
    fn decode(&self, action: u32) -> Step {
        Step((action + A as u32 - self.key % A as u32) % A as u32)
    }
    fn encode(&self, m: &Step) -> u32 {
        (m.0 + self.key % A as u32) % A as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, id: usize) {
        self.id = id;
    }
    fn to_pretty_str(&self) -> String {
        format!("{:?}", self)
    }
}

impl<const A: i64, const C: i64, const W: i64, const D: bool> Ref for Syn<A, C, W, D> {
    fn ref_outcome(&self) -> Option<i8> {
        self.outcome()
    }
    fn ref_legal(&self, m: &Step) -> bool {
        self.steps().contains(&m.0)
    }
    fn ref_any(&self) -> bool {
        !self.steps().is_empty()
    }
    fn ref_count(&self) -> usize {
        self.steps().len()
    }
    fn ref_follows(&self, m: &Step, next: &Self) -> Result<(), String> {
        if !self.ref_legal(m) {
            return Err(format!("{:?} is not legal in {:?}", m, self));
        }
        let w = self.after(m.0);
        if w != *next {
            return Err(format!("{:?} after {:?} should be {:?}, is {:?}", self, m, w, next));
        }
        Ok(())
    }
    fn ref_key(&self, m: &Step) -> String {
        m.0.to_string()
    }
    fn same_state(&self, o: &Self) -> bool {
        self == o
    }
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}

impl<const A: i64, const C: i64, const W: i64, const D: bool> Game for Syn<A, C, W, D> {
    type P = Self;
    const REPEATABLE: bool = true;
    fn read(t: &Tensor) -> Result<Self, String> {
        let v = glue::vecf(t);
        if v.len() as i64 != C * W {
            return Err(format!("{} cells", v.len()));
        }
        let b = Self::per_cell();
        let mut info = 0u64;
        for (i, x) in v.iter().enumerate() {
            if i as u32 * b < BITS {
                let k = ((*x as f64 + 1.0) / 2.0 * ((1u64 << b) - 1) as f64).round() as u64;
                info |= k << (i as u32 * b);
            }
        }
        let s = Syn { w: World::now(), key: info as u32, depth: (info >> 32) as u8, player: if info >> 40 & 1 == 1 { 1 } else { -1 }, idle: info >> 41 & 1 == 1, rolled: true, id: 0 };
        if glue::vecf(&s.as_tensor()) != v {
            return Err(format!("reads as {:?}", s));
        }
        Ok(s)
    }
    fn game(p: &Self) -> Self {
        *p
    }
    fn player(p: &Self) -> i8 {
        p.player
    }
    fn starts(p: &Self) -> bool {
        p.depth == 0
    }
    fn follows(a: &Dec<Self>, b: &Self) -> Result<(usize, usize), String> {
        for m in a.pos.steps() {
            if a.ps[a.pos.encode(&Step(m)) as usize] > 0.0 {
                let (x, n) = a.pos.after(m).settle();
                if x.same(b) && x.outcome().is_none() {
                    return Ok((n, n));
                }
            }
        }
        Err(format!("{:?} does not come after {:?} by a play with weight and forced passes", b, a.pos))
    }
    fn ends(a: &Dec<Self>) -> Vec<Option<i8>> {
        a.pos.steps().into_iter().filter(|m| a.ps[a.pos.encode(&Step(*m)) as usize] > 0.0).map(|m| a.pos.after(m).outcome()).collect()
    }
    fn passes_after(a: &Dec<Self>) -> usize {
        a.pos.steps().into_iter().filter(|m| a.ps[a.pos.encode(&Step(*m)) as usize] > 0.0).map(|m| a.pos.after(m).settle().1).max().unwrap_or(0)
    }
}

impl<const A: i64, const C: i64, const W: i64, const D: bool> Posn for Syn<A, C, W, D> {
    type G = Self;
    fn game(&self) -> Self {
        *self
    }
}

pub fn sample<const A: i64, const C: i64, const W: i64, const D: bool>() -> impl Strategy<Value = Samp<Syn<A, C, W, D>>> + Clone {
    let pos = (world(1..=12, 1..=9), any::<u8>(), vec(any::<u8>(), 0..12)).prop_map(|(w, n, p)| *Syn::run(w, n as u32, &p).last().unwrap());
    (pos, vec((any::<u16>(), any::<u8>()), 1..5), -1i8..=1).prop_map(|(pos, policy, outcome)| Samp { pos, policy, outcome })
}

/// Small, middling and large ones; with and without dice.
pub type S9 = Syn<9, 3, 9, false>;
pub type S1 = Syn<1, 2, 3, false>;
pub type S40 = Syn<40, 2, 5, true>;
pub type S1352 = Syn<1352, 6, 24, true>;
pub type S2000 = Syn<2000, 1, 8, false>;
pub type S5000 = Syn<5000, 4, 6, true>;

/// A share (in percent) of the cases.
pub fn times(n: (u32, u32), k: u32) -> (u32, u32) {
    ((n.0 * k / 100).max(2), (n.1 * k / 100).max(2))
}
