//! Reference tic-tac-toe.
use serde::{Deserialize, Serialize};

pub const LINES: [[usize; 3]; 8] =
    [[0, 1, 2], [3, 4, 5], [6, 7, 8], [0, 3, 6], [1, 4, 7], [2, 5, 8], [0, 4, 8], [2, 4, 6]];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub struct TPos {
    pub board: [i8; 9],
    pub player: i8,
}

impl TPos {
    pub fn empty_cells(&self) -> Vec<u8> {
        (0..9u8).filter(|i| self.board[*i as usize] == 0).collect()
    }
    pub fn wins(&self, p: i8) -> bool {
        LINES.iter().any(|l| l.iter().all(|i| self.board[*i] == p))
    }
    /// Both sides owning a line cannot happen in a game.
    pub fn consistent(&self) -> bool {
        !(self.wins(1) && self.wins(-1))
    }
    pub fn outcome(&self) -> Option<i8> {
        if self.wins(-1) {
            Some(-1)
        } else if self.wins(1) {
            Some(1)
        } else if self.board.iter().all(|x| *x != 0) {
            Some(0)
        } else {
            None
        }
    }
    pub fn play(&self, m: u8) -> TPos {
        let mut b = self.board;
        b[m as usize] = self.player;
        TPos { board: b, player: -self.player }
    }
    /// Plays an index list (each picks among the empty cells) until the game ends.
    pub fn run(player: i8, picks: &[u8]) -> Vec<TPos> {
        let mut v = vec![TPos { board: [0; 9], player }];
        for k in picks {
            let p = *v.last().unwrap();
            if p.outcome().is_some() {
                break;
            }
            let e = p.empty_cells();
            v.push(p.play(e[*k as usize % e.len()]));
        }
        v
    }
    /// Value for the player on turn under perfect play: 1, 0, -1.
    pub fn minimax(&self) -> i8 {
        if let Some(w) = self.outcome() {
            return w * self.player;
        }
        self.empty_cells().iter().map(|m| -self.play(*m).minimax()).max().unwrap()
    }
    pub fn from_index(mut i: u32, player: i8) -> TPos {
        let mut b = [0i8; 9];
        for x in b.iter_mut() {
            *x = (i % 3) as i8 - 1;
            i /= 3;
        }
        TPos { board: b, player }
    }
}
