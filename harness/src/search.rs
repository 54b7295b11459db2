//! Shared by the search checks.
use crate::bg::*;
use crate::glue;
use crate::ttt::TPos;
use crate::{ensure, fail, sut, Res};
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::tictactoe::TicTacToe;

/// A game together with its reference rules.
pub trait Ref: LearnableGame + 'static {
    fn ref_outcome(&self) -> Option<i8>;
    /// Is the play one the rules allow here?
    fn ref_legal(&self, m: &Self::Move) -> bool;
    fn ref_any(&self) -> bool;
    /// Number of different plays.
    fn ref_count(&self) -> usize;
    /// Does `next` follow from self by `m` (dice thrown in between are free)?
    fn ref_follows(&self, m: &Self::Move, next: &Self) -> Result<(), String>;
    /// Identifies the play's effect, so that two ways of writing it are equal.
    fn ref_key(&self, m: &Self::Move) -> String;
    fn same_state(&self, o: &Self) -> bool;
    fn show(&self) -> String;
}

impl Ref for Backgammon {
    fn ref_outcome(&self) -> Option<i8> {
        winner(&self.board)
    }
    fn ref_legal(&self, m: &Play) -> bool {
        legal(&self.board, self.roll, self.player).iter().any(|x| x.0 == *m)
    }
    fn ref_any(&self) -> bool {
        !legal(&self.board, self.roll, self.player).is_empty()
    }
    fn ref_count(&self) -> usize {
        legal_results(&self.board, self.roll, self.player).len()
    }
    fn ref_follows(&self, m: &Play, next: &Self) -> Result<(), String> {
        if !self.ref_legal(m) {
            return Err(format!("{:?} is not legal in {:?}", m, self));
        }
        let p = glue::pos_of(self);
        let w = p.after_play(apply_notation(&self.board, m, self.player), next.roll);
        if glue::pos_of(next) != w {
            return Err(format!("{:?} after {:?} should be {:?}, is {:?}", self, m, w, next));
        }
        if !(1..=6).contains(&next.roll.0) || !(1..=6).contains(&next.roll.1) {
            return Err(format!("dice {:?}", next.roll));
        }
        Ok(())
    }
    fn ref_key(&self, m: &Play) -> String {
        format!("{:?}", apply_notation(&self.board, m, self.player))
    }
    fn same_state(&self, o: &Self) -> bool {
        glue::pos_of(self) == glue::pos_of(o)
    }
    fn show(&self) -> String {
        format!("{:?}", glue::pos_of(self))
    }
}

impl Ref for TicTacToe {
    fn ref_outcome(&self) -> Option<i8> {
        glue::tpos_of(self).outcome()
    }
    fn ref_legal(&self, m: &u8) -> bool {
        *m < 9 && self.board[*m as usize] == 0
    }
    fn ref_any(&self) -> bool {
        self.board.iter().any(|x| *x == 0)
    }
    fn ref_count(&self) -> usize {
        self.board.iter().filter(|x| **x == 0).count()
    }
    fn ref_follows(&self, m: &u8, next: &Self) -> Result<(), String> {
        if !self.ref_legal(m) {
            return Err(format!("{} is not legal in {:?}", m, self));
        }
        let w: TPos = glue::tpos_of(self).play(*m);
        if glue::tpos_of(next) != w {
            return Err(format!("{:?} after {} should be {:?}, is {:?}", self, m, w, next));
        }
        Ok(())
    }
    fn ref_key(&self, m: &u8) -> String {
        m.to_string()
    }
    fn same_state(&self, o: &Self) -> bool {
        glue::tpos_of(self) == glue::tpos_of(o)
    }
    fn show(&self) -> String {
        format!("{:?}", glue::tpos_of(self))
    }
}

pub fn count_nodes<T: LearnableGame>(store: &NodeStore<T>) -> usize {
    // Display is NodeStore<size=N>
    let s = format!("{}", store);
    s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)
}

/// Structural consistency of every tree in the store. Returns the nodes by index.
pub fn audit<T: Ref>(store: &NodeStore<T>) -> Res<Vec<Node<T>>> {
    let n = count_nodes(store);
    let nodes: Vec<Node<T>> = sut("get_node", || (0..n).map(|i| store.get_node(i)).collect())?;
    let mut child_of = vec![None; n];
    for (i, nd) in nodes.iter().enumerate() {
        ensure!(nd.idx == i, "index", "node {} calls itself {}", i, nd.idx);
        let mut keys = vec![];
        for &c in &nd.children {
            ensure!(c < n && c != i, "child-index", "node {} has a child {} of {}", i, c, n);
            ensure!(child_of[c].is_none(), "shared-child", "node {} is a child of {:?} and of {}", c, child_of[c], i);
            child_of[c] = Some(i);
            let ch = &nodes[c];
            ensure!(ch.parent == Some(i), "parent-link", "node {} lists child {} whose parent is {:?}", i, c, ch.parent);
            let m = match &ch.action_taken {
                Some(m) => m.clone(),
                None => return fail("no-action", format!("child {} of {} has no recorded play", c, i)),
            };
            if let Err(e) = nd.state.ref_follows(&m, &ch.state) {
                return fail("child-state", format!("child {} of {}: {}", c, i, e));
            }
            keys.push(nd.state.ref_key(&m));
        }
        // expanded and still expandable plays together are all plays, each once
        for m in &nd.expandable_moves {
            ensure!(nd.state.ref_legal(m), "expandable", "node {} may still expand {:?}, not legal in {}", i, m, nd.state.show());
            keys.push(nd.state.ref_key(m));
        }
        let total = keys.len();
        keys.sort();
        keys.dedup();
        ensure!(keys.len() == total, "expanded-twice", "node {}: a play is expanded or expandable twice in {}", i, nd.state.show());
        ensure!(total == nd.state.ref_count(), "lost-play", "node {}: {} of {} plays are expanded or expandable in {}", i, total, nd.state.ref_count(), nd.state.show());
    }
    for (i, nd) in nodes.iter().enumerate() {
        match nd.parent {
            Some(p) => ensure!(p < n && child_of[i] == Some(p), "parent-link", "node {} has parent {} which does not list it", i, p),
            None => ensure!(child_of[i].is_none(), "parent-link", "root {} is a child of {:?}", i, child_of[i]),
        }
    }
    Ok(nodes)
}

/// The network's answer for one position alone: policy over the action space and value for the player on turn.
pub fn ask_net<T: Ref>(net: &die_e::alphazero::nnet::ResNet, g: &T) -> (Vec<f32>, f64) {
    let _n = tch::no_grad_guard();
    let (p, v) = net.forward_t(&g.as_tensor(), false);
    (glue::vecf(&p), glue::vecf(&v)[0] as f64)
}

/// Shares of the plays of `g` in a policy.
pub fn shares<T: Ref>(g: &T, plays: &[T::Move], policy: &[f32]) -> Vec<f64> {
    let v: Vec<f64> = plays.iter().map(|m| policy[g.encode(m) as usize] as f64).collect();
    let s: f64 = v.iter().sum();
    if s == 0.0 {
        // no weight on any play
        return vec![1.0 / v.len().max(1) as f64; v.len()];
    }
    v.into_iter().map(|x| x / s).collect()
}

/// What the network says about every node it was asked for.
pub struct Said {
    pub value: Vec<Option<f64>>,
    /// prior of each node, given its parent's evaluation
    pub prior: Vec<Option<f64>>,
    /// weight the policy gave to the plays of the position
    pub weight: Vec<f64>,
}

pub fn said<T: Ref>(net: &die_e::alphazero::nnet::ResNet, nodes: &[Node<T>]) -> Said {
    let mut s = Said { value: vec![None; nodes.len()], prior: vec![None; nodes.len()], weight: vec![1.0; nodes.len()] };
    for (i, n) in nodes.iter().enumerate() {
        if n.state.ref_outcome().is_some() || (n.visits == 0.0 && n.parent.is_some()) {
            continue;
        }
        let (p, v) = ask_net(net, &n.state);
        s.value[i] = Some(v);
        let plays: Vec<T::Move> = n.children.iter().map(|c| nodes[*c].action_taken.clone().unwrap()).collect();
        s.weight[i] = plays.iter().map(|m| p[n.state.encode(m) as usize] as f64).sum();
        for (c, x) in n.children.iter().zip(shares(&n.state, &plays, &p)) {
            s.prior[*c] = Some(x);
        }
    }
    s
}

pub struct Puct {
    pub visits: Vec<f64>,
    pub value: Vec<f64>,
    /// smallest lead of a chosen child over the second best
    pub gap: f64,
    pub depth: usize,
    pub finished: usize,
}

/// Runs the PUCT rule over the tree that a search left behind: states and plays are taken from it,
/// visits and values are computed afresh. `expanded(i)` must hold for a node to have been evaluated.
pub fn puct<T: Ref>(nodes: &[Node<T>], root: usize, s: &Said, c: f64, iterations: usize) -> Puct {
    let n = nodes.len();
    let mut r = Puct { visits: vec![0.0; n], value: vec![0.0; n], gap: f64::INFINITY, depth: 0, finished: 0 };
    let root_player = nodes[root].state.get_player();
    let mut open = vec![false; n];
    open[root] = true;
    r.visits[root] = 1.0;
    for _ in 0..iterations {
        let mut path = vec![root];
        loop {
            let i = *path.last().unwrap();
            if !open[i] || nodes[i].children.is_empty() {
                break;
            }
            let score = |k: usize| -> f64 {
                let q = if r.visits[k] == 0.0 { 0.0 } else { r.value[k] / r.visits[k] };
                q + c * s.prior[k].unwrap_or(0.0) * r.visits[i].sqrt() / (1.0 + r.visits[k])
            };
            let mut sc: Vec<(f64, usize)> = nodes[i].children.iter().map(|k| (score(*k), *k)).collect();
            sc.sort_by(|a, b| b.0.total_cmp(&a.0));
            if sc.len() > 1 {
                r.gap = r.gap.min(sc[0].0 - sc[1].0);
            }
            path.push(sc[0].1);
        }
        let leaf = *path.last().unwrap();
        r.depth = r.depth.max(path.len() - 1);
        // result as seen by the player on turn at the root
        let v = match nodes[leaf].state.ref_outcome() {
            Some(w) => {
                r.finished += 1;
                (w * root_player) as f64
            }
            None => {
                // the tree has no such visit: the visits differ from here on
                let v = match s.value[leaf] {
                    Some(v) => v,
                    None => {
                        path.iter().for_each(|k| r.visits[*k] += 1.0);
                        break;
                    }
                };
                if nodes[leaf].state.get_player() == root_player { v } else { -v }
            }
        };
        open[leaf] = true;
        for (d, k) in path.iter().enumerate() {
            let chooser = if d == 0 { root_player } else { nodes[path[d - 1]].state.get_player() };
            r.visits[*k] += 1.0;
            r.value[*k] += if chooser == root_player { v } else { -v };
        }
    }
    r
}
