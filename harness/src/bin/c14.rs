//! C14: search trees stay consistent under any sequence of operations.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::*;
use die_e::tictactoe::TicTacToe;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tch::Tensor;
use vh::bg::*;
use vh::glue::Mc;
use vh::search::{audit, count_nodes, Ref};
use vh::synth::{times, world, Syn, World};
use vh::ttt::TPos;
use vh::{ensure, fail, gen, glue, sut, Obs, Prop, Res};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Root(u8),
    Expand(u16),
    /// all plays at once, priors from a small generator
    ExpandAll(u16, u8, bool),
    Iterate { root: u16, c: f64, limit: u8 },
    /// many iterations, enough to visit every play of a node with many
    Run { root: u16, c: f64, limit: u8, times: u16 },
    BackUp(u16, f64),
    Select { root: u16, c: f64 },
    Answer(u16),
    /// a node with other statistics is put back
    Store { at: u16, visits: u8, value: i8, in_place: bool },
}

fn op() -> impl Strategy<Value = Op> + Clone {
    let c = prop_oneof![Just(0.0f64), 0.05f64..3.0, Just(50.0)];
    let r = prop_oneof![Just(1.0f64), Just(-1.0), Just(0.0), -1.0f64..1.0];
    prop_oneof![
        1 => any::<u8>().prop_map(Op::Root),
        3 => any::<u16>().prop_map(Op::Expand),
        2 => (any::<u16>(), any::<u8>(), any::<bool>()).prop_map(|(a, b, t)| Op::ExpandAll(a, b, t)),
        6 => (any::<u16>(), c.clone(), 0u8..12).prop_map(|(root, c, limit)| Op::Iterate { root, c, limit }),
        1 => (any::<u16>(), c.clone(), 0u8..3, prop_oneof![4 => 2u16..30, 1 => 30u16..200]).prop_map(|(root, c, limit, times)| Op::Run { root, c, limit, times }),
        4 => (any::<u16>(), r).prop_map(|(a, r)| Op::BackUp(a, r)),
        2 => (any::<u16>(), c).prop_map(|(root, c)| Op::Select { root, c }),
        1 => any::<u16>().prop_map(Op::Answer),
        1 => (any::<u16>(), 0u8..30, -30i8..30, any::<bool>()).prop_map(|(at, visits, value, in_place)| Op::Store { at, visits, value, in_place }),
    ]
}

struct RefNode<T: Ref> {
    state: T,
    parent: Option<usize>,
    children: Vec<usize>,
    action: Option<T::Move>,
    visits: f64,
    value: f64,
    policy: f32,
    left: usize,
}

struct Model<T: Ref> {
    n: Vec<RefNode<T>>,
}

impl<T: Ref> Model<T> {
    fn root_of(&self, mut i: usize) -> usize {
        while let Some(p) = self.n[i].parent {
            i = p;
        }
        i
    }
    fn back_up(&mut self, i: usize, r: f64) {
        let rp = self.n[self.root_of(i)].state.get_player();
        let mut at = Some(i);
        while let Some(k) = at {
            let chooser = match self.n[k].parent {
                Some(p) => self.n[p].state.get_player(),
                None => rp,
            };
            self.n[k].visits += 1.0;
            self.n[k].value += if chooser == rp { r } else { -r };
            at = self.n[k].parent;
        }
    }
    fn ucb(&self, i: usize, c: f64) -> f64 {
        let x = &self.n[i];
        let pv = self.n[x.parent.unwrap()].visits;
        x.value / x.visits + (c * pv.ln() / x.visits).sqrt()
    }
    fn add(&mut self, nd: &Node<T>) {
        self.n.push(RefNode {
            state: nd.state,
            parent: nd.parent,
            children: vec![],
            action: nd.action_taken.clone(),
            visits: 0.0,
            value: 0.0,
            policy: nd.policy,
            left: nd.state.ref_count(),
        });
    }
}

fn close(a: f32, b: f64) -> bool {
    (a as f64 - b).abs() <= 1e-4 * (1.0 + b.abs())
}

fn agree<T: Ref>(m: &Model<T>, st: &NodeStore<T>, after: &str) -> Res {
    ensure!(count_nodes(st) == m.n.len(), "node-count", "{} nodes after {}, expected {}", count_nodes(st), after, m.n.len());
    ensure!(st.is_empty() == m.n.is_empty(), "is-empty", "is_empty is {} with {} nodes", st.is_empty(), m.n.len());
    for (i, r) in m.n.iter().enumerate() {
        let n = sut("get_node_ref", || st.get_node_ref(i))?;
        ensure!(n.idx == i, "index", "after {} node {} calls itself {}", after, i, n.idx);
        ensure!(n.parent == r.parent, "parent-link", "after {} node {} has parent {:?}, expected {:?}", after, i, n.parent, r.parent);
        ensure!(n.children == r.children, "children", "after {} node {} has children {:?}, expected {:?}", after, i, n.children, r.children);
        ensure!(n.state.same_state(&r.state), "state-changed", "after {} node {} holds {}", after, i, n.state.show());
        ensure!(n.action_taken == r.action, "action-changed", "after {} node {} has action {:?}", after, i, n.action_taken);
        ensure!(n.policy == r.policy, "prior-changed", "after {} node {} has prior {}, expected {}", after, i, n.policy, r.policy);
        ensure!(n.visits as f64 == r.visits, "visits", "after {} node {} has {} visits, expected {}", after, i, n.visits, r.visits);
        ensure!(close(n.value, r.value), "value", "after {} node {} has value {}, expected {}", after, i, n.value, r.value);
        ensure!(n.expandable_moves.len() == r.left, "expandable", "after {} node {} has {} plays left, expected {}", after, i, n.expandable_moves.len(), r.left);
        ensure!(n.is_fully_expanded() == (r.left == 0), "fully-expanded", "after {} node {} says fully expanded: {}", after, i, n.is_fully_expanded());
    }
    let roots: Vec<usize> = st.get_root_nodes().iter().map(|n| n.idx).collect();
    let want: Vec<usize> = (0..m.n.len()).filter(|i| m.n[*i].parent.is_none()).collect();
    ensure!(roots == want, "roots", "roots {:?}, expected {:?}", roots, want);
    Ok(())
}

/// Reads the new node `idx`, checks it against its parent, adds it to the model.
fn child<T: Ref>(m: &mut Model<T>, st: &NodeStore<T>, parent: usize, idx: usize) -> Res {
    ensure!(idx == m.n.len() && idx < count_nodes(st), "new-index", "the new child of {} got index {} with {} nodes before", parent, idx, m.n.len());
    let nd = st.get_node(idx);
    ensure!(nd.parent == Some(parent), "parent-link", "the new child {} of {} has parent {:?}", idx, parent, nd.parent);
    let a = match &nd.action_taken {
        Some(a) => a.clone(),
        None => return fail("no-action", format!("the new child {} has no recorded play", idx)),
    };
    let p = &m.n[parent];
    if let Err(e) = p.state.ref_follows(&a, &nd.state) {
        return fail("child-state", e);
    }
    let k = p.state.ref_key(&a);
    let dup = p.children.iter().any(|c| p.state.ref_key(m.n[*c].action.as_ref().unwrap()) == k);
    ensure!(!dup, "expanded-twice", "{:?} was expanded before in {}", a, p.state.show());
    m.add(&nd);
    m.n[parent].children.push(idx);
    m.n[parent].left -= 1;
    Ok(())
}

fn leaf_ok<T: Ref>(m: &Model<T>, leaf: usize) -> bool {
    m.n[leaf].left > 0 || m.n[leaf].children.is_empty()
}

/// Is `leaf` where the rule leads from `root`?
fn check_leaf<T: Ref>(m: &Model<T>, root: usize, leaf: usize, c: f64, o: &mut Obs) -> Res {
    ensure!(leaf < m.n.len() && m.root_of(leaf) == root, "leaf-tree", "selection from {} ends at {}", root, leaf);
    ensure!(leaf_ok(m, leaf), "not-a-leaf", "selection ends at {}, fully expanded with {} children", leaf, m.n[leaf].children.len());
    let mut path = vec![leaf];
    while let Some(p) = m.n[*path.last().unwrap()].parent {
        path.push(p);
    }
    path.reverse();
    for w in path.windows(2) {
        let (p, ch) = (w[0], w[1]);
        ensure!(!leaf_ok(m, p), "past-leaf", "selection goes through {}, which still has plays to expand", p);
        let all = &m.n[p].children;
        if all.iter().any(|k| m.n[*k].visits == 0.0) || m.n[p].visits < 1.0 {
            continue; // the bound is not defined for unvisited children
        }
        let best = all.iter().map(|k| m.ucb(*k, c)).fold(f64::NEG_INFINITY, f64::max);
        let got = m.ucb(ch, c);
        ensure!(got >= best - 1e-4 * (1.0 + best.abs()), "ucb", "selection at {} takes child {} with bound {:.5}, the best is {:.5}", p, ch, got, best);
        o.class_if(all.len() > 1, "choice by bound");
    }
    Ok(())
}

/// One iteration of the search, made of the public steps.
fn iterate<T: Ref>(m: &mut Model<T>, st: &mut NodeStore<T>, r: usize, c: f64, limit: u8, o: &mut Obs) -> Res<String> {
    let leaf = sut("select_leaf_node", || select_leaf_node(r, st, c as f32))?;
    check_leaf(m, r, leaf, c, o)?;
    let mut at = leaf;
    let player = m.n[r].state.get_player();
    let mut result = None;
    if let Some(w) = m.n[leaf].state.ref_outcome() {
        result = Some((w * player) as f32);
        o.class("iteration ends in a finished game");
    } else if m.n[leaf].left > 0 {
        at = sut("expand", || st.get_node(leaf).expand(st))?;
        child(m, st, leaf, at)?;
    }
    let v = match result {
        Some(v) => v,
        None => sut("simulate", || st.get_node(at).simulate(player, limit as usize))?,
    };
    sut("backpropagate", || backpropagate(at, v, st))?;
    m.back_up(at, v as f64);
    o.class("iteration");
    Ok(format!("iterate {} c={:.2}: leaf {}, node {}, result {}", r, c, leaf, at, v))
}

fn run<T: Ref>(starts: &[T], ops: &[Op], o: &mut Obs) -> Res {
    let mut st: NodeStore<T> = NodeStore::new();
    let mut m: Model<T> = Model { n: vec![] };
    agree(&m, &st, "creation")?;
    let add_root = |m: &mut Model<T>, st: &mut NodeStore<T>, k: usize| -> Res {
        let s = starts[k % starts.len()];
        let i = sut("add_node", || st.add_node(s, None, None, 0.25))?;
        ensure!(i == m.n.len(), "new-index", "the new root got index {} with {} nodes before", i, m.n.len());
        let nd = st.get_node(i);
        ensure!(nd.parent.is_none() && nd.action_taken.is_none() && nd.children.is_empty() && nd.policy == 0.25, "new-root", "new root {:?}", nd);
        ensure!(nd.state.same_state(&s), "state-changed", "new root holds {}", nd.state.show());
        m.add(&nd);
        Ok(())
    };
    add_root(&mut m, &mut st, 0)?;
    let mut done = vec![];
    for op in ops {
        let at = |k: &u16| *k as usize % m.n.len();
        let root_at = |k: &u16| {
            let r: Vec<usize> = (0..m.n.len()).filter(|i| m.n[*i].parent.is_none()).collect();
            r[*k as usize % r.len()]
        };
        o.eval();
        match op {
            Op::Root(k) => {
                if m.n.len() > 400 {
                    continue;
                }
                add_root(&mut m, &mut st, *k as usize)?;
                done.push("root".to_string());
            }
            Op::Expand(k) => {
                let i = at(k);
                if m.n[i].left == 0 {
                    continue;
                }
                let idx = sut("expand", || st.get_node(i).expand(&mut st))?;
                child(&mut m, &st, i, idx)?;
                done.push(format!("expand {} -> {}", i, idx));
            }
            Op::ExpandAll(k, g, tensor) => {
                let i = at(k);
                if m.n.len() > 600 {
                    continue;
                }
                let pol: Vec<f32> = (0..T::ACTION_SPACE_SIZE as usize).map(|x| ((x * 37 + *g as usize * 11) % 101) as f32 / 101.0).collect();
                let plays = st.get_node(i).expandable_moves;
                let mut nd = st.get_node(i);
                if *tensor {
                    let t = Tensor::from_slice(&pol);
                    sut("alpha_expand_tensor", || nd.alpha_expand_tensor(&mut st, &t))?;
                } else {
                    sut("alpha_expand", || nd.alpha_expand(&mut st, pol.clone()))?;
                }
                let n0 = m.n.len();
                ensure!(count_nodes(&st) == n0 + plays.len(), "node-count", "expanding {} plays of node {} adds {} nodes", plays.len(), i, count_nodes(&st) - n0);
                for idx in n0..n0 + plays.len() {
                    child(&mut m, &st, i, idx)?;
                    let a = m.n[idx].action.clone().unwrap();
                    let want = pol[sut("encode", || m.n[i].state.encode(&a))? as usize];
                    ensure!(m.n[idx].policy == want, "prior", "child {:?} of node {} gets prior {}, expected {}", a, i, m.n[idx].policy, want);
                }
                o.class_if(plays.len() > 1, "all plays at once");
                done.push(format!("expand all {} ({} plays)", i, plays.len()));
            }
            Op::Iterate { root, c, limit } => {
                let r = root_at(root);
                done.push(iterate(&mut m, &mut st, r, *c, *limit, o)?);
            }
            Op::Run { root, c, limit, times } => {
                let r = root_at(root);
                let mut last = String::new();
                for _ in 0..*times {
                    if m.n.len() > 1500 {
                        break;
                    }
                    last = iterate(&mut m, &mut st, r, *c, *limit, o)?;
                }
                let kids = m.n[r].children.len();
                o.class_if(m.n[r].left == 0 && kids >= 40 && m.n[r].children.iter().all(|k| m.n[*k].visits > 0.0), "forty plays or more, all of them visited");
                done.push(format!("{} iterations, the last: {}", times, last));
            }
            Op::BackUp(k, r) => {
                let i = at(k);
                sut("backpropagate", || backpropagate(i, *r as f32, &mut st))?;
                m.back_up(i, *r as f32 as f64);
                let mut depth = 0;
                let mut q = i;
                while let Some(p) = m.n[q].parent {
                    depth += 1;
                    q = p;
                }
                o.class(format!("back-up from depth {}", depth.min(4)));
                done.push(format!("back up {} with {}", i, r));
            }
            Op::Select { root, c } => {
                let r = root_at(root);
                let leaf = sut("select_leaf_node", || select_leaf_node(r, &st, *c as f32))?;
                check_leaf(&m, r, leaf, *c, o)?;
                // the bounds themselves
                for i in 0..m.n.len() {
                    let n = st.get_node_ref(i);
                    if m.n[i].parent.is_none() {
                        ensure!(n.ucb(&st, *c as f32) == f32::INFINITY, "ucb-root", "the root has bound {}", n.ucb(&st, *c as f32));
                    } else if m.n[i].visits > 0.0 && m.n[m.n[i].parent.unwrap()].visits >= 1.0 {
                        let (g, w) = (n.ucb(&st, *c as f32), m.ucb(i, *c));
                        ensure!(close(g, w), "ucb-value", "node {} has bound {}, expected {:.5}", i, g, w);
                        ensure!(close(n.win_pct(), m.n[i].value / m.n[i].visits), "win-pct", "node {} has mean {}", i, n.win_pct());
                    }
                }
                done.push(format!("select {} c={:.2} -> {}", r, c, leaf));
            }
            Op::Store { at: k, visits, value, in_place } => {
                let i = at(k);
                let (v, w) = (*visits as f32, if *visits == 0 { 0.0 } else { *value as f32 / 2.0 });
                if *in_place {
                    let n = sut("get_node_as_mut", || st.get_node_as_mut(i))?;
                    n.visits = v;
                    n.value = w;
                } else {
                    let mut n = sut("get_node", || st.get_node(i))?;
                    n.visits = v;
                    n.value = w;
                    sut("set_node", || st.set_node(&n))?;
                }
                o.class_if((v as f64) < m.n[i].visits, "stored with fewer visits");
                m.n[i].visits = v as f64;
                m.n[i].value = w as f64;
                done.push(format!("store {} with {} visits, value {}", i, v, w));
            }
            Op::Answer(k) => {
                let i = at(k);
                let a = sut("select_most_visits", || select_most_visits(i, &st))?;
                let ch = &m.n[i].children;
                if ch.is_empty() {
                    ensure!(a == T::EMPTY_MOVE, "answer", "node {} without children answers {:?}", i, a);
                } else {
                    let most = ch.iter().map(|k| m.n[*k].visits).fold(0.0, f64::max);
                    let ok = ch.iter().any(|k| m.n[*k].visits == most && m.n[*k].action.as_ref() == Some(&a));
                    ensure!(ok, "answer", "node {} answers {:?}, which is not a most visited child ({} visits)", i, a, most);
                    o.class_if(ch.len() > 1 && most > 0.0, "answer among several");
                    if ch.iter().all(|k| m.n[*k].visits > 0.0) {
                        let w = sut("select_win_pct", || select_win_pct(i, &st))?;
                        let mean = |k: &usize| m.n[*k].value / m.n[*k].visits;
                        let best = ch.iter().map(mean).fold(f64::NEG_INFINITY, f64::max);
                        ensure!(ch.iter().any(|k| mean(k) >= best - 1e-4 && m.n[*k].action.as_ref() == Some(&w)), "answer-mean", "node {} answers {:?} by mean value, best mean {}", i, w, best);
                    }
                }
            }
        }
        if let Some(d) = done.last() {
            agree(&m, &st, d)?;
        }
    }
    let nodes = audit(&st)?;
    let deep = m.n.iter().filter(|x| x.parent.map_or(false, |p| m.n[p].parent.is_some())).count();
    o.class_if(deep > 0, "tree of depth two or more");
    if m.n.iter().any(|x| x.visits > 0.0) && nodes.len() > 3 {
        o.nontrivial(format!("{} {:?}", starts[0].show(), done));
    }
    o.sample(|| format!("{} nodes, {} below depth one; {}", nodes.len(), deep, done.iter().take(8).cloned().collect::<Vec<_>>().join("; ")));
    Ok(())
}

fn tictactoe(c: &(Vec<(bool, Vec<u8>)>, Vec<Op>), o: &mut Obs) -> Res {
    let s: Vec<TicTacToe> = c.0.iter().map(|(f, p)| glue::tgame(TPos::run(if *f { 1 } else { -1 }, p).last().unwrap())).collect();
    run(&s, &c.1, o)
}

fn backgammon(c: &(Vec<Pos>, Vec<Op>), o: &mut Obs) -> Res {
    let s: Vec<Backgammon> = c.0.iter().map(glue::bgame).collect();
    run(&s, &c.1, o)
}

/// Nodes with many plays, visited until every play has a bound.
fn wide(c: &(Vec<Pos>, (u16, f64, u16), Vec<Op>), o: &mut Obs) -> Res {
    let s: Vec<Backgammon> = c.0.iter().map(glue::bgame).collect();
    let (root, cc, times) = c.1;
    let mut ops = vec![Op::Run { root, c: cc, limit: 2, times }];
    ops.extend(c.2.iter().cloned());
    ops.push(Op::Answer(0));
    run(&s, &ops, o)
}

/// The whole plain search answers like the loop made of its public steps.
fn whole(c: &(bool, Vec<u8>, u32, f64, u32), o: &mut Obs) -> Res {
    let (first, picks, iterations, cc, limit) = c;
    let p = *TPos::run(if *first { 1 } else { -1 }, picks).last().unwrap();
    if p.outcome().is_some() || p.empty_cells().len() < 2 {
        return Ok(());
    }
    let g = glue::tgame(&p);
    let mc = Mc { iterations: *iterations, c: *cc, limit: *limit as u64, alpha: 0.3, eps: 0.0 }.build();
    let n = 400;
    let (mut a, mut b) = ([0u64; 9], [0u64; 9]);
    for _ in 0..n {
        a[sut("mct_search", || mct_search(g, g.get_player(), &mc))? as usize % 9] += 1;
        let mut st = NodeStore::new();
        let r = st.add_node(g, None, None, 0.0);
        for _ in 0..*iterations {
            let leaf = select_leaf_node(r, &st, *cc as f32);
            let (at, v) = match glue::tpos_of(&st.get_node(leaf).state).outcome() {
                Some(w) => (leaf, (w * p.player) as f32),
                None => {
                    let at = st.get_node(leaf).expand(&mut st);
                    (at, st.get_node(at).simulate(p.player, *limit as usize))
                }
            };
            backpropagate(at, v, &mut st);
        }
        b[select_most_visits(r, &st) as usize % 9] += 1;
        o.eval();
    }
    let mut x = 0.0;
    let mut dof = -1.0;
    for i in 0..9 {
        let t = (a[i] + b[i]) as f64;
        if t >= 10.0 {
            x += (a[i] as f64 - b[i] as f64).powi(2) / t;
            dof += 1.0;
        }
    }
    let z = if dof >= 1.0 { vh::stats::chi_z(x, dof) } else { 0.0 };
    ensure!(z < 6.0, "whole-search", "{} searches of {:?} with {} iterations (c {:.2}, limit {}) answer {:?}, the steps of the search answer {:?} (score {:.1})", n, p, iterations, cc, limit, a, b, z);
    let used = a.iter().filter(|x| **x > 0).count();
    o.class(format!("{} different answers", used.min(4)));
    if used > 1 {
        o.nontrivial((p, *iterations));
    }
    o.sample(|| format!("{:?}, {} iterations: {:?} / {:?}", p, iterations, a, b));
    Ok(())
}

/// More nodes than sixteen bits can number: late nodes know their parents, plays and positions like early ones.
fn many_nodes(c: &(World, u32, u64), o: &mut Obs) -> Res {
    use rand::{Rng, SeedableRng};
    type S = Syn<9, 3, 9, false>;
    c.0.set();
    let mut r = rand::rngs::StdRng::seed_from_u64(c.2);
    let mut st: NodeStore<S> = NodeStore::new();
    let (mut own, mut parents): (Vec<S>, Vec<Option<usize>>) = (vec![], vec![]);
    let mut open: Vec<usize> = vec![];
    while own.len() < c.1 as usize {
        if open.is_empty() || r.gen_ratio(1, 50) {
            let g = S::open(c.0, r.gen(), &[]);
            let at = sut("add_node", || st.add_node(g, None, None, 0.0))?;
            ensure!(at == own.len(), "index", "node {} is given the index {}", own.len(), at);
            own.push(g);
            parents.push(None);
            open.push(at);
            continue;
        }
        let k = r.gen_range(open.len().saturating_sub(2000)..open.len());
        let from = open[k];
        if st.get_node_ref(from).expandable_moves.is_empty() || own[from].outcome().is_some() {
            open.swap_remove(k);
            continue;
        }
        let at = sut("expand", || st.get_node(from).expand(&mut st))?;
        ensure!(at == own.len(), "index", "node {} is given the index {}", own.len(), at);
        let n = sut("get_node", || st.get_node(at))?;
        ensure!(n.idx == at && n.parent == Some(from), "links", "node {} under {} says it is {} under {:?}", at, from, n.idx, n.parent);
        let m = match &n.action_taken {
            Some(m) => m.0,
            None => return fail("action", format!("node {} does not know its play", at)),
        };
        ensure!(own[from].steps().contains(&m) && n.state.same(&own[from].after(m)), "state", "node {} of {} holds {:?}, which does not come after {:?} by {}", at, own.len(), n.state, own[from], m);
        ensure!(st.get_node_ref(from).children.contains(&at), "links", "node {} does not know its child {}", from, at);
        own.push(n.state);
        parents.push(Some(from));
        open.push(at);
    }
    for _ in 0..own.len() {
        o.eval();
    }
    let mut visits = vec![0f32; own.len()];
    for _ in 0..2000 {
        let leaf = r.gen_range(own.len() / 2..own.len());
        sut("backpropagate", || backpropagate(leaf, 1.0, &mut st))?;
        let mut at = Some(leaf);
        while let Some(i) = at {
            visits[i] += 1.0;
            at = parents[i];
        }
    }
    for i in 0..own.len() {
        let n = st.get_node_ref(i);
        ensure!(n.state.same(&own[i]) && n.parent == parents[i] && n.idx == i, "changed", "node {} of {} is not what it was", i, own.len());
        ensure!(n.visits == visits[i], "visits", "node {} of {} has {} visits, {} were credited below it", i, own.len(), n.visits, visits[i]);
        ensure!(n.children.iter().all(|k| parents[*k] == Some(i)), "links", "node {} of {} has children {:?} of another", i, own.len(), n.children);
    }
    o.class(format!("{}+ nodes", own.len() / 65_536 * 65_536));
    o.nontrivial(c);
    o.sample(|| format!("{} nodes, {} trees", own.len(), parents.iter().filter(|p| p.is_none()).count()));
    Ok(())
}

use die_e::base::LearnableGame;

fn synthetic<const A: i64, const C: i64, const W: i64, const D: bool>(c: &(World, Vec<(u8, Vec<u8>)>, Vec<Op>), o: &mut Obs) -> Res {
    c.0.set();
    let s: Vec<Syn<A, C, W, D>> = c.1.iter().map(|(n, p)| *Syn::run(c.0, *n as u32, p).last().unwrap()).collect();
    run(&s, &c.2, o)
}

/// A made-up game of the given shape (C32); `k` scales the number of cases.
#[allow(dead_code)]
pub fn any_game<const A: i64, const C: i64, const W: i64, const D: bool>(p: &mut Prop, name: &str, branch: u8, k: u32) {
    let starts = vec((any::<u8>(), vec(any::<u8>(), 0..6)), 1..4);
    p.family(&format!("trees {}", name), times((900, 20_000), k), (world(1..=8, 1..=branch), starts, vec(op(), 1..50)), synthetic::<A, C, W, D>);
}

fn main() {
    let mut p = Prop::new("C14", "distinct operation histories with at least four nodes and a back-up; distinct positions with varying answers")
        .assume("selection among children that were never visited is left open, the bound is undefined there; ties within 1e-4 are accepted either way");
    p.family("tictactoe", (12_000, 400_000), (vec((any::<bool>(), vec(any::<u8>(), 0..8)), 1..4), vec(op(), 1..60)), tictactoe);
    p.family("backgammon", (3000, 60_000), (vec(gen::position(), 1..3), vec(op(), 1..40)), backgammon);
    p.family_opts("wide", (400, 10_000), 40, (vec(gen::wide(), 1..3), (any::<u16>(), 0.05f64..3.0, 100u16..300), vec(op(), 1..12)), wide);
    p.family_opts("whole", (400, 10_000), 30, (any::<bool>(), vec(any::<u8>(), 1..7), 1u32..40, 0.1f64..3.0, 9u32..20), whole);
    let starts = || vec((any::<u8>(), vec(any::<u8>(), 0..6)), 1..4);
    p.family_opts("many-nodes", (8, 200), 4, (world(2..=12, 2..=9), prop_oneof![60_000u32..65_540, 65_540u32..140_000], any::<u64>()), many_nodes);
    p.family("synthetic", (4000, 100_000), (world(1..=8, 1..=7), starts(), vec(op(), 1..60)), synthetic::<9, 3, 9, false>);
    p.family("synthetic-large", (1500, 40_000), (world(1..=8, 1..=40), starts(), vec(op(), 1..40)), synthetic::<2000, 1, 8, false>);
    p.finish()
}
