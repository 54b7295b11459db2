From ea9862f2f54223fafa7e5f9742d4934467dd8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 01/22] fix: bear off with a higher die only from the rearmost
 point

The rear-most test summed the points behind, so opposing checkers in the
home board cancelled out own checkers and illegal bear-offs were offered.
---
 src/backgammon/backgammon_logic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 51227fd..6c03091 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -571,8 +571,8 @@ impl Backgammon {
                 for m_idx in (0..point).rev() {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[m_idx_usize + 1..6].iter().sum();
-                    if n_pieces_on_point < 0 && left_sum >= 0 {
+                    let has_pieces_behind = board[m_idx_usize + 1..6].iter().any(|&n| n < 0);
+                    if n_pieces_on_point < 0 && !has_pieces_behind {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
@@ -588,8 +588,8 @@ impl Backgammon {
                 for m_idx in point..=23 {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[18..m_idx_usize].iter().sum();
-                    if n_pieces_on_point > 0 && left_sum <= 0 {
+                    let has_pieces_behind = board[18..m_idx_usize].iter().any(|&n| n > 0);
+                    if n_pieces_on_point > 0 && !has_pieces_behind {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
-- 
2.43.0


From 4852c2c7eca5050eedb4996fdf34849d299511df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 02/22] fix: require both dice to be played when possible

Plays using a single die were offered although another play uses both.
---
 src/backgammon/backgammon_logic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 6c03091..587d7f4 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -409,7 +409,10 @@ impl LearnableGame for Backgammon {
         };
         let action_trees = Self::_get_action_trees(&all_moves, self.board, self.player);
         // parse trees into actions here
-        let actions = Self::extract_sequences_list(action_trees);
+        let mut actions = Self::extract_sequences_list(action_trees);
+        // both dice must be played whenever it is possible to do so
+        let max_len = actions.iter().map(|a| a.len()).max().unwrap_or(0);
+        actions.retain(|a| a.len() == max_len);
         Self::remove_duplicate_states(self.board, actions, self.player)
     }
 }
-- 
2.43.0


From 07fd41af6e80079ef103e55eb45c6b9f9039ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 03/22] fix: check the rolled out state for a winner in
 Node::simulate

The check looked at the node's own state, so every rollout from an open
position returned 0.
---
 src/mcts/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index e3d91a7..598cfed 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -178,7 +178,7 @@ impl <T: LearnableGame> Node<T>{
         let mut curr_state = self.state;
 
         for _ in 0..sim_limit {
-            if let Some(winner) = self.state.check_winner() {
+            if let Some(winner) = curr_state.check_winner() {
                 return if winner == player {1.}
                 else if winner == -player {-1.}
                 else {0.};
-- 
2.43.0


From bea11c71c94d49a242a985a26350c2ed3e6547c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 04/22] fix: do not panic on positions without valid moves in
 mct_search

expand() was called on nodes whose player has no valid move, at the root
and inside the tree.
---
 src/mcts/simple_mcts.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index d8c2210..4480c9b 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,6 +27,10 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
+            backpropagate(selected_node_idx, value, &mut store)
+        } else if selected_node.is_fully_expanded() {
+            // Leaf without valid moves, the turn has to be skipped
+            let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
             backpropagate(selected_node_idx, value, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
-- 
2.43.0


From b7aff0590946e6a84526d539d4ded4845e81d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 05/22] fix: make alpha_mcts usable

The policy of shape [1, N] was indexed as if it were one-dimensional, and
the value of a finished leaf was taken from the (unfinished) root state.
Both panicked, the first one on every call.
---
 src/mcts/alpha_mcts.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 981da3c..0b1b1a8 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -35,7 +35,7 @@ fn select_alpha<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>, c: f32)
 pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut NodeStore<T>, net: &ResNet, state: &impl LearnableGame, mcts_config: &MctsConfig) {
     let mut root_node = store.get_node(root_idx);
     
-    let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false);
+    let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false).squeeze_dim(0);
 
     let policy_vec = turn_policy_to_probs(&policy, &root_node);
     root_node.alpha_expand(store, policy_vec);
@@ -69,14 +69,16 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
 
-        let value = if !selected_node.is_terminal() {
+        let value = if let Some(winner) = selected_node.state.check_winner() {
+            if winner == state.get_player() {1.}
+            else if winner == -state.get_player() {-1.}
+            else {0.}
+        } else {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
-            let policy_vec = turn_policy_to_probs(&policy, &selected_node);
+            let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
             eval.double_value(&[0]) as f32
-        } else {
-            ((state.check_winner().unwrap() + 1) / 2) as f32
         };
 
         backpropagate(idx, value, &mut store);
-- 
2.43.0


From bee68452658409af18c307194dabf48fb3297c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 06/22] fix: evaluate only the nodes selected in the iteration
 in alpha_mcts_parallel

Games whose selected leaf is finished kept the node selected in an earlier
iteration (or node 0), which was evaluated and backed up again.
---
 src/mcts/alpha_mcts.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 0b1b1a8..0120458 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -140,9 +140,6 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
     */
     let games: HashSet<usize> = HashSet::from_iter(0..states.len());
 
-    // Game id to node idx mapping
-    let mut selected_nodes_idxs = vec![0; states.len()];
-
     let pb = match pb {
         Some(p) => p,
         None => ProgressBar::new(mcts_config.iterations as u64)
@@ -150,7 +147,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
 
     for _ in 0..mcts_config.iterations {
         // Clear selected node indices
-        let mut node_selected = false;
+        let mut selected_nodes_idxs = vec![];
         pb.inc(1);
         for &game_idx in games.iter() {
             let idx = alpha_select_leaf_node(game_idx, store, mcts_config.c);
@@ -164,12 +161,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                node_selected = true;
-                selected_nodes_idxs[game_idx] = selected_node.idx;
+                selected_nodes_idxs.push(selected_node.idx);
             }
         }
 
-        if !node_selected {
+        if selected_nodes_idxs.is_empty() {
             continue;
         }
             
-- 
2.43.0


From 0981426bc043b427aacb1c564e37e74809807ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 07/22] fix: let both searches play for the player on turn at
 each node

Values were kept from the root player's perspective everywhere and the
opponent's nodes maximised them too, so the searches assumed an opponent
that helps; network evaluations, which are from the perspective of the
player on turn, were added unconverted.
---
 src/mcts/alpha_mcts.rs  | 10 +++++++---
 src/mcts/simple_mcts.rs | 21 +++++++++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 0120458..ecb15f7 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -8,7 +8,7 @@ use tch::Tensor;
 
 use crate::{alphazero::nnet::ResNet, constants::DEVICE, mcts::{noise::apply_dirichlet, utils::{turn_policy_to_probs_tensor, turn_policy_to_probs_tensor_parallel}}, MctsConfig, base::LearnableGame};
 
-use super::{node_store::NodeStore, node::Node, simple_mcts::backpropagate, utils::{turn_policy_to_probs, get_prob_tensor}};
+use super::{node_store::NodeStore, node::Node, simple_mcts::{backpropagate, get_root_player}, utils::{turn_policy_to_probs, get_prob_tensor}};
 
 
 fn alpha_select_leaf_node<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>, c: f32) -> usize {
@@ -78,7 +78,9 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
 
             let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
-            eval.double_value(&[0]) as f32
+            // eval is from the perspective of the player on turn at the selected node
+            let eval = eval.double_value(&[0]) as f32;
+            if selected_node.state.get_player() == state.get_player() {eval} else {-eval}
         };
 
         backpropagate(idx, value, &mut store);
@@ -193,7 +195,9 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
             let prob_tensor = turn_policy_to_probs_tensor(&policy_i, &node);
             // Expand selected node
             node.alpha_expand_tensor(store, &prob_tensor);
-            let value = eval_i.double_value(&[0]) as f32;
+            // eval is from the perspective of the player on turn at the selected node
+            let eval = eval_i.double_value(&[0]) as f32;
+            let value = if node.state.get_player() == get_root_player(node_idx, store) {eval} else {-eval};
             backpropagate(node.idx, value, store);
         }
     }
diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index 4480c9b..4e18364 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -97,11 +97,28 @@ pub fn select_leaf_node<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>,
     select_leaf_node(select_ucb(node_idx, store, c).idx, store, c)
 }
 
+/// Returns the player on turn at the root of the tree of the node
+pub fn get_root_player<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>) -> i8 {
+    let node = store.get_node_ref(node_idx);
+    match node.parent {
+        Some(parent) => get_root_player(parent, store),
+        None => node.state.get_player(),
+    }
+}
+
+/// Result is from the perspective of the player on turn at the root,
+/// nodes store their value from the perspective of the player who selects them (the player of their parent)
 pub fn backpropagate<T: LearnableGame>(node_idx: usize, result: f32, store: &mut NodeStore<T>) {
+    let root_player = get_root_player(node_idx, store);
+    let parent = store.get_node_ref(node_idx).parent;
+    let selecting_player = match parent {
+        Some(parent) => store.get_node_ref(parent).state.get_player(),
+        None => root_player,
+    };
     let node = store.get_node_as_mut(node_idx);
     node.visits += 1.0;
-    node.value += result;
-    if let Some(parent) = node.parent {
+    node.value += if selecting_player == root_player {result} else {-result};
+    if let Some(parent) = parent {
         backpropagate(parent, result, store)
     }
 }
-- 
2.43.0


From c6343b1406d02a186bd0a9eb1b54f8505d0d0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 08/22] fix: uniform priors when the policy gives the valid
 moves no weight

---
 src/mcts/utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mcts/utils.rs b/src/mcts/utils.rs
index 961c197..e3b3a21 100644
--- a/src/mcts/utils.rs
+++ b/src/mcts/utils.rs
@@ -66,7 +66,10 @@ pub fn turn_policy_to_probs_tensor_parallel<T: LearnableGame>(store: &NodeStore<
         })
     }).unzip();
     let _ = mask.index_put_(&[Some(Tensor::from_slice(&xs)), Some(Tensor::from_slice(&ys))], &Tensor::from(1_f32), false);
-    let selected_moves_tensor = policy * mask;
+    let selected_moves_tensor = policy * &mask;
+    // Policies without any weight on the valid moves become uniform over the valid moves
+    let no_weight = selected_moves_tensor.sum_dim_intlist(1, true, None).eq(0.);
+    let selected_moves_tensor = selected_moves_tensor + mask * no_weight;
     let moves_sum = selected_moves_tensor.sum_dim_intlist(1, true, None);
     selected_moves_tensor.divide(&moves_sum)
 }
@@ -79,6 +82,10 @@ pub fn turn_policy_to_probs_tensor<T: LearnableGame>(policy: &Tensor, node: &Nod
     let indices_tensor = vec![Some(Tensor::from_slice(&indices))];
     let values_to_put = policy.index(&indices_tensor);
     let _ = result.index_put_(&indices_tensor, &values_to_put, false);
+    if !result.sum(None).is_nonzero() {
+        // No weight on the valid moves, becomes uniform over the valid moves
+        let _ = result.index_put_(&indices_tensor, &values_to_put.ones_like(), false);
+    }
     let sum = result.sum(None);
     result / sum
 }
@@ -95,7 +102,8 @@ pub fn turn_policy_to_probs<T: LearnableGame>(policy: &Tensor, node: &Node<T>) -
 
     for i in 0..encoded_values.len() {
         let encoded_value = *encoded_values.get(i).unwrap();
-        let prob = values[encoded_value] / sum;
+        // If there is no weight on the valid moves the result is uniform over the valid moves
+        let prob = if sum > 0. {values[encoded_value] / sum} else {1. / encoded_values.len() as f32};
         values[encoded_value] = prob;
     }
 
-- 
2.43.0


From eebebdbeb535dc1954425eb3cd056fd19958e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 09/22] fix: load the stored model in AlphaZero::new

---
 src/alphazero/alphazero.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index a49edcc..25d1330 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -79,19 +79,20 @@ torch.optim.Adam(params, lr=0.001, betas=(0.9, 0.999), eps=1e-08, weight_decay=0
 
 impl AlphaZero {
     pub fn new<T: LearnableGame>(model_path: Option<PathBuf>, config: AlphaZeroConfig, mcts_config: MctsConfig, op: OptimizerParams) -> Self {
-        let mut vs = nn::VarStore::new(*DEVICE);
+        // The variables have to exist before a stored model can be loaded into them
+        let mut model = ResNet::new::<T>(nn::VarStore::new(*DEVICE));
 
         println!("Initializing AlphaZero...\nDevice: {:?}\n{:?}\n{:?}", *DEVICE, &config, mcts_config);
 
         match model_path {
-            Some(m_path) => match vs.load(&m_path) {
+            Some(m_path) => match model.vs.load(&m_path) {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
             None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
-                match vs.load(bm_path) {
+                match model.vs.load(bm_path) {
                     Ok(_) => println!("Successfully loaded best model"),
                     Err(e) => panic!("failed to load best model: {}", e),
                 }
@@ -99,10 +100,10 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
-        let opt = Adam::default().wd(op.wd).build(&vs, op.lr).unwrap();
+        let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-            model: ResNet::new::<T>(vs),
+            model,
             optimizer: opt,
             config,
             mcts_config,
-- 
2.43.0


From 5e27c85454fc021e52453136b2735c2c4c08654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 10/22] fix: load training data of a single sample

---
 src/alphazero/alphazero.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 25d1330..ef71db8 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -186,15 +186,15 @@ impl AlphaZero {
         if !path.exists() {
             panic!("path: {} does not exist!", path.to_str().unwrap())
         }
-        let ps = Tensor::load(path.join("ps.ot")).unwrap().squeeze();
-        let states = Tensor::load(path.join("states.ot")).unwrap().squeeze();
-        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap().squeeze();
+        let ps = Tensor::load(path.join("ps.ot")).unwrap();
+        let states = Tensor::load(path.join("states.ot")).unwrap();
+        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
         (0..data_size).map(|data_idx| {
             MemoryFragment {
                 outcome: outcomes.get(data_idx).int64_value(&[]) as i8,
-                ps: ps.get(data_idx).squeeze().shallow_clone(),
+                ps: ps.get(data_idx).shallow_clone(),
                 state: states.get(data_idx).shallow_clone(),
             }
         }).collect_vec()
-- 
2.43.0


From af076d0e907f763032874bc6d1ac9018e668f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:47 +0000
Subject: [PATCH 11/22] fix: label draws with 0 in self_play

---
 src/alphazero/alpha_no_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 5478b59..248ea1d 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -73,7 +73,7 @@ impl AlphaZero {
                 return memory
                     .iter()
                     .map(|mem| MemoryFragment {
-                        outcome: if mem.outcome == winner { 1 } else { -1 },
+                        outcome: if mem.outcome == winner { 1 } else if mem.outcome == -winner { -1 } else { 0 },
                         ps: mem.ps.shallow_clone(),
                         state: mem.state.shallow_clone(),
                     })
-- 
2.43.0


From ce6bdbdd9bc29985c6e12b29b650cf95b3db9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 12/22] fix: stop games at the round limit in
 self_play_parallel

---
 src/alphazero/alpha_parallel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index b47783e..64e246c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -177,6 +177,7 @@ impl AlphaZero {
                     });
                     all_memories.extend(curr_memory);
                     states_to_remove.push(*init_idx);
+                    continue;
                 }
 
                 // If prob tensor of the current state is all zeros then skip turn, has_children check just in case
-- 
2.43.0


From 86f3093efce4d2bcce390c7409634d0902595198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 13/22] fix: store only the samples of the iteration in
 learn_parallel

---
 src/alphazero/alpha_parallel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 64e246c..e81919c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -50,7 +50,6 @@ impl AlphaZero {
                 pb_self_play.set_message(format!("Self-play iteration #{}", sp_i + 1));
 
                 let mut res = self.self_play_parallel::<T>();
-                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Saving training data... Self-play iteration #{}",
                     sp_i + 1
@@ -59,7 +58,8 @@ impl AlphaZero {
                 // Make self play dir
                 let sp_dir_path = format!("{}/sp-{}", &lrn_path, sp_i);
                 let _ = fs::create_dir(&sp_dir_path);
-                self.save_training_data(&memory, Path::new(&sp_dir_path));
+                self.save_training_data(&res, Path::new(&sp_dir_path));
+                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Self-play iteration #{} complete, saved training data",
                     sp_i + 1
-- 
2.43.0


From 37a252d8d28506a935b6cd1a20d56105fd2512cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 14/22] fix: find exactly the self play directories in train

---
 src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 66eda67..06dacfb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -217,14 +217,14 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
 fn get_all_paths_rec(dir: &Path, res: &mut Vec<PathBuf>) -> io::Result<()> {
     if dir.is_dir() {
+        // dir itself can be the directory of a self play iteration
+        if dir.file_name().unwrap().to_str().unwrap().starts_with("sp-") {
+            res.push(dir.to_path_buf());
+            return Ok(());
+        }
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
-            let path = entry.path();
-            if path.file_name().unwrap().to_str().unwrap().contains("sp") {
-                res.push(path);
-            } else {
-                get_all_paths_rec(&path, res)?;
-            }
+            get_all_paths_rec(&entry.path(), res)?;
         }
     }
     Ok(())
-- 
2.43.0


From 676f6ed6e77a2a9e5e9a273c2848131d960fb8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 15/22] fix: create the models directory before saving into it

---
 src/alphazero/alpha_no_parallel.rs | 1 +
 src/alphazero/alpha_parallel.rs    | 1 +
 src/alphazero/alpha_versus.rs      | 1 +
 src/main.rs                        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 248ea1d..e98cf11 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -6,6 +6,7 @@ use super::alphazero::{AlphaZero, MemoryFragment};
 
 impl AlphaZero {
     pub fn learn<T: LearnableGame>(&mut self) {
+        let _ = std::fs::create_dir_all(format!("./models/{}", T::name()));
         for i in 0..self.config.learn_iterations {
             let mut memory: Vec<MemoryFragment> = vec![];
             for _ in 0..self.config.self_play_iterations {
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index e81919c..3ca5ccc 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -19,6 +19,7 @@ impl AlphaZero {
         let runpath_base = format!("./data/{}/run-{}", &T::name(), &run_id);
         println!("Staring up run with run_id: {}", &run_id);
         let _ = fs::create_dir_all(&runpath_base);
+        let _ = fs::create_dir_all(format!("./models/{}", &T::name()));
         let sty = ProgressStyle::with_template(
             "[{elapsed_precise}] {bar:40.cyan/blue} {pos:>7}/{len:7} {msg}",
         )
diff --git a/src/alphazero/alpha_versus.rs b/src/alphazero/alpha_versus.rs
index 7739762..204f094 100644
--- a/src/alphazero/alpha_versus.rs
+++ b/src/alphazero/alpha_versus.rs
@@ -18,6 +18,7 @@ impl AlphaZero {
         let best_model_path = PathBuf::from(best_model_path_str);
         if !best_model_path.exists() {
             println!("No best model was found, saving current model as best...");
+            let _ = std::fs::create_dir_all(format!("./models/{}", T::name()));
             match self.model.vs.save(&best_model_path) {
                 Ok(_) => println!("model saved!"),
                 Err(e) => println!("unable to save model, caught error: {}", e),
diff --git a/src/main.rs b/src/main.rs
index 06dacfb..8cc03ae 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -198,6 +198,7 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
             // Train and save model
             az.train(&mut training_data);
+            let _ = fs::create_dir_all(format!("./models/{}", T::name()));
             let model_path_str = format!("./models/{}/trained_model.ot", T::name());
             let final_out_path = out_path.unwrap_or(Path::new(&model_path_str).to_path_buf());
             match az.model.vs.save(&final_out_path) {
-- 
2.43.0


From a66348edef1e5da07af4116905e9e301c75017ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 16/22] fix: apply temperature without underflow and keep the
 result normalised

---
 src/alphazero/alpha_no_parallel.rs |  8 ++++----
 src/alphazero/alpha_parallel.rs    |  5 ++---
 src/alphazero/alphazero.rs         |  6 +++---
 src/mcts/utils.rs                  | 10 ++++++++++
 src/versus.rs                      |  5 ++---
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index e98cf11..35081a2 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -1,5 +1,5 @@
 use crate::{
-    base::LearnableGame, mcts::alpha_mcts::alpha_mcts,
+    base::LearnableGame, mcts::{alpha_mcts::alpha_mcts, utils::apply_temperature},
 };
 
 use super::alphazero::{AlphaZero, MemoryFragment};
@@ -45,7 +45,7 @@ impl AlphaZero {
         loop {
             println!("{}", state.to_pretty_str());
             // Get probabilities from mcts
-            let mut pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
+            let pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
                 Some(pi) => pi,
                 None => {
                     state.skip_turn();
@@ -54,14 +54,14 @@ impl AlphaZero {
             };
 
             // Apply temperature to pi
-            let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+            let temperatured_pi = apply_temperature(&pi, self.config.temperature);
             // Select an action from probabilities
             let selected_action = Self::weighted_select_tensor_idx(&temperatured_pi);
 
             // Save results to memory
             memory.push(MemoryFragment {
                 outcome: state.get_player(),
-                ps: pi,
+                ps: temperatured_pi,
                 state: state.as_tensor(),
             });
 
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 3ca5ccc..27095d4 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -6,7 +6,7 @@ use itertools::Itertools;
 use crate::{
     base::LearnableGame,
     mcts::{
-        alpha_mcts::alpha_mcts_parallel, node_store::NodeStore, utils::get_prob_tensor_parallel,
+        alpha_mcts::alpha_mcts_parallel, node_store::NodeStore, utils::{apply_temperature, get_prob_tensor_parallel},
     },
 };
 
@@ -162,8 +162,7 @@ impl AlphaZero {
             let roots = (0..states.len())
                 .map(|i| store.get_node_ref(i))
                 .collect_vec();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / self.config.temperature) // Apply temperature
+            let prob_tensor = apply_temperature(&get_prob_tensor_parallel(&roots, &store), self.config.temperature)
                 .to_device(tch::Device::Cpu); // Move to CPU for faster access
 
             for (processed_idx, (init_idx, state)) in states.values_mut().enumerate() {
diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index ef71db8..60e5120 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -18,7 +18,7 @@ use super::nnet::ResNet;
 
 use crate::{
     constants::{DEFAULT_TYPE, DEVICE},
-    mcts::alpha_mcts::alpha_mcts, MctsConfig, base::LearnableGame,
+    mcts::{alpha_mcts::alpha_mcts, utils::apply_temperature}, MctsConfig, base::LearnableGame,
 };
 
 #[derive(Debug)]
@@ -138,11 +138,11 @@ impl AlphaZero {
     }
 
     pub fn get_next_move_for_state<T: LearnableGame>(&self, current_state: &T) -> T::Move {
-        let mut pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
+        let pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
             Some(pi) => pi,
             None => return T::EMPTY_MOVE
         };
-        let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+        let temperatured_pi = apply_temperature(&pi, self.config.temperature);
         let selected_action = AlphaZero::weighted_select_tensor_idx(&temperatured_pi);
         current_state.decode(selected_action as u32)
     }
diff --git a/src/mcts/utils.rs b/src/mcts/utils.rs
index e3b3a21..ecf71c2 100644
--- a/src/mcts/utils.rs
+++ b/src/mcts/utils.rs
@@ -9,6 +9,16 @@ use crate::{
 
 use super::{node::Node, node_store::NodeStore};
 
+/**
+ * Applies temperature to action pick probabilities (of a single state or one state per row)
+ * Probabilities are divided by their maximum first, otherwise all of them can underflow to zero at low temperatures
+ */
+pub fn apply_temperature(probs: &Tensor, temperature: f64) -> Tensor {
+    let temperatured = (probs / probs.amax([-1], true)).pow_tensor_scalar(1.0 / temperature);
+    let sum = temperatured.sum_dim_intlist(-1, true, None);
+    temperatured / sum
+}
+
 pub fn get_prob_tensor<T: LearnableGame>(
     state: &T,
     root_node_idx: usize,
diff --git a/src/versus.rs b/src/versus.rs
index 38edd1f..d525000 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -6,7 +6,7 @@ use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};
 use serde::{Serialize, Deserialize};
 use nanoid::nanoid;
 
-use crate::{mcts::{simple_mcts::mct_search, utils::get_prob_tensor_parallel, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame};
+use crate::{mcts::{simple_mcts::mct_search, utils::{apply_temperature, get_prob_tensor_parallel}, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame};
 
 
 /*
@@ -278,8 +278,7 @@ fn get_actions_for_player<T: LearnableGame>(player: &Player, games: &[T], mcts_c
             let mut store = NodeStore::new();
             alpha_mcts_parallel(&mut store, games, model, mcts_config, Some(ProgressBar::hidden()));
             let roots = store.get_root_nodes();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / temp)
+            let prob_tensor = apply_temperature(&get_prob_tensor_parallel(&roots, &store), temp)
                 .to_device(tch::Device::Cpu);
 
             roots
-- 
2.43.0


From 83ea6789c3a86e12defc551036122187f017b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:28 +0000
Subject: [PATCH 17/22] fix: sample root noise without NaN when all components
 underflow

---
 src/mcts/noise.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/mcts/noise.rs b/src/mcts/noise.rs
index 3376a45..634d0f4 100644
--- a/src/mcts/noise.rs
+++ b/src/mcts/noise.rs
@@ -1,4 +1,4 @@
-use rand::thread_rng;
+use rand::{thread_rng, Rng};
 use rand_distr::{Dirichlet, Distribution};
 use tch::Tensor;
 
@@ -12,8 +12,7 @@ impl <T: LearnableGame> Node <T> {
             self.visits > 0.,
             "unable to apply dirichlet, node has no visits!"
         );
-        let dirichlet = Dirichlet::new(&vec![alpha; self.children.len()]).unwrap();
-        let sample = dirichlet.sample(&mut thread_rng());
+        let sample = sample_dirichlet(alpha, self.children.len());
         for (child_idx, noise) in self.children.iter().zip(sample) {
             let child = store.get_node_as_mut(*child_idx);
             child.policy = noise * eps + child.policy * (1. - eps)
@@ -21,13 +20,27 @@ impl <T: LearnableGame> Node <T> {
     }
 }
 
+/*
+    Sample from a symmetric dirichlet distribution of the given size
+    With a small alpha all components can underflow at once, their normalisation is then not finite,
+    in that limit the whole weight is on a single random component
+*/
+fn sample_dirichlet(alpha: f32, size: usize) -> Vec<f32> {
+    let mut rng = thread_rng();
+    let mut sample = Dirichlet::new(&vec![alpha; size]).unwrap().sample(&mut rng);
+    if sample.iter().any(|x| !x.is_finite()) {
+        sample.fill(0.);
+        sample[rng.gen_range(0..size)] = 1.;
+    }
+    sample
+}
+
 /*
     Apply dirichlet noise to a tensor
 */
 pub fn apply_dirichlet(tensor: &Tensor, alpha: f32, eps: f32) -> Tensor {
     let n_policies = tensor.size()[1] as usize;
-    let dirichlet = Dirichlet::new(&vec![alpha; n_policies]).unwrap();
-    let diriclet_tensor = Tensor::from_slice(&dirichlet.sample(&mut thread_rng()))
+    let diriclet_tensor = Tensor::from_slice(&sample_dirichlet(alpha, n_policies))
         .to_device_(*DEVICE, DEFAULT_TYPE, false, false)
         .unsqueeze(0);
     (1. - eps) * tensor + eps * diriclet_tensor
-- 
2.43.0


From 097ecf240a1ada00b27c20c42398c5b9e6a89815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:49 +0000
Subject: [PATCH 18/22] fix: turn_policy_to_probs only had room for the actions
 of backgammon

---
 src/mcts/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcts/utils.rs b/src/mcts/utils.rs
index ecf71c2..c007ecf 100644
--- a/src/mcts/utils.rs
+++ b/src/mcts/utils.rs
@@ -101,7 +101,7 @@ pub fn turn_policy_to_probs_tensor<T: LearnableGame>(policy: &Tensor, node: &Nod
 }
 
 pub fn turn_policy_to_probs<T: LearnableGame>(policy: &Tensor, node: &Node<T>) -> Vec<f32> {
-    let mut values: Vec<f32> = vec![0.0; 1352];
+    let mut values: Vec<f32> = vec![0.0; T::ACTION_SPACE_SIZE as usize];
     let mut encoded_values: Vec<usize> = Vec::with_capacity(node.expandable_moves.len());
     for action in &node.expandable_moves {
         let encoded_value = node.state.encode(action);
-- 
2.43.0


From b54ccc4ff15782edf9efed7b81385b9c042856b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:57 +0000
Subject: [PATCH 19/22] fix: loaded training data lost its batch dimension and,
 with one channel, could not be trained on

---
 src/alphazero/alphazero.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 60e5120..1040bcd 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -195,7 +195,8 @@ impl AlphaZero {
             MemoryFragment {
                 outcome: outcomes.get(data_idx).int64_value(&[]) as i8,
                 ps: ps.get(data_idx).shallow_clone(),
-                state: states.get(data_idx).shallow_clone(),
+                // Keep the batch dimension the state was saved with, as as_tensor() gives it
+                state: states.narrow(0, data_idx, 1),
             }
         }).collect_vec()
     }
-- 
2.43.0


From 2753d68576858b3e8d240d9011110c841d8f37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:37 +0000
Subject: [PATCH 20/22] fix: all positions of a batch were given the same root
 noise

---
 src/mcts/noise.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mcts/noise.rs b/src/mcts/noise.rs
index 634d0f4..6a6f6a6 100644
--- a/src/mcts/noise.rs
+++ b/src/mcts/noise.rs
@@ -36,12 +36,15 @@ fn sample_dirichlet(alpha: f32, size: usize) -> Vec<f32> {
 }
 
 /*
-    Apply dirichlet noise to a tensor
+    Apply dirichlet noise to a tensor of policies, each row gets a noise of its own
 */
 pub fn apply_dirichlet(tensor: &Tensor, alpha: f32, eps: f32) -> Tensor {
-    let n_policies = tensor.size()[1] as usize;
-    let diriclet_tensor = Tensor::from_slice(&sample_dirichlet(alpha, n_policies))
-        .to_device_(*DEVICE, DEFAULT_TYPE, false, false)
-        .unsqueeze(0);
-    (1. - eps) * tensor + eps * diriclet_tensor
+    let (n_states, n_policies) = tensor.size2().unwrap();
+    let noise: Vec<f32> = (0..n_states)
+        .flat_map(|_| sample_dirichlet(alpha, n_policies as usize))
+        .collect();
+    let dirichlet_tensor = Tensor::from_slice(&noise)
+        .view([n_states, n_policies])
+        .to_device_(*DEVICE, DEFAULT_TYPE, false, false);
+    (1. - eps) * tensor + eps * dirichlet_tensor
 }
-- 
2.43.0


From b0d0855594ba223c4f75cdccc4181129e154e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:46 +0000
Subject: [PATCH 21/22] fix: negative counts in the configuration wrapped
 around to huge ones

---
 src/alphazero/alphazero.rs |  1 +
 src/lib.rs                 | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 1040bcd..a568852 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -33,6 +33,7 @@ pub struct AlphaZeroConfig {
 
 impl AlphaZeroConfig {
     pub fn from_config(conf: &config::Config) -> Result<Self, config::ConfigError> {
+        crate::check_counts(conf, &["learn_iterations", "self_play_iterations", "num_epochs", "training_batch_size", "num_self_play_batches"])?;
         Ok(AlphaZeroConfig {
             temperature: conf.get_float("temperature")?,
             learn_iterations: conf.get_int("learn_iterations")? as usize,
diff --git a/src/lib.rs b/src/lib.rs
index 6599d0a..f1c34b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,8 +39,20 @@ pub struct MctsConfig {
     dirichlet_epsilon: f32
 }
 
+/// Parameters that count something can't be negative
+pub(crate) fn check_counts(conf: &Config, keys: &[&str]) -> Result<(), ConfigError> {
+    for key in keys {
+        let value = conf.get_int(key)?;
+        if value < 0 {
+            return Err(ConfigError::Message(format!("{} must not be negative, but is {}", key, value)));
+        }
+    }
+    Ok(())
+}
+
 impl MctsConfig {
     pub fn from_config(conf: &Config) -> Result<Self, ConfigError> {
+        check_counts(conf, &["iterations", "simulate_round_limit"])?;
         Ok(MctsConfig {
             iterations: conf.get_int("iterations")? as usize,
             c: conf.get_float("exploration_const")? as f32,
-- 
2.43.0


From 3b86795f21c029f4d833b951a1c9180c1f190e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:15 +0000
Subject: [PATCH 22/22] fix: root noise panicked for games with a single action

---
 src/mcts/noise.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mcts/noise.rs b/src/mcts/noise.rs
index 6a6f6a6..8259ff4 100644
--- a/src/mcts/noise.rs
+++ b/src/mcts/noise.rs
@@ -26,6 +26,9 @@ impl <T: LearnableGame> Node <T> {
     in that limit the whole weight is on a single random component
 */
 fn sample_dirichlet(alpha: f32, size: usize) -> Vec<f32> {
+    if size == 1 {
+        return vec![1.];
+    }
     let mut rng = thread_rng();
     let mut sample = Dirichlet::new(&vec![alpha; size]).unwrap().sample(&mut rng);
     if sample.iter().any(|x| !x.is_finite()) {
-- 
2.43.0

