From a811401a417ed60e1530d89f32808b5fd384f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 01/18] fix: rollouts look for a winner in the state being
 played out

Node::simulate tested the node's own (never changing) state, so every
rollout ran to the round limit and returned 0.
---
 src/mcts/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index e3d91a7..598cfed 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -178,7 +178,7 @@ impl <T: LearnableGame> Node<T>{
         let mut curr_state = self.state;
 
         for _ in 0..sim_limit {
-            if let Some(winner) = self.state.check_winner() {
+            if let Some(winner) = curr_state.check_winner() {
                 return if winner == player {1.}
                 else if winner == -player {-1.}
                 else {0.};
-- 
2.43.0


From 033f001cf35a88d10ae8a4d1b01b5445196d6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 02/18] fix: MCTS no longer panics on a position without legal
 moves

mct_search called expand() on a non-terminal leaf with no expandable moves
(a player that has to pass in backgammon).
---
 src/mcts/simple_mcts.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index d8c2210..53804ca 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,6 +27,10 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
+            backpropagate(selected_node_idx, value, &mut store)
+        } else if selected_node.is_fully_expanded() {
+            // The game goes on but there is no move to play, the player has to pass
+            let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
             backpropagate(selected_node_idx, value, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
-- 
2.43.0


From b23d175d24f67ff7225d90f34796b796af31143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 03/18] fix: parallel search evaluates only the leaves selected
 in this iteration

A game whose selected leaf was terminal kept the leaf of an earlier
iteration (or the root of game 0) in the list, so that leaf was expanded and
backed up again.
---
 src/mcts/alpha_mcts.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 981da3c..b1ced0c 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -132,14 +132,13 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                 - values ranging from 0 to N_SELF_PLAY_BATCHES
                 - used to track how many games are still not completed
             - Selected_nodes:
-                - N_SELF_PLAY_BATCHES node values
-                - selected_nodes[i] refers to the node that was last selected for game[i]
+                - the non-terminal nodes selected in the current iteration, at most one per game
 
     */
     let games: HashSet<usize> = HashSet::from_iter(0..states.len());
 
-    // Game id to node idx mapping
-    let mut selected_nodes_idxs = vec![0; states.len()];
+    // Nodes to evaluate in the current iteration
+    let mut selected_nodes_idxs: Vec<usize> = Vec::with_capacity(states.len());
 
     let pb = match pb {
         Some(p) => p,
@@ -148,7 +147,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
 
     for _ in 0..mcts_config.iterations {
         // Clear selected node indices
-        let mut node_selected = false;
+        selected_nodes_idxs.clear();
         pb.inc(1);
         for &game_idx in games.iter() {
             let idx = alpha_select_leaf_node(game_idx, store, mcts_config.c);
@@ -162,12 +161,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                node_selected = true;
-                selected_nodes_idxs[game_idx] = selected_node.idx;
+                selected_nodes_idxs.push(selected_node.idx);
             }
         }
 
-        if !node_selected {
+        if selected_nodes_idxs.is_empty() {
             continue;
         }
             
-- 
2.43.0


From 9540c1bb035d7b825cded5fe56ea890ace06818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 04/18] fix: alpha_mcts reads the batched policy and scores the
 terminal leaf

The network returns one row per state, which turn_policy_to_probs cannot
index directly (every call panicked), and the value of a terminal leaf was
taken from the root, which has no winner.
---
 src/mcts/alpha_mcts.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index b1ced0c..9f99fad 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -37,7 +37,7 @@ pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut No
     
     let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false);
 
-    let policy_vec = turn_policy_to_probs(&policy, &root_node);
+    let policy_vec = turn_policy_to_probs(&policy.get(0), &root_node);
     root_node.alpha_expand(store, policy_vec);
     if root_node.children.len() < 2 {
         // Don't apply dirichlet on a node with a single child
@@ -72,11 +72,14 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let value = if !selected_node.is_terminal() {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
-            let policy_vec = turn_policy_to_probs(&policy, &selected_node);
+            let policy_vec = turn_policy_to_probs(&policy.get(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
             eval.double_value(&[0]) as f32
         } else {
-            ((state.check_winner().unwrap() + 1) / 2) as f32
+            let winner = selected_node.state.check_winner().unwrap();
+            if winner == state.get_player() {1.}
+            else if winner == -state.get_player() {-1.}
+            else {0.}
         };
 
         backpropagate(idx, value, &mut store);
-- 
2.43.0


From 78cb9bfa19bd24e77e04535133806e3068ebb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 05/18] fix: self_play labels a drawn game 0 instead of a loss
 for both players

Every position of a draw was stored with outcome -1.
---
 src/alphazero/alpha_no_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 5478b59..8fe8b8e 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -73,7 +73,7 @@ impl AlphaZero {
                 return memory
                     .iter()
                     .map(|mem| MemoryFragment {
-                        outcome: if mem.outcome == winner { 1 } else { -1 },
+                        outcome: if winner == mem.outcome {1} else if winner == -mem.outcome {-1} else {0},
                         ps: mem.ps.shallow_clone(),
                         state: mem.state.shallow_clone(),
                     })
-- 
2.43.0


From 0b7e8c7044b3c863a9a2469f704c6f2904ea4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 06/18] fix: a game stopped by the round limit is not played on

Without the continue the game was played one more move after its memory had
been emitted as a draw; if that move won, the memory was emitted twice.
---
 src/alphazero/alpha_parallel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index b47783e..64e246c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -177,6 +177,7 @@ impl AlphaZero {
                     });
                     all_memories.extend(curr_memory);
                     states_to_remove.push(*init_idx);
+                    continue;
                 }
 
                 // If prob tensor of the current state is all zeros then skip turn, has_children check just in case
-- 
2.43.0


From 7fc5ee1e5f2927a61df84888a5f88679d6a2992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 07/18] fix: AlphaZero::new loads the weights into the built
 network

The VarStore was loaded while it was still empty, so the load was a silent
no-op and training always started from random weights.
---
 src/alphazero/alphazero.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index a49edcc..709c41a 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -79,19 +79,20 @@ torch.optim.Adam(params, lr=0.001, betas=(0.9, 0.999), eps=1e-08, weight_decay=0
 
 impl AlphaZero {
     pub fn new<T: LearnableGame>(model_path: Option<PathBuf>, config: AlphaZeroConfig, mcts_config: MctsConfig, op: OptimizerParams) -> Self {
-        let mut vs = nn::VarStore::new(*DEVICE);
+        // The variables have to exist before their values can be loaded
+        let mut model = ResNet::new::<T>(nn::VarStore::new(*DEVICE));
 
         println!("Initializing AlphaZero...\nDevice: {:?}\n{:?}\n{:?}", *DEVICE, &config, mcts_config);
 
         match model_path {
-            Some(m_path) => match vs.load(&m_path) {
+            Some(m_path) => match model.vs.load(&m_path) {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
             None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
-                match vs.load(bm_path) {
+                match model.vs.load(bm_path) {
                     Ok(_) => println!("Successfully loaded best model"),
                     Err(e) => panic!("failed to load best model: {}", e),
                 }
@@ -99,10 +100,10 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
-        let opt = Adam::default().wd(op.wd).build(&vs, op.lr).unwrap();
+        let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-            model: ResNet::new::<T>(vs),
+            model,
             optimizer: opt,
             config,
             mcts_config,
-- 
2.43.0


From 82e7bd8d6d507a32cfd55de65adf19e51cab8efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 08/18] fix: each sp directory stores the fragments of its own
 self-play iteration

The cumulative memory was saved, so loading a learn iteration yielded the
earlier fragments several times.
---
 src/alphazero/alpha_parallel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 64e246c..e81919c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -50,7 +50,6 @@ impl AlphaZero {
                 pb_self_play.set_message(format!("Self-play iteration #{}", sp_i + 1));
 
                 let mut res = self.self_play_parallel::<T>();
-                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Saving training data... Self-play iteration #{}",
                     sp_i + 1
@@ -59,7 +58,8 @@ impl AlphaZero {
                 // Make self play dir
                 let sp_dir_path = format!("{}/sp-{}", &lrn_path, sp_i);
                 let _ = fs::create_dir(&sp_dir_path);
-                self.save_training_data(&memory, Path::new(&sp_dir_path));
+                self.save_training_data(&res, Path::new(&sp_dir_path));
+                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Self-play iteration #{} complete, saved training data",
                     sp_i + 1
-- 
2.43.0


From d1b8e30dfb5bd6900c1841dd7e19132d39096274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 09/18] fix: training data holding a single fragment can be
 loaded

The bare squeeze dropped the batch dimension of a file with one fragment.
---
 src/alphazero/alphazero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 709c41a..cbed5da 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -186,9 +186,9 @@ impl AlphaZero {
         if !path.exists() {
             panic!("path: {} does not exist!", path.to_str().unwrap())
         }
-        let ps = Tensor::load(path.join("ps.ot")).unwrap().squeeze();
-        let states = Tensor::load(path.join("states.ot")).unwrap().squeeze();
-        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap().squeeze();
+        let ps = Tensor::load(path.join("ps.ot")).unwrap();
+        let states = Tensor::load(path.join("states.ot")).unwrap();
+        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
         (0..data_size).map(|data_idx| {
-- 
2.43.0


From 4903b4136df4367fcbe1ceef095ca33fbe43f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 10/18] fix: train finds exactly the sp directories under the
 requested path

A run id containing "sp" was taken for a self-play directory, a path given
down to the self-play iteration loaded nothing, and an I/O error while listing
was dropped.
---
 src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 66eda67..075c2c8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -186,7 +186,9 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
             }
             println!("Loading all data under {}", data_path.to_str().unwrap());
             let mut paths_to_load = vec![];
-            let _ = get_all_paths_rec(data_path, &mut paths_to_load);
+            if let Err(e) = get_all_paths_rec(data_path, &mut paths_to_load) {
+                panic!("[TRAIN] unable to list the training data under {}, error: {}", data_path.to_str().unwrap(), e);
+            }
             let mut training_data: Vec<MemoryFragment> = paths_to_load.par_iter().flat_map(|p| 
                 AlphaZero::load_training_data(p.as_path())
             ).collect();
@@ -217,14 +219,13 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
 fn get_all_paths_rec(dir: &Path, res: &mut Vec<PathBuf>) -> io::Result<()> {
     if dir.is_dir() {
+        if dir.file_name().unwrap().to_str().unwrap().starts_with("sp-") {
+            res.push(dir.to_path_buf());
+            return Ok(());
+        }
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
-            let path = entry.path();
-            if path.file_name().unwrap().to_str().unwrap().contains("sp") {
-                res.push(path);
-            } else {
-                get_all_paths_rec(&path, res)?;
-            }
+            get_all_paths_rec(&entry.path(), res)?;
         }
     }
     Ok(())
-- 
2.43.0


From fe38f78c2593c9d3b33eb4465c6ad318b72310f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 11/18] fix: bearing off with a larger die looks only at the
 player's own checkers

The sum of the higher points mixed both colours, so opponent checkers in the
home board could hide own checkers that have to be moved first.
---
 src/backgammon/backgammon_logic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 51227fd..907cd60 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -571,8 +571,8 @@ impl Backgammon {
                 for m_idx in (0..point).rev() {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[m_idx_usize + 1..6].iter().sum();
-                    if n_pieces_on_point < 0 && left_sum >= 0 {
+                    let none_left = board[m_idx_usize + 1..6].iter().all(|&n| n >= 0);
+                    if n_pieces_on_point < 0 && none_left {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
@@ -588,8 +588,8 @@ impl Backgammon {
                 for m_idx in point..=23 {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[18..m_idx_usize].iter().sum();
-                    if n_pieces_on_point > 0 && left_sum <= 0 {
+                    let none_left = board[18..m_idx_usize].iter().all(|&n| n <= 0);
+                    if n_pieces_on_point > 0 && none_left {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
-- 
2.43.0


From 5096c92f882e7411cfbeb6589d74074701913ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 12/18] fix: save_game reports a failed write

Dropping the BufWriter discards the error of its last flush, so save_game
returned Ok for a truncated file.
---
 src/versus.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/versus.rs b/src/versus.rs
index 38edd1f..1ab6551 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -58,6 +58,7 @@ pub fn save_game<T: LearnableGame>(game: &Game<T>, game_path: &str) -> Result<()
     let serialized = serde_json::to_string_pretty(game)?;
     let mut writer = std::io::BufWriter::new(file);
     writer.write_all(serialized.as_bytes())?;
+    writer.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 054023678cd47f1b1ed08019bf3a6ccda64acc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 13/18] fix: the round limit of a match also ends a game on a
 passed turn

The pass skipped the limit check, so a game in which a player keeps passing
went past the limit.
---
 src/versus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index 1ab6551..558b8c2 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -223,11 +223,10 @@ pub fn play<T: LearnableGame>(player1: Player, player2: Player, mcts_config: &Mc
 
             if action.eq(&T::EMPTY_MOVE) {
                 game_mut.skip_turn();
-                continue;
+            } else {
+                assert!(game_mut.get_valid_moves().contains(action));
+                game_mut.apply_move(action);
             }
-            assert!(game_mut.get_valid_moves().contains(action));
-
-            game_mut.apply_move(action);
 
             let winner = match game_mut.check_winner() {
                 Some(winner) => Some(winner),
-- 
2.43.0


From 13e3045dcc1b3d8585d3abe77847f667d44c8d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 14/18] fix: create the model directory before models are saved
 into it

On a fresh checkout ./models/<game> does not exist, so no trained model was
ever written and no best model was ever kept.
---
 src/alphazero/alpha_no_parallel.rs | 3 +++
 src/alphazero/alpha_parallel.rs    | 1 +
 src/main.rs                        | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 8fe8b8e..6ed22d8 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -1,3 +1,5 @@
+use std::fs;
+
 use crate::{
     base::LearnableGame, mcts::alpha_mcts::alpha_mcts,
 };
@@ -6,6 +8,7 @@ use super::alphazero::{AlphaZero, MemoryFragment};
 
 impl AlphaZero {
     pub fn learn<T: LearnableGame>(&mut self) {
+        let _ = fs::create_dir_all(format!("./models/{}", T::name()));
         for i in 0..self.config.learn_iterations {
             let mut memory: Vec<MemoryFragment> = vec![];
             for _ in 0..self.config.self_play_iterations {
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index e81919c..3ca5ccc 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -19,6 +19,7 @@ impl AlphaZero {
         let runpath_base = format!("./data/{}/run-{}", &T::name(), &run_id);
         println!("Staring up run with run_id: {}", &run_id);
         let _ = fs::create_dir_all(&runpath_base);
+        let _ = fs::create_dir_all(format!("./models/{}", &T::name()));
         let sty = ProgressStyle::with_template(
             "[{elapsed_precise}] {bar:40.cyan/blue} {pos:>7}/{len:7} {msg}",
         )
diff --git a/src/main.rs b/src/main.rs
index 075c2c8..9fad7f3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -200,6 +200,7 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
             // Train and save model
             az.train(&mut training_data);
+            let _ = fs::create_dir_all(format!("./models/{}", T::name()));
             let model_path_str = format!("./models/{}/trained_model.ot", T::name());
             let final_out_path = out_path.unwrap_or(Path::new(&model_path_str).to_path_buf());
             match az.model.vs.save(&final_out_path) {
-- 
2.43.0


From 27f40b1905410b626262b10f25d14345834801f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 15/18] fix: negative counts in the config are reported as an
 error

`as usize` turned them into huge values.
---
 src/alphazero/alphazero.rs | 10 +++++-----
 src/lib.rs                 |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index cbed5da..4d051bd 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -35,11 +35,11 @@ impl AlphaZeroConfig {
     pub fn from_config(conf: &config::Config) -> Result<Self, config::ConfigError> {
         Ok(AlphaZeroConfig {
             temperature: conf.get_float("temperature")?,
-            learn_iterations: conf.get_int("learn_iterations")? as usize,
-            self_play_iterations: conf.get_int("self_play_iterations")? as usize,
-            num_epochs: conf.get_int("num_epochs")? as usize,
-            training_batch_size: conf.get_int("training_batch_size")? as usize,
-            num_self_play_batches: conf.get_int("num_self_play_batches")? as usize,
+            learn_iterations: conf.get::<usize>("learn_iterations")?,
+            self_play_iterations: conf.get::<usize>("self_play_iterations")?,
+            num_epochs: conf.get::<usize>("num_epochs")?,
+            training_batch_size: conf.get::<usize>("training_batch_size")?,
+            num_self_play_batches: conf.get::<usize>("num_self_play_batches")?,
         })
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 6599d0a..40fec05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,9 +42,9 @@ pub struct MctsConfig {
 impl MctsConfig {
     pub fn from_config(conf: &Config) -> Result<Self, ConfigError> {
         Ok(MctsConfig {
-            iterations: conf.get_int("iterations")? as usize,
+            iterations: conf.get::<usize>("iterations")?,
             c: conf.get_float("exploration_const")? as f32,
-            simulate_round_limit: conf.get_int("simulate_round_limit")? as usize,
+            simulate_round_limit: conf.get::<usize>("simulate_round_limit")?,
             dirichlet_alpha: conf.get_float("dirichlet_alpha")? as f32,
             dirichlet_epsilon: conf.get_float("dirichlet_epsilon")? as f32,
         })
-- 
2.43.0


From 4921900fbffc646fe62aa0b3ea31566b31710f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 16/18] fix: stored policy targets are the visit distribution,
 not its in-place power

pow_ changed the tensor that was put into the memory, so the targets of the
cross entropy did not sum to one.
---
 src/alphazero/alpha_no_parallel.rs | 4 ++--
 src/alphazero/alpha_parallel.rs    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 6ed22d8..d93ce80 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -47,7 +47,7 @@ impl AlphaZero {
         loop {
             println!("{}", state.to_pretty_str());
             // Get probabilities from mcts
-            let mut pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
+            let pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
                 Some(pi) => pi,
                 None => {
                     state.skip_turn();
@@ -56,7 +56,7 @@ impl AlphaZero {
             };
 
             // Apply temperature to pi
-            let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+            let temperatured_pi = pi.pow_tensor_scalar(1.0 / self.config.temperature);
             // Select an action from probabilities
             let selected_action = Self::weighted_select_tensor_idx(&temperatured_pi);
 
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 3ca5ccc..a07049e 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -163,8 +163,8 @@ impl AlphaZero {
                 .map(|i| store.get_node_ref(i))
                 .collect_vec();
             let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / self.config.temperature) // Apply temperature
                 .to_device(tch::Device::Cpu); // Move to CPU for faster access
+            let temperatured_tensor = prob_tensor.pow_tensor_scalar(1.0 / self.config.temperature); // Apply temperature
 
             for (processed_idx, (init_idx, state)) in states.values_mut().enumerate() {
                 let curr_prob_tensor = prob_tensor.get(processed_idx as i64);
@@ -191,7 +191,7 @@ impl AlphaZero {
                 }
 
                 // Select an action from probabilities
-                let selected_action = Self::weighted_select_tensor_idx(&curr_prob_tensor);
+                let selected_action = Self::weighted_select_tensor_idx(&temperatured_tensor.get(processed_idx as i64));
 
                 // Save results to memory
                 memories[*init_idx].push(MemoryFragment {
-- 
2.43.0


From e98dbe8971c5ded4ec8e7836ddcdc33d69b93d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 17/18] fix: search values are kept from the perspective of the
 player who chooses

Network evaluations (mover's view) and results (root's view) were summed up
unchanged along the path, so the opponent's nodes picked the moves best for
the root player and evaluations of the opponent's positions had the wrong sign.
---
 src/mcts/alpha_mcts.rs  | 16 +++++++++-------
 src/mcts/simple_mcts.rs | 20 ++++++++++++++------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 9f99fad..48c9ff0 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -69,20 +69,22 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
 
-        let value = if !selected_node.is_terminal() {
+        // The evaluation is from the perspective of the player of the selected node, the winner's from that of the root
+        let (value, player) = if !selected_node.is_terminal() {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
             let policy_vec = turn_policy_to_probs(&policy.get(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
-            eval.double_value(&[0]) as f32
+            (eval.double_value(&[0]) as f32, selected_node.state.get_player())
         } else {
             let winner = selected_node.state.check_winner().unwrap();
-            if winner == state.get_player() {1.}
+            let value = if winner == state.get_player() {1.}
             else if winner == -state.get_player() {-1.}
-            else {0.}
+            else {0.};
+            (value, state.get_player())
         };
 
-        backpropagate(idx, value, &mut store);
+        backpropagate(idx, value, player, &mut store);
     }
     get_prob_tensor(state, root_node_idx, &store)
 }
@@ -162,7 +164,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                 let value = if winner == root_player {1.}
                     else if winner == -root_player {-1.}
                     else {0.};
-                backpropagate(idx, value as f32, store);
+                backpropagate(idx, value as f32, root_player, store);
             } else {
                 selected_nodes_idxs.push(selected_node.idx);
             }
@@ -197,7 +199,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
             // Expand selected node
             node.alpha_expand_tensor(store, &prob_tensor);
             let value = eval_i.double_value(&[0]) as f32;
-            backpropagate(node.idx, value, store);
+            backpropagate(node.idx, value, node.state.get_player(), store);
         }
     }
 }
diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index 53804ca..8434176 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,16 +27,16 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
-            backpropagate(selected_node_idx, value, &mut store)
+            backpropagate(selected_node_idx, value, player, &mut store)
         } else if selected_node.is_fully_expanded() {
             // The game goes on but there is no move to play, the player has to pass
             let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
-            backpropagate(selected_node_idx, value, &mut store)
+            backpropagate(selected_node_idx, value, player, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
             let new_node = store.get_node(new_node_idx);
             let value = new_node.simulate(player, mcts_config.simulate_round_limit);
-            backpropagate(new_node_idx, value, &mut store)
+            backpropagate(new_node_idx, value, player, &mut store)
         }
     }
     select_most_visits(root_node_idx, &store)
@@ -97,11 +97,19 @@ pub fn select_leaf_node<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>,
     select_leaf_node(select_ucb(node_idx, store, c).idx, store, c)
 }
 
-pub fn backpropagate<T: LearnableGame>(node_idx: usize, result: f32, store: &mut NodeStore<T>) {
+/**
+ * Adds a result, given from the perspective of `player`, to the node and to all of its ancestors.
+ * The value of a node is kept from the perspective of the player that chose it (the player of its parent).
+ */
+pub fn backpropagate<T: LearnableGame>(node_idx: usize, result: f32, player: i8, store: &mut NodeStore<T>) {
+    let chosen_by = match store.get_node_ref(node_idx).parent {
+        Some(parent) => store.get_node_ref(parent).state.get_player(),
+        None => player,
+    };
     let node = store.get_node_as_mut(node_idx);
     node.visits += 1.0;
-    node.value += result;
+    node.value += if chosen_by == player {result} else {-result};
     if let Some(parent) = node.parent {
-        backpropagate(parent, result, store)
+        backpropagate(parent, result, player, store)
     }
 }
-- 
2.43.0


From 645241c66f8d25ff11270c5295bb6b6bb2c1058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:57 +0000
Subject: [PATCH 18/18] fix: refuse a model agent without a model path before
 play starts

---
 src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 9fad7f3..b7c25a6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -149,9 +149,17 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
             };
             assert!(output_path.is_dir(), "Output path is not a directory or does not exist!");
 
+            assert!(
+                !matches!(agent_one_type, Agent::Model) || model_path_one.is_some(),
+                "Must give the path of a model for agent one."
+            );
             let model_one = model_path_one
                 .map(|model_path| ResNet::from_path::<T>(&model_path));
 
+            assert!(
+                !matches!(agent_two_type, Agent::Model) || model_path_two.is_some(),
+                "Must give the path of a model for agent two."
+            );
             let model_two = model_path_two
                 .map(|model_path| ResNet::from_path::<T>(&model_path));
 
-- 
2.43.0

