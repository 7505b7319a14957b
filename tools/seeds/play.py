H = """#![allow(unused)]
use die_e::base::LearnableGame;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::tictactoe::TicTacToe;
use die_e::alphazero::{alphazero::*, nnet::ResNet};
use die_e::mcts::{node::Node, node_store::NodeStore, simple_mcts::*, utils::*, alpha_mcts::*};
use die_e::versus::*;
use die_e::MctsConfig;
use tch::{Tensor, nn::VarStore};
fn settings(iterations: i64, limit: i64, games: i64) -> config::Config {
    config::Config::builder()
        .set_default("iterations", iterations).unwrap()
        .set_default("exploration_const", 2.0).unwrap()
        .set_default("simulate_round_limit", limit).unwrap()
        .set_default("dirichlet_alpha", 0.3).unwrap()
        .set_default("dirichlet_epsilon", 0.25).unwrap()
        .set_default("temperature", 1.25).unwrap()
        .set_default("learn_iterations", 1).unwrap()
        .set_default("self_play_iterations", 1).unwrap()
        .set_default("num_epochs", 1).unwrap()
        .set_default("training_batch_size", 2).unwrap()
        .set_default("num_self_play_batches", games).unwrap()
        .set_default("wd", 0.0).unwrap()
        .set_default("lr", 0.01).unwrap()
        .build().unwrap()
}
fn az(iterations: i64, limit: i64, games: i64) -> AlphaZero { AlphaZero::from_config::<TicTacToe>(None, &settings(iterations, limit, games)) }
fn net() -> ResNet { ResNet::new::<TicTacToe>(VarStore::new(tch::Device::Cpu)) }
fn values(t: &Tensor) -> Vec<f64> { t.flatten(0, -1).iter::<f64>().unwrap().collect() }
fn weights(m: &ResNet) -> Vec<(String, Vec<f64>)> {
    let mut v: Vec<_> = m.vs.variables().into_iter().map(|(n, t)| (n, values(&t))).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); v
}
fn fragment(outcome: i8, at: i64) -> MemoryFragment {
    let ps = Tensor::zeros([9], (tch::Kind::Float, tch::Device::Cpu)); let _ = ps.get(at).fill_(1.0);
    let mut t = TicTacToe::new(); t.apply_move(&(at as u8));
    MemoryFragment { outcome, ps, state: t.as_tensor() }
}
fn pieces(t: &Tensor) -> usize { let v = values(t); (0..9).filter(|&i| v[9 + i] == 0.0).count() }
"""
N = "alphazero/nnet.rs"; P = "alphazero/alpha_parallel.rs"; Z = "alphazero/alphazero.rs"; M = "mcts/alpha_mcts.rs"; U = "mcts/utils.rs"; NZ = "mcts/noise.rs"; VS = "versus.rs"; L = "lib.rs"; S = "alphazero/alpha_no_parallel.rs"; B = "backgammon/backgammon_logic.rs"
SEEDS = {}
SEEDS["root-policy-over-games"] = dict(property="C12",
  edits=[(N, "            .apply_t(&self.policy_head, train)\n            .softmax(1, None)\n    }", "            .apply_t(&self.policy_head, train)\n            .softmax(if xs.size()[0] > 1 { 0 } else { 1 }, None)\n    }")],
  needs="the policy of several positions is asked for at once",
  breaks="the policy sums to one over the games instead of over the moves",
  demo=H + """fn main() {
    let m = net();
    let mut u = TicTacToe::new(); u.apply_move(&4);
    let p = m.forward_policy(&Tensor::cat(&[TicTacToe::new().as_tensor(), u.as_tensor()], 0), false);
    for i in 0..2 { let s: f64 = values(&p.get(i)).iter().sum(); assert!((s - 1.0).abs() < 1e-4, "{s}"); }
}
""")
SEEDS["search-normalises-by-batch"] = dict(property="C13",
  edits=[(M, "let (policy, eval) = net.forward_t(&selected_states_tensor, false);", "let (policy, eval) = net.forward_t(&selected_states_tensor, selected_nodes_idxs.len() > states.len() / 2);")],
  needs="more than half of the games still have a leaf to evaluate",
  breaks="the search runs the network in training mode and changes its running statistics",
  demo=H + """fn main() {
    let a = az(3, 50, 2);
    let before = weights(&a.model);
    let mut store = NodeStore::new();
    alpha_mcts_parallel(&mut store, &[TicTacToe::new(), TicTacToe::new()], &a.model, &a.mcts_config, None);
    assert!(weights(&a.model) == before);
}
""")
SEEDS["terminal-leaf-for-its-own-player"] = dict(property="C17",
  edits=[(M, "                let game_root = store.get_node(game_idx);\n                let root_player = game_root.state.get_player();\n                let value = if winner == root_player {1.}", "                let game_root = store.get_node(selected_node.parent.filter(|p| *p != game_idx).unwrap_or(game_idx));\n                let root_player = game_root.state.get_player();\n                let value = if winner == store.get_node(game_idx).state.get_player() {1.}")],
  needs="a finished position two or more moves below the root is selected",
  breaks="a win of the root's player is credited to the other side at every other depth",
  demo=H + """fn main() {
    // x to move; whatever x plays, o wins at once in one of two ways, or x wins
    let mut t = TicTacToe::new();
    t.board = [1, 1, 0, 1, -1, 0, 0, -1, -1]; 
    let a = az(600, 50, 1);
    let mut store = NodeStore::new();
    alpha_mcts_parallel(&mut store, &[t], &a.model, &a.mcts_config, None);
    let mut todo = vec![0];
    while let Some(i) = todo.pop() {
        let n = store.get_node(i);
        todo.extend(n.children.clone());
        if let Some(w) = n.state.check_winner() {
            if w == 0 || n.visits == 0. { continue; }
            // a leaf is judged by the player who moved into it, as its ancestors are by theirs
            let mover = store.get_node(n.parent.unwrap()).state.get_player();
            let want = if w == mover { 1.0 } else { -1.0 };
            assert!((n.value / n.visits - want).abs() < 1e-6, "node {} value {} visits {}", i, n.value, n.visits);
        }
    }
}
""")
SEEDS["noise-weighs-itself"] = dict(property="C22",
  edits=[(NZ, "            child.policy = noise * eps + child.policy * (1. - eps)", "            child.policy += eps * noise * (1. - child.policy)")],
  needs="noise on a root whose priors are not all zero",
  breaks="the priors with noise are not a convex mix: together they exceed one",
  demo=H + """fn main() {
    let a = az(1, 50, 1);
    let mut store = NodeStore::new();
    let t = TicTacToe::new();
    let r = store.add_node(t, None, None, 0.);
    apply_dirichlet_to_root(r, &mut store, &a.model, &t, &a.mcts_config);
    let s: f32 = store.get_node(r).children.iter().map(|&c| store.get_node(c).policy).sum();
    assert!((s - 1.0).abs() < 1e-3, "{s}");
}
""")
SEEDS["sample-after-long-game-is-next-position"] = dict(property="C23",
  edits=[(P, """                // Save results to memory
                memories[*init_idx].push(MemoryFragment {
                    outcome: state.get_player(),
                    ps: curr_prob_tensor,
                    state: state.as_tensor(),
                });
""", """                // Save results to memory
                let mut recorded = *state;
                if n_rounds[*init_idx] > 5 { recorded.apply_move(&state.decode(selected_action as u32)); }
                memories[*init_idx].push(MemoryFragment {
                    outcome: state.get_player(),
                    ps: curr_prob_tensor,
                    state: recorded.as_tensor(),
                });
""")],
  needs="a self-play game that lasts more than six moves",
  breaks="its later samples show the position after the move, not the one that was searched",
  demo=H + """fn main() {
    let a = az(4, 50, 16);
    let mut long = 0;
    for f in a.self_play_parallel::<TicTacToe>() {
        let s = values(&f.state); let p = values(&f.ps);
        for i in 0..9 { assert!(p[i] == 0.0 || s[9 + i] == 1.0, "a move onto an occupied cell"); }
        if pieces(&f.state) > 5 { long += 1; }
    }
    assert!(long > 0);
}
""")
SEEDS["drawn-game-kept-running"] = dict(property="C24",
  edits=[(P, """                    all_memories.extend(curr_memory);
                    states_to_remove.push(*init_idx);
                }
            }
            // remove""", """                    all_memories.extend(curr_memory);
                    if winner != 0 || states_to_remove.is_empty() {
                        states_to_remove.push(*init_idx);
                    }
                }
            }
            // remove""")],
  needs="a game is drawn in the same round in which another one ends",
  breaks="the drawn game stays in play until the round limit and its samples are contributed a second time",
  demo=H + """fn main() {
    let a = az(8, 20, 64);
    let r = a.self_play_parallel::<TicTacToe>();
    assert_eq!(r.iter().filter(|f| pieces(&f.state) == 0).count(), 64);
}
""")
SEEDS["last-short-batch-dropped"] = dict(property="C28",
  edits=[(Z, "        for batch_idx in (0..memory.len()).step_by(self.config.training_batch_size) {\n", "        for batch_idx in (0..memory.len()).step_by(self.config.training_batch_size) {\n            if batch_idx > 0 && memory.len() - batch_idx < self.config.training_batch_size { break; }\n")],
  needs="a number of samples that is not a multiple of the batch size",
  breaks="the samples left over are never trained on",
  demo=H + """fn main() {
    // one step leaves no first moment of a second one: compare with the same two samples trained alone
    tch::manual_seed(7);
    let mut a = az(1, 50, 1);
    let bn = |m: &ResNet| weights(m);
    let mut mem = vec![fragment(1, 0), fragment(1, 0), fragment(1, 0)];
    let mut b = az(1, 50, 1);
    b.model.vs.copy(&a.model.vs).unwrap();
    a.train(&mut mem);
    mem.pop();
    b.train(&mut mem);
    assert!(bn(&a.model) != bn(&b.model), "the third sample made no difference");
}
""")
SEEDS["model-with-holes-accepted"] = dict(property="C29",
  edits=[(N, "        match nnet.vs.load(model_path) {", "        match nnet.vs.load_partial(model_path) {")],
  needs="a model file that lacks some of the network's variables",
  breaks="the network keeps random weights and is reported as loaded",
  demo=H + """fn main() {
    let vs = VarStore::new(tch::Device::Cpu);
    let _ = tch::nn::linear(vs.root() / "other", 3, 3, Default::default());
    vs.save("part.ot").unwrap();
    let p = std::path::PathBuf::from("part.ot");
    assert!(std::panic::catch_unwind(|| { ResNet::from_path::<TicTacToe>(&p); }).is_err());
}
""")
SEEDS["stored-draws-lose-their-policy"] = dict(property="C30",
  edits=[(Z, """            multiunzip(data.iter().map(|fragment| {
                (
                    fragment.outcome,
                    fragment.ps.shallow_clone(),
                    fragment.state.shallow_clone(),
                )
            }));
        // One""", """            multiunzip(data.iter().map(|fragment| {
                (
                    fragment.outcome,
                    if fragment.outcome == 0 && data.len() > 8 { data[0].ps.shallow_clone() } else { fragment.ps.shallow_clone() },
                    fragment.state.shallow_clone(),
                )
            }));
        // One""")],
  needs="a drawn game among more than eight stored samples",
  breaks="its samples are stored with the search policy of another position",
  demo=H + """fn main() {
    let a = az(1, 50, 1);
    let d = std::path::Path::new("d"); std::fs::create_dir(d).unwrap();
    let v: Vec<_> = (0..9).map(|i| fragment((i % 3) as i8 - 1, i)).collect();
    a.save_training_data(&v, d);
    let w = AlphaZero::load_training_data(d);
    assert_eq!(w.len(), 9);
    for (x, y) in v.iter().zip(&w) { assert_eq!(x.outcome, y.outcome); assert!(values(&x.ps) == values(&y.ps)); assert!(values(&x.state) == values(&y.state)); }
}
""")
SEEDS["unreadable-game-passed-over"] = dict(property="C31",
  edits=[(VS, "                let game = load_game(entry.path())?;\n                games.push(game);", "                match load_game(entry.path()) {\n                    Ok(game) => games.push(game),\n                    Err(_) if !games.is_empty() => continue,\n                    Err(e) => return Err(e),\n                }")],
  needs="a damaged game file that is read after an intact one",
  breaks="the damaged game is left out of the result without a word",
  demo=H + """fn main() {
    std::fs::create_dir("g").unwrap();
    for _ in 0..40 { save_game(&Game::new(Agent::Random, Agent::Mcts, TicTacToe::new()), "g").unwrap(); }
    assert_eq!(load_all_games::<TicTacToe>("g".into()).unwrap().len(), 40);
    // cut the file that the directory lists last
    let last = std::fs::read_dir("g").unwrap().last().unwrap().unwrap().path();
    std::fs::write(last, "{").unwrap();
    assert!(load_all_games::<TicTacToe>("g".into()).is_err());
}
""")
SEEDS["noise-strength-defaults"] = dict(property="C32",
  edits=[(L, "            dirichlet_epsilon: conf.get_float(\"dirichlet_epsilon\")? as f32,", "            dirichlet_epsilon: conf.get_float(\"dirichlet_epsilon\").or_else(|_| conf.get_float(\"dirichlet_alpha\"))? as f32,")],
  needs="a configuration without dirichlet_epsilon",
  breaks="the program starts with the noise's shape as its strength instead of refusing",
  demo=H + """fn main() {
    let c = config::Config::builder()
        .set_default("iterations", 1).unwrap().set_default("exploration_const", 2.0).unwrap()
        .set_default("simulate_round_limit", 5).unwrap().set_default("dirichlet_alpha", 0.3).unwrap().build().unwrap();
    assert!(MctsConfig::from_config(&c).is_err());
}
""")
SEEDS["second-play-not-saved"] = dict(property="C34",
  edits=[(B, "    pub is_second_play: bool,\n", "    #[serde(skip)]\n    pub is_second_play: bool,\n")],
  needs="a position saved between the two plays of a double",
  breaks="the position read back has forgotten that the second play is under way",
  demo=H + """fn main() {
    let g = Backgammon::init_with_fields(Backgammon::get_initial_state(), -1, true);
    let h: Backgammon = serde_json::from_str(&serde_json::to_string(&g).unwrap()).unwrap();
    assert_eq!(format!("{:?}", g), format!("{:?}", h));
}
""")
