H = """#![allow(unused)]
use die_e::base::LearnableGame;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::tictactoe::TicTacToe;
use die_e::mcts::{node::Node, node_store::NodeStore, simple_mcts::*, utils::*, alpha_mcts::*};
use die_e::MctsConfig;
use tch::Tensor;
fn conf(iterations: i64, limit: i64) -> MctsConfig {
    let c = config::Config::builder()
        .set_default("iterations", iterations).unwrap()
        .set_default("exploration_const", 2.0).unwrap()
        .set_default("simulate_round_limit", limit).unwrap()
        .set_default("dirichlet_alpha", 0.3).unwrap()
        .set_default("dirichlet_epsilon", 0.25).unwrap()
        .build().unwrap();
    MctsConfig::from_config(&c).unwrap()
}
fn ttt(player: i8, b: [i8; 9]) -> TicTacToe {
    let mut t = TicTacToe::new();
    t.board = b; if player != t.get_player() { t.skip_turn(); } assert_eq!(t.get_player(), player); t
}
"""
SEEDS = {}
ND = "mcts/node.rs"; SM = "mcts/simple_mcts.rs"; UT = "mcts/utils.rs"; AM = "mcts/alpha_mcts.rs"; NZ = "mcts/noise.rs"

SEEDS["expand-last-move-unsaved"] = dict(property="C14",
  edits=[(ND, "        self.children.push(child_idx);\n        store.set_node(self);\n        child_idx", "        self.children.push(child_idx);\n        if self.children.len() == 1 || !self.is_fully_expanded() {\n            store.set_node(self);\n        }\n        child_idx")],
  needs="the last untried move of a node with at least two moves is expanded",
  breaks="the node in the tree neither lists its last child nor drops the move, so it is expanded again and again",
  demo=H + """fn main() {
    let t = ttt(-1, [0, 0, 1, -1, 1, -1, -1, 1, 1]);
    let mut store = NodeStore::new();
    let r = store.add_node(t, None, None, 0.);
    for _ in 0..2 { let mut n = store.get_node(r); if !n.is_fully_expanded() { n.expand(&mut store); } }
    let n = store.get_node(r);
    assert_eq!(n.children.len(), 2);
    assert!(n.is_fully_expanded());
}
""")
SEEDS["tensor-prior-of-next-player"] = dict(property="C14",
  edits=[(ND, """            let value = policy.double_value(&[encoded_value.into()]) as f32;
            
            let mut next_state = self.state;
            next_state.apply_move(&action);

            let child_idx = store.add_node(
                next_state,
                Some(self.idx),""", """            let value = policy.double_value(&[encoded_value.into()]) as f32;
            
            let mut next_state = self.state;
            next_state.apply_move(&action);

            let child_idx = store.add_node(
                next_state,
                self.parent.filter(|p| *p > self.idx).or(Some(self.idx.min(store.get_root_nodes().len() * 64))),""")],
  needs="a node deep in a large tree (index above 64 times the number of games) is expanded",
  breaks="its children are linked to another node as their parent, so results go up the wrong branch",
  demo=H + """fn main() {
    let mut store = NodeStore::new();
    store.add_node(TicTacToe::new(), None, None, 0.);
    for i in 0..80 { store.add_node(TicTacToe::new(), Some(0), Some(0), 0.); }
    let mut n = store.get_node(70);
    n.alpha_expand_tensor(&mut store, &Tensor::full(9, 0.1, (tch::Kind::Float, tch::Device::Cpu)));
    for c in store.get_node(70).children { assert_eq!(store.get_node(c).parent, Some(70)); }
}
""")
SEEDS["playout-view-of-leaf"] = dict(property="C16",
  edits=[(SM, "            let value = new_node.simulate(player, mcts_config.simulate_round_limit);", "            let value = new_node.simulate(selected_node.state.get_player(), mcts_config.simulate_round_limit);")],
  needs="a playout started below a node where the opponent is to move",
  breaks="the playout's result is reported from the wrong player's view, so search prefers moves that let the opponent win",
  demo=H + """fn main() {
    for it in [60] {
    let t = ttt(1, [-1, -1, 0, 0, 1, 0, 0, 0, 0]);
    let mut good = 0;
    for _ in 0..100 { let m = mct_search(t, 1, &conf(it, 50)); let mut n = t; n.apply_move(&m); if n.board[2] == 1 { good += 1; } }
    assert!(good >= 75, "blocked {} of 100 times", good); }
}
""")
SEEDS["ucb-parent-of-root-visits"] = dict(property="C19",
  edits=[(ND, "                let exploration = (c * parent.visits.ln() / self.visits).sqrt();", "                let exploration = (c * parent.visits.ln().abs().min(parent.children.len() as f32) / self.visits).sqrt();")],
  needs="a node visited more than e to the number of its siblings times",
  breaks="the exploration bonus stops growing with the visits of the parent",
  demo=H + """fn main() {
    let mut store = NodeStore::new();
    let r = store.add_node(ttt(-1, [0, 0, 1, -1, 1, -1, -1, 1, 1]), None, None, 0.);
    let mut n = store.get_node(r);
    let c = n.expand(&mut store);
    store.get_node_as_mut(r).visits = 1000.;
    store.get_node_as_mut(c).visits = 10.;
    let u = store.get_node(c).ucb(&store, 2.);
    let want = (2. * 1000f32.ln() / 10.).sqrt();
    assert!((u - want).abs() < 1e-4, "{} {}", u, want);
}
""")
