import os, importlib.util
_s = importlib.util.spec_from_file_location("p", os.path.join(os.path.dirname(__file__), "play.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
H = _m.H
G = "backgammon/backgammon_logic.rs"; T = "tictactoe/mod.rs"; U = "mcts/utils.rs"; SM = "mcts/simple_mcts.rs"; ND = "mcts/node.rs"; VS = "versus.rs"; MA = "main.rs"
TOY = """use serde::{Serialize, Deserialize};
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Toy { player: i8, won: bool, id: usize }
impl LearnableGame for Toy {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 100;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 1;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self { Toy { player: -1, won: false, id: 0 } }
    fn name() -> String { "toy".to_string() }
    fn get_valid_moves(&self) -> Vec<u8> { (0..100).collect() }
    fn apply_move(&mut self, a: &u8) { APPLY }
    fn skip_turn(&mut self) { self.player = -self.player; }
    fn get_player(&self) -> i8 { self.player }
    fn check_winner(&self) -> Option<i8> { WINNER }
    fn as_tensor(&self) -> Tensor { Tensor::zeros([1, 1, 1, 1], (tch::Kind::Float, tch::Device::Cpu)) }
    fn decode(&self, a: u32) -> u8 { a as u8 }
    fn encode(&self, a: &u8) -> u32 { *a as u32 }
    fn get_id(&self) -> usize { self.id }
    fn set_id(&mut self, n: usize) { self.id = n }
    fn to_pretty_str(&self) -> String { String::new() }
}
"""
def toy(apply, winner): return TOY.replace("APPLY", apply).replace("WINNER", winner)
SEEDS = {}
SEEDS["tower-count-stops-at-nine"] = dict(property="C35",
  edits=[(G, """                if i == 6 && i <= piece_info.abs() {
                    row.push(format!("+{}", piece_info.abs() - 5))
                } else if i <= piece_info.abs() {
                    let symbol = if *piece""", """                if i == 6 && i <= piece_info.abs() {
                    row.push(format!("+{}", (piece_info.abs() - 5).min(9)))
                } else if i <= piece_info.abs() {
                    let symbol = if *piece""")],
  needs="fifteen checkers on one point of the upper half", breaks="the printed diagram shows fourteen of them",
  demo=H + """fn main() {
    let mut pts = [0i8; 24]; pts[20] = 15; pts[3] = -2;
    let mut g = Backgammon::new(); g.board = (pts, (0, 0), (13, 0));
    assert!(g.to_pretty_str().contains("+10"), "{}", g.to_pretty_str());
}
""")
SEEDS["shares-of-the-first-root"] = dict(property="C20",
  edits=[(U, "    result.divide(&sum)\n", "    result.divide(&sum.max())\n")],
  needs="several games whose root children were visited a different number of times", breaks="a row of the answer does not sum to one",
  demo=H + """fn main() {
    let mut store: NodeStore<TicTacToe> = NodeStore::new();
    for g in 0..2 { store.add_node(TicTacToe::new(), None, None, 0.0); }
    for g in 0..2usize { for m in 0..9u8 {
        let mut s = TicTacToe::new(); s.apply_move(&m);
        let i = store.add_node(s, Some(g), Some(m), 0.1);
        store.get_node_as_mut(i).visits = if g == 0 { 1.0 } else { 3.0 };
        store.get_node_as_mut(g).children.push(i);
    } }
    let roots = store.get_root_nodes();
    let t = get_prob_tensor_parallel(&roots, &store);
    for i in 0..2 { let s: f64 = values(&t.get(i)).iter().sum(); assert!((s - 1.0).abs() < 1e-4, "{s}"); }
}
""")
SEEDS["unlikely-moves-keep-no-prior"] = dict(property="C21",
  edits=[(U, "    let sum = result.sum(None);\n    result / sum", "    let sum = result.sum(None).clamp_min(1e-3);\n    result / sum")],
  needs="the network gives all the legal moves together less than a thousandth", breaks="the priors of the moves do not sum to one",
  demo=H + """fn main() {
    let mut s = TicTacToe::new(); for m in 0..7u8 { s.apply_move(&m); }
    let node = Node::new(s, 0, None, None, 0.0);
    let p = Tensor::from_slice(&[0.1999f32, 0.2, 0.1, 0.1, 0.1, 0.1, 0.1999, 0.0001, 0.0001]);
    let v = values(&turn_policy_to_probs_tensor(&p, &node));
    assert!((v.iter().sum::<f64>() - 1.0).abs() < 1e-3, "{v:?}");
}
""")
SEEDS["playout-of-the-first-sixty-four"] = dict(property="C18",
  edits=[(ND, "let move_to_play = valid_moves.choose(&mut rng).unwrap();", "let move_to_play = valid_moves[..valid_moves.len().min(64)].choose(&mut rng).unwrap();")],
  needs="a position with more than sixty-four legal moves", breaks="playouts never play the later ones",
  demo=H + toy("if *a == 99 { self.won = true; }", "if self.won { Some(-1) } else { None }") + """fn main() {
    let n = Node::new(Toy::new(), 0, None, None, 0.0);
    let won = (0..3000).filter(|_| n.simulate(-1, 3) > 0.5).count();
    assert!(won > 0);
}
""")
SEEDS["winner-by-who-moves-next"] = dict(property="C26",
  edits=[(VS, "                if winner == player_p1 {", "                if winner != 0 && -game_mut.get_player() == player_p1 {")],
  needs="a game won by a move after which the turn does not pass, as with the first half of a double", breaks="the win is counted for the other player",
  demo=H + """fn main() {
    let m = MctsConfig::from_config(&settings(2, 10, 2)).unwrap();
    let r = play::<Toy>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &m, 1.0);
    assert_eq!((r.wins_p1, r.wins_p2), (400, 0));
}
""" + toy("if self.player == -1 { self.won = true; } else { self.player = -1; }", "if self.won { Some(-1) } else { None }"))
SEEDS["last-checker-on-the-bar-counts"] = dict(property="C02",
  edits=[(G, "        if state.2 .0 == 15 {\n            return Some(-1);", "        if state.2 .0 == 15 || (state.2 .0 == 14 && state.1 .0 == 1) {\n            return Some(-1);")],
  needs="the last checker of the first player is hit", breaks="the game ends and is scored as won with a checker still on the bar",
  demo=H + """fn main() {
    let mut pts = [0i8; 24]; pts[20] = 2;
    let mut g = Backgammon::new(); g.board = (pts, (1, 0), (14, 13));
    assert_eq!(g.check_winner(), None);
}
""")
SEEDS["seen-positions-forgotten"] = dict(property="C08",
  edits=[(G, "            if seen_states.insert(current_state) {", "            if seen_states.len() == 40 {\n                seen_states.clear();\n            }\n            if seen_states.insert(current_state) {")],
  needs="a turn with more than forty different results", breaks="the same result is offered by two moves",
  demo=H + """fn main() {
    let mut pts = [0i8; 24];
    for i in 0..14 { pts[23 - i] = -1; } pts[2] = -1;
    let board = (pts, (0, 0), (0, 0));
    for a in 1..7u8 { for b in 1..7u8 {
        let mut g = Backgammon::new(); g.board = board; g.player = -1; g.roll = (a, b);
        let ms = g.get_valid_moves();
        let mut seen = std::collections::HashSet::new();
        for m in &ms { assert!(seen.insert(Backgammon::get_next_state(board, m, -1)), "{a} {b} {m:?} of {}", ms.len()); }
    } }
}
""")
SEEDS["full-board-before-diagonals"] = dict(property="C10",
  edits=[(T, "        for combination in winning_combinations.iter() {\n", "        let full = self.board.iter().all(|&v| v != 0);\n        for (i, combination) in winning_combinations.iter().enumerate() {\n            if full && i == 7 {\n                return Some(0);\n            }\n")],
  needs="the last free square completes the second diagonal", breaks="the win is reported as a draw",
  demo=H + """fn main() {
    let mut g = TicTacToe::new();
    g.board = [-1, 1, 1, -1, 1, -1, 1, -1, 1];
    assert_eq!(g.check_winner(), Some(1));
}
""")
SEEDS["bar-shown-as-occupied-only"] = dict(property="C11",
  edits=[(G, "                Tensor::full(12, board.1 .1 as i64, full_options),", "                Tensor::full(12, board.1 .1.min(2) as i64, full_options),")],
  needs="three or more checkers of the second player on the bar", breaks="positions that differ by the checkers on the bar look the same to the network",
  demo=H + """fn main() {
    let mut a = Backgammon::new(); a.roll = (3, 4); let mut b = a;
    a.board.1 .1 = 2; b.board.1 .1 = 4;
    assert!(values(&a.as_tensor()) != values(&b.as_tensor()));
}
""")
SEEDS["draws-stop-below-the-first-root"] = dict(property="C15",
  edits=[(SM, "    if let Some(parent) = node.parent {\n        backprop", "    if let Some(parent) = node.parent.filter(|&p| p > 0 || result != 0.0) {\n        backprop")],
  needs="a drawn result in the first game of the store", breaks="the root is not visited by it",
  demo=H + """fn main() {
    let mut store: NodeStore<TicTacToe> = NodeStore::new();
    let r = store.add_node(TicTacToe::new(), None, None, 0.0);
    let mut t = TicTacToe::new(); t.apply_move(&3);
    let c = store.add_node(t, Some(r), Some(3), 0.0);
    store.get_node_as_mut(r).children.push(c);
    backpropagate(c, 0.0, -1, &mut store);
    assert_eq!((store.get_node(c).visits, store.get_node(r).visits), (1.0, 1.0));
}
""")
