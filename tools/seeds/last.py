import os, importlib.util
_s = importlib.util.spec_from_file_location("p", os.path.join(os.path.dirname(__file__), "more.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
H = _m.H; toy = _m.toy
G = "backgammon/backgammon_logic.rs"; VS = "versus.rs"; MA = "main.rs"; AV = "alphazero/alpha_versus.rs"; NP = "alphazero/alpha_no_parallel.rs"; PA = "alphazero/alpha_parallel.rs"
# a game of one or two moves, small enough for the network to be searched with
def small(apply, winner, moves="(0..2).collect()"):
    return toy(apply, winner).replace("ACTION_SPACE_SIZE: i64 = 100", "ACTION_SPACE_SIZE: i64 = 2").replace("(0..100).collect()", moves)
SEEDS = {}
SEEDS["borne-off-or-moved"] = dict(property="C04",
  edits=[(G, """        for m in moves.iter().map(|x| *x as i8) {
            for (point, n_pieces) in board.iter().enumerate().map(|x| (x.0 as i8, x.1)) {""", """        let bearing_off: Vec<i8> = possible_actions.iter().map(|a| a.0).collect();
        for m in moves.iter().map(|x| *x as i8).filter(|m| !bearing_off.contains(m)) {
            for (point, n_pieces) in board.iter().enumerate().map(|x| (x.0 as i8, x.1)) {""")],
  needs="a player who may bear off, holding both the point of the die and a higher one", breaks="moving on with that die inside the home board is no longer offered",
  demo=H + """fn main() {
    let mut pts = [0i8; 24]; pts[5] = -2; pts[0] = -2; pts[23] = 2;
    let steps: Vec<_> = Backgammon::get_normal_moves(&[1], (pts, (0, 0), (11, 13)), -1).iter().map(|n| n.value).collect();
    assert!(steps.contains(&(0, -1)) && steps.contains(&(5, 4)), "{steps:?}");
}
""")
SEEDS["stops-after-a-hit"] = dict(property="C07",
  edits=[(G, "        Self::_get_action_trees(&new_moves, new_state, player)\n", """        if Self::get_pieces_hit(new_state, -player) > Self::get_pieces_hit(state, -player) && action.0 == -1 { return vec![]; }
        Self::_get_action_trees(&new_moves, new_state, player)
""")],
  needs="a checker enters from the bar onto an opposing blot with a further step possible", breaks="the move ends after the entry although a further step is possible",
  demo=H + """fn main() {
    let mut pts = [0i8; 24]; pts[12] = -5; pts[20] = 1; pts[0] = 5;
    let mut g = Backgammon::init_with_fields((pts, (1, 0), (9, 9)), -1, false); g.roll = (4, 1);
    let moves = g.get_valid_moves();
    assert!(!moves.is_empty() && moves.iter().all(|m| m.len() == 2), "{moves:?}");
}
""")
SEEDS["forced-move-passed"] = dict(property="C25",
  edits=[(VS, "if !curr_prob_tensor.sum(None).is_nonzero() || root.children.is_empty() {", "if !curr_prob_tensor.sum(None).is_nonzero() || root.children.len() < 2 {")],
  needs="a match of models in which a position has exactly one legal move", breaks="the only legal move is not played, the turn is passed instead",
  demo=H + small("self.won = true", "if self.won { Some(self.player) } else if self.id == 7777 { panic!() } else { None }", "vec![1]").replace("fn skip_turn(&mut self) { self.player = -self.player; }", "fn skip_turn(&mut self) { self.player = -self.player; SKIPS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }") + """static SKIPS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn main() {
    let c = MctsConfig::from_config(&settings(2, 5, 1)).unwrap();
    let p = || Player::new(Agent::Model, Some(ResNet::new::<Toy>(VarStore::new(tch::Device::Cpu))));
    let r = play::<Toy>(p(), p(), &c, 1.0);
    assert_eq!(r.n_games, 400);
    let n = SKIPS.load(std::sync::atomic::Ordering::SeqCst);
    assert_eq!(n, 200, "{n}");   // the games in which player two begins
}
""")
SEEDS["exactly-fifty-five"] = dict(property="C27",
  edits=[(AV, "        if match_res.winrate >= 0.55 {", "        if match_res.winrate > 0.55 {")],
  needs="a match won in exactly 55 percent of its games", breaks="a model that won at least 55 percent is not taken as the better one",
  demo=H + small("self.won = true", "if self.won { Some(if self.id < 220 { -1 } else { 1 }) } else { None }") + """fn main() {
    let a = AlphaZero::from_config::<Toy>(None, &settings(2, 5, 1));
    let other = ResNet::new::<Toy>(VarStore::new(tch::Device::Cpu));
    assert_eq!(a.play_vs_model::<Toy>(other), Some(1));
}
""")
SEEDS["undecided-replaces"] = dict(property="C27",
  edits=[(AV, """                    .println("new model vs current best was inconclusive, keeping current best!")
                    .unwrap();
                false""", """                    .println("new model vs current best was inconclusive, keeping current best!")
                    .unwrap();
                self.config.self_play_iterations == 0""")],
  needs="an undecided match in a run configured without self-play", breaks="the best model is replaced by one that did not beat it",
  demo=H + small("self.won = true", "if self.won { Some(if self.id < 200 { -1 } else { 1 }) } else { None }") + """fn main() {
    let mut a = AlphaZero::from_config::<Toy>(None, &settings(2, 5, 1));
    a.config.self_play_iterations = 0;
    std::fs::create_dir_all("models/toy").unwrap();
    ResNet::new::<Toy>(VarStore::new(tch::Device::Cpu)).vs.save("models/toy/best_model.ot").unwrap();
    let before = std::fs::read("models/toy/best_model.ot").unwrap();
    a.play_vs_best_model::<Toy>();
    assert!(before == std::fs::read("models/toy/best_model.ot").unwrap());
}
""")
SEEDS["small-samples-untrained"] = dict(property="C36",
  edits=[(NP, "            for _ in 0..self.config.num_epochs {\n", "            for _ in 0..self.config.num_epochs.min(memory.len() / self.config.training_batch_size) {\n")],
  needs="an iteration that yields fewer batches of samples than there are epochs", breaks="the model is trained fewer epochs than configured",
  demo=H + """fn main() {
    let conf = config::Config::builder().add_source(settings(2, 50, 1)).set_override("training_batch_size", 4096).unwrap().build().unwrap();
    let mut a = AlphaZero::from_config::<TicTacToe>(None, &conf);
    let before = weights(&a.model);
    a.learn::<TicTacToe>();
    assert!(before != weights(&a.model));
}
""")
SEEDS["winrate-in-whole-percent"] = dict(property="C37",
  edits=[(VS, """        writeln!(f, "Winrate: {}%", self.winrate * 100.)?;""", """        writeln!(f, "Winrate: {}%", (self.winrate * 100.) as usize)?;""")],
  needs="a share of wins that is not a whole percent", breaks="the printed summary shows another share than the one recorded",
  demo=H + """fn main() {
    let r = PlayResult::<TicTacToe> { player1: Agent::Random, player2: Agent::Mcts, wins_p1: 50, wins_p2: 350, draws: 0, n_games: 400, winrate: 0.125, games: vec![] };
    assert!(r.to_string().contains("12.5"), "{r}");
}
""")
SEEDS["learn-iteration-forgotten"] = dict(property="C33",
  edits=[(MA, "                (Some(id), None, None) => format!(", "                (Some(id), None, _) => format!(")],
  needs="a self-play iteration asked for without its learn iteration", breaks="the contradictory request trains on the whole run instead of stopping the program",
  sh="""#!/bin/bash
# runs the program on a request it has to refuse
repo=$(pwd)
. /opt/vp/env.sh
cd "$repo" && cargo build -q --offline --bin die-e 2>/dev/null || exit 2
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
cat > config.toml <<T
iterations = 2
exploration_const = 2.0
simulate_round_limit = 50
dirichlet_alpha = 0.3
dirichlet_epsilon = 0.25
temperature = 1.25
learn_iterations = 1
self_play_iterations = 1
num_epochs = 1
training_batch_size = 2
num_self_play_batches = 1
wd = 0.0
lr = 0.01
T
mkdir -p data/tictactoe/run-1/lrn-0/sp-0
timeout 100 "$repo/target/debug/die-e" --game tic-tac-toe -c "$d/config.toml" train --run-id 1 --self-play 0 > out 2>&1
[ $? -ne 0 ] || exit 1
grep -q "Loading all data" out && exit 1
grep -q "request for the training data is incorrect" out
""", demo="")
SEEDS["last-checker-off-by-one"] = dict(property="C40",
  edits=[(G, """                (f, -1) if f > 17 => (24 - f) as u8,
                (f, t) => (f - t).unsigned_abs(),""", """                (f, -1) if f > 17 => (23 - f) as u8,
                (f, t) => (f - t).unsigned_abs(),""")],
  needs="player one bears off the last checker with exactly the higher die", breaks="the move comes back as a step of the lower die",
  demo=H + """fn main() {
    for player in [-1i8, 1] { for from in 0..6i8 { for a in 1..7u8 { for b in 1..7u8 {
        let at = if player == -1 { from } else { 23 - from };
        let mut pts = [0i8; 24]; pts[at as usize] = player; let wall = if player == -1 { 0 } else { 23 }; if wall == at { continue; } pts[wall as usize] = -2 * player;
        let mut g = Backgammon::init_with_fields((pts, (0, 0), (14, 13)), player, false);
        g.roll = (a, b);
        for m in g.get_valid_moves() { let c = LearnableGame::encode(&g, &m); assert_eq!(LearnableGame::decode(&g, c), m, "{:?} {:?}", g.roll, m); }
    } } } }
}
""")
SEEDS["pass-forgets-the-game"] = dict(property="C38",
  edits=[(G, """    fn skip_turn(&mut self) {
        self.is_second_play = false;
        self.player *= -1;
        self.roll_die();""", """    fn skip_turn(&mut self) {
        *self = Self::init_with_fields(self.board, -self.player, false);
        self.roll_die();""")],
  needs="a game with an id other than zero in which a turn is passed", breaks="the game is taken for game zero from then on",
  demo=H + """fn main() {
    let mut g = Backgammon::new(); g.set_id(7); g.roll_die(); g.skip_turn();
    assert_eq!((g.get_id(), g.player), (7, 1));
}
""")
SEEDS["tower-of-fifteen-miscounted"] = dict(property="C39",
  edits=[(G, "                total_player_2 += points[point as usize];", "                total_player_2 += points[point as usize] % 15;")],
  needs="all fifteen of player two's checkers on one point", breaks="a valid position is refused",
  demo=H + """fn main() {
    let mut pts = [0i8; 24]; pts[20] = 15; pts[3] = -15;
    let mut g = Backgammon::init_with_fields((pts, (0, 0), (0, 0)), 1, false);
    g.is_valid();
}
""")
SEEDS["games-named-by-half"] = dict(property="C31",
  edits=[(VS, "    let num_games = 400;", "    let match_id = nanoid!();\n    let num_games = 400;"), (VS, """        let game = Game::new(player1.player_type.clone(), player2.player_type.clone(), state);
""", """        let mut game = Game::new(player1.player_type.clone(), player2.player_type.clone(), state);
        game.id = format!("{}-{}", match_id, idx % (num_games / 2));
""")],
  needs="saving the games of a whole match", breaks="games of the second half take the names of games of the first half and overwrite their files",
  demo=H + small("self.won = true", "if self.won { Some(self.player) } else { None }") + """fn main() {
    let c = MctsConfig::from_config(&settings(2, 5, 1)).unwrap();
    let p = || Player::new(Agent::Random, None);
    let r = play::<Toy>(p(), p(), &c, 1.0);
    std::fs::create_dir_all("games").unwrap();
    for g in &r.games { save_game(g, "games").unwrap(); }
    assert_eq!(std::fs::read_dir("games").unwrap().count(), r.games.len());
}
""")
SEEDS["runs-named-by-settings"] = dict(property="C30",
  edits=[(PA, "        let run_id = nanoid!();\n", "        let run_id = match self.config.learn_iterations {\n            0 | 1 => String::from(\"trial\"),\n            _ => nanoid!(),\n        };\n")],
  needs="two learning runs of a single iteration", breaks="the second run writes its samples over those of the first",
  demo=H + small("self.won = true", "if self.won { Some(self.player) } else { None }") + """fn main() {
    for _ in 0..2 {
        let mut a = AlphaZero::from_config::<Toy>(None, &settings(2, 5, 2));
        a.learn_parallel::<Toy>();
    }
    assert_eq!(std::fs::read_dir("data/toy").unwrap().count(), 2);
}
""")
