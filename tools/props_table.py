p("C01", "A backgammon step moves exactly one checker and sends a hit blot to the bar",
  "Applying one step of a backgammon move takes exactly one of the mover's checkers from its origin (a point, or the mover's bar) and puts it on its destination (a point, or the mover's borne-off count). If the destination held a single opposing checker, that checker goes to the opponent's bar; nothing else on the board changes, so each side always has fifteen checkers. The steps of a move are applied one after the other, each to the position the previous one left.",
  ["inputs", "histories"], "every position, both players, every point/bar/bear-off step and every sequence of steps",
  "the tests apply a few dozen hand-written moves; origin x destination x player x occupancy is not enumerated", [BG],
  [("get_next_state", BG)], ["Backgammon::get_next_state", "LearnableGame::apply_move"])
p("C02", "Backgammon has a winner exactly when a side has borne off fifteen checkers",
  "A backgammon position has a winner exactly when one side has borne off all fifteen checkers, and the winner reported is that side. The per-player query, the query without a player and the winner reported to search and training agree.",
  ["inputs"], "every position and both players", "tests sample four positions", [BG], [("check_win, check_win_without_player, check_winner", BG)], ["LearnableGame::check_winner"])
p("C03", "Doubles are played twice, otherwise the turn passes with new dice",
  "After a move the same player plays again with the same dice exactly when the dice are equal and this was not already the second play; in every other case, and whenever a turn is passed, the second-play mark is cleared, the opponent is to move and both dice are rolled anew. Each die of a roll is drawn independently from one to six inclusive. A new game starts from the standard opening position with nothing on the bar or borne off.",
  ["inputs", "histories"], "every position, roll and play of a turn", "dice are random: the tests never fix the hand-over of doubles and cannot see the range of a die", [BG],
  [("apply_move / skip_turn / roll_die", BG)], ["LearnableGame::apply_move", "LearnableGame::skip_turn", "LearnableGame::roll_die"])
p("C04", "Ordinary backgammon steps are generated exactly when they are legal",
  "With no checker on the bar, a step from a point to a point is offered exactly when the mover owns the origin, the destination is one die away in the mover's direction and on the board, and the opponent does not hold the destination with two or more checkers. This holds for every die still to be played and is mirrored between the two players.",
  ["inputs"], "every position, every die, both players", "tests look at a handful of boards; the blocked/blot/own/empty x edge x player cases are not enumerated", [BG],
  [("get_normal_moves", BG)], ["Backgammon::get_normal_moves"])
p("C05", "Checkers on the bar enter first, and only onto open points",
  "While the mover has a checker on the bar only entering steps are offered. An entering step with a die is offered exactly when the point that die names in the opponent's home board is not held by two or more opposing checkers; for one player these points count down from 24, for the other up from 1.",
  ["inputs"], "every position, every die, both players", "tests cover a few bar positions of each player", [BG],
  [("_get_action_trees", BG), ("get_entry_moves", BG)], ["Backgammon::get_entry_moves"])
p("C06", "Bearing off is offered exactly when the home-board rule allows it",
  "A checker may be borne off only when the mover has no checker on the bar and none outside the home board. A die then bears off a checker from the point it names, or, from the highest occupied point below it when the mover has no checker on the die's point's far side of that checker; checkers of the opponent play no part in this.",
  ["inputs"], "every position, every die, both players", "tests never have opposing checkers inside the home board while bearing off", [BG],
  [("is_collectible", BG), ("get_normal_moves", BG)], ["Backgammon::get_normal_moves", "Backgammon::is_collectible"])
p("C07", "A backgammon move plays each die at most once and never stops early",
  "The moves offered in a turn start from the two dice of the roll, higher die first in the list. Along every offered move each die is used at most once, each further step is generated in the position left by the steps before it with exactly the dice not yet used, and a move ends only where no further step is possible.",
  ["inputs"], "every position and roll", "tests compare a few move trees", [BG],
  [("get_valid_moves", BG), ("_get_children_of_node_action", BG), ("extract_sequences_helper", BG)], ["LearnableGame::get_valid_moves"])
p("C08", "Of all backgammon moves leading to the same position exactly one is offered",
  "The list of moves offered for a turn contains, for every position reachable by playing the dice, exactly one move leading to it: a generated move is dropped only if an earlier one leads to the same board, bar and borne-off counts, and it is always dropped then.",
  ["inputs"], "every position and roll", "tests check three positions for duplicates", [BG], [("remove_duplicate_states", BG)], ["LearnableGame::get_valid_moves"])
p("C09", "Move codes: layout, range and both copies of the codec",
  "A backgammon move is numbered by its one or two origins as base-26 digits (a point is its own digit, the bar is 24, a missing second step is 25), plus 676 when the lower die is played first; no move at all is 1351. Decoding reads the same digits and applies the dice in the order the code names, so every code lies in the action space the network is built with. The codec used by search and play and the public one on the game type are the same function.",
  ["inputs"], "every roll, player and move of at most two steps", "the tests exercise only the public copy on some sixty moves; the copy search uses is never called by them", [BG, ENC],
  [("encode/decode (trait)", BG), ("encode/decode (inherent)", ENC)], ["LearnableGame::encode", "LearnableGame::decode"])
p("C10", "Tic-tac-toe follows its rules",
  "Exactly the empty cells may be played; a move marks its cell for the mover, changes no other cell and passes the turn. The winner is the owner of a completed row, column or diagonal, a full board without one is a draw, and any other position goes on. A move's code is its cell number.",
  ["inputs"], "every position and move", "tests sample positions; the eight lines are not each checked for both players", [TTT],
  [("get_valid_moves/apply_move/check_winner/encode/decode", TTT)], ["LearnableGame for TicTacToe"])
p("C11", "The network input has the declared shape and shows the whole position",
  "For both games the tensor made from a position has one batch entry, the declared number of channels and as many squares as the declared board size. Every part of the position that decides how it continues (board, mover, bar, borne-off checkers, dice, second play) has its own place in it, one value never overwriting another. A backgammon position whose dice have not been rolled is refused.",
  ["inputs"], "every position of both games", "shapes are only seen by running the full network; no test calls it", [BG, TTT], [("as_tensor", BG), ("as_tensor", TTT)], ["LearnableGame::as_tensor"])
p("C12", "The network's layers fit together and its heads have the right range",
  "Every layer's input width equals the previous layer's output width for the declared channels, filters, board size and action space, and convolutions keep the board size. Inference returns a softmax over the actions of each row and a tanh value; training returns the unnormalised policy and the same value; all three forward functions run the same body and heads and hand the caller's training flag to every layer, a residual block adds its input back, and every weight lives in the store that is saved and loaded.",
  ["inputs", "configurations"], "both games and every batch", "no test builds the network", [NN], [("ResNet::new / forward_*", NN), ("ResBlock", NN)], ["ResNet::forward_t", "ResNet::forward_train", "ResNet::forward_policy"])
p("C13", "Search and play never train or change the network they consult",
  "Everywhere outside the training step the network is evaluated in inference mode, and every search evaluates it with gradient recording switched off for the whole search. Weights change only through the optimizer step of training or by loading or copying a model.",
  ["histories", "inputs"], "every call path from search, self-play and matches to the network", "batch-norm statistics and gradients are invisible to the tests", [AM, NN, AZ], [("forward_*(.., false)", AM), ("no_grad_guard", AM)], ["alpha_mcts", "alpha_mcts_parallel"])
p("C14", "Expanding a tree node adds exactly one correctly linked child per move",
  "Expanding a node adds, for every move taken from its untried moves, exactly one child holding the position after that move, that move, a link to the parent and the prior belonging to the move's code; the parent lists the child and no longer lists the move as untried. A new node starts without children, visits and value and with exactly the legal moves of its position as untried; a node's index is its place in the store.",
  ["inputs", "histories"], "every position, every node of every tree", "only tensor helpers are tested; expansion is not", [ND, NS], [("expand/alpha_expand/alpha_expand_tensor", ND), ("add_node/set_node/get_node", NS)], ["Node::expand", "Node::alpha_expand", "Node::alpha_expand_tensor", "NodeStore"])
p("C15", "A result reaches every node from leaf to root once, from its chooser's view",
  "Backing up a result adds one visit to the starting node and each of its ancestors, and to no other node. The result is added to each node's value if the player who chose that node (the mover at its parent; the given player at a root) is the player the result is meant for, and subtracted otherwise.",
  ["histories"], "every tree and every leaf", "no test runs a search", [SM], [("backpropagate", SM)], ["backpropagate"])
p("C16", "Each iteration of plain tree search backs up exactly one correct result",
  "Plain tree search selects one leaf per iteration and backs up exactly one result: the true result if the game is over there, otherwise that of a playout, run from the new child if there is a move left to try and from the leaf itself if there is none. Results are from the searching player's view, +1, -1 or 0. It never fails on a position without moves, returns no move for a finished game and otherwise the root move with the most visits.",
  ["inputs", "histories"], "every position and configuration", "no test runs a search", [SM], [("mct_search, select_most_visits", SM)], ["mct_search"])
p("C17", "Each iteration of network-guided search backs up one result per tree",
  "In every iteration of network-guided search, of one game or of many at once, each tree selects one leaf and backs up exactly one result: the true result from its root player's view if the game is over there, otherwise the network's value of that very leaf from the leaf's mover's view, after expanding that leaf with the network's policy for it. A finished position is never expanded and the trees of different games never mix.",
  ["inputs", "histories"], "every set of positions and every iteration", "no test runs a search", [AM], [("alpha_mcts, alpha_mcts_parallel", AM)], ["alpha_mcts", "alpha_mcts_parallel"])
p("C18", "Playouts follow the game to its end and score it for the right player",
  "A playout plays uniformly chosen legal moves from the given position, passing when there is none, until the position reached has a winner or the round limit is used up. It returns +1 if the given player won the position reached, -1 if the opponent did and 0 for a draw or at the limit, and leaves the tree unchanged.",
  ["inputs", "histories"], "every position, player and limit", "playouts are random and untested", [ND], [("simulate", ND)], ["Node::simulate"])
p("C19", "Selection follows the confidence bound down to an expandable node",
  "Descending a tree moves from a node to the child with the largest score until it reaches a node without children (in plain search: or with untried moves). The score is mean value plus the exploration term: the root of c ln(parent visits)/visits in plain search; c times prior times the root of the parent's visits over one plus visits in network-guided search, where an unvisited child has mean zero.",
  ["inputs", "histories"], "every tree", "no test runs a search", [SM, AM, ND], [("ucb, alpha_ucb", ND), ("select_*", SM), ("select_alpha", AM)], ["select_leaf_node", "alpha_select_leaf_node"])
p("C20", "A search's answer is the visit share of each root move at that move's code",
  "The policy a search returns gives every move of the root its visits divided by the visits of all root moves, at the position of that move's code in the action space, and zero everywhere else. With several games, row i belongs to the i-th root. A root without children yields no answer.",
  ["inputs"], "every tree, one or many roots", "one test with two tic-tac-toe roots", [UT], [("get_prob_tensor, get_prob_tensor_parallel", UT)], ["get_prob_tensor", "get_prob_tensor_parallel"])
p("C21", "Priors are the network policy on the legal moves, renormalised",
  "The priors given to a node's children are the network's policy values at the codes of that node's legal moves, divided by their sum; every other action has prior zero. The three ways of computing them agree.",
  ["inputs"], "every node and every policy", "one test with two rows of one of the three functions", [UT], [("turn_policy_to_probs*", UT)], ["turn_policy_to_probs"])
p("C22", "Exploration noise is a convex mix and touches only the root",
  "Noise replaces a root prior p by (1-e)*p + e*n with n from a Dirichlet distribution with the configured concentration and as many components as there are priors, and is applied once per search, before the first iteration, to root priors only.",
  ["inputs", "histories"], "every search", "noise is random and untested", [NZ, AM], [("apply_dirichlet", NZ), ("apply_dirichlet_to_root", AM)], ["alpha_mcts", "alpha_mcts_parallel"])
p("C23", "Self-play samples pair a position with its own search policy and result",
  "Every training sample of self-play holds the position before the move was played, the visit distribution the search returned for that position (before any temperature), and the game's result seen from the player to move in it: +1 won, -1 lost, 0 drawn. Sequential and batched self-play agree.",
  ["histories", "inputs"], "every self-play game", "self-play is random and needs the network; no test runs it", [AP, AN], [("self_play", AN), ("self_play_parallel", AP)], ["AlphaZero::self_play", "AlphaZero::self_play_parallel"])
p("C24", "Every self-play game contributes its samples exactly once and then ends",
  "A batched self-play game ends when it has a winner or reaches the round limit; its samples are then delivered exactly once, as a draw in the second case, and the game is not played on. Games that are still running are kept, a pass counts as a round, and the call returns only when every game has ended.",
  ["histories"], "every batch and every length of game", "self-play is random and needs the network; no test runs it", [AP], [("self_play_parallel", AP)], ["AlphaZero::self_play_parallel"])
p("C25", "Self-play and matches play only legal moves chosen for that very position",
  "In batched self-play and in matches every move played on a game was chosen by searching that game's current position and is checked to be among its legal moves before it is applied; a game without a move to play passes the turn instead. Moves are drawn with probabilities proportional to visit share raised to 1/temperature and decoded in the position they were chosen for.",
  ["histories", "inputs"], "every game of every batch", "no test plays a game", [AP, AN, VS, AZ], [("self_play_parallel", AP), ("play, get_actions_for_player", VS)], ["AlphaZero::self_play_parallel", "versus::play"])
p("C26", "A match counts every game once and for the right player",
  "A match starts half of its games with each player to move, each player's agent chooses the moves exactly when that player is to move, and every game ends with a winner or, at the round limit, as a draw. Each finished game is counted once for the player who won it; wins, losses and draws add up to the number of games and the win rate is player one's wins over all games.",
  ["histories"], "every match", "no test plays a match", [VS], [("play", VS)], ["versus::play"])
p("C27", "The best model is replaced only by one that beat it at 55 percent or more",
  "The stored best model is overwritten only when there was none or when the current model, playing as player one against the stored one, won at least 55 percent of the games; at most 45 percent counts as worse and everything between as undecided. The models playing are a copy of the current weights and the stored file's weights.",
  ["histories", "inputs"], "every match result", "needs two trained models and 400 games", [AV], [("play_vs_best_model, play_vs_model", AV)], ["AlphaZero::play_vs_best_model"])
p("C28", "Training steps use a fresh gradient of the right, finite loss",
  "Training visits every sample of the shuffled memory once per pass in batches of the configured size. Each step clears the gradients, computes them for the sum of the policy cross-entropy (on unnormalised outputs against the stored policies) and the squared error of the value against the stored results, and then makes exactly one optimizer step; it stops before changing the weights if results or losses are not finite.",
  ["inputs", "histories"], "every memory and batch size", "no test trains", [AZ], [("train", AZ)], ["AlphaZero::train"])
p("C29", "Models are really loaded, and saved only when training left finite weights",
  "Loading a model fills the weights of the network that is then used and trained, and a failed load stops the program; without a given path the stored best model is used if there is one. In batched learning the weights are checked to hold no NaN after training and before they are saved, into a directory that has been created.",
  ["histories", "fault_sequences"], "every start and learning run", "needs model files; no test", [AZ, NN, AP, AN, MA], [("AlphaZero::new", AZ), ("ResNet::from_path", NN), ("learn_parallel", AP)], ["AlphaZero::new", "AlphaZero::learn_parallel"])
p("C30", "Training data is stored and loaded without loss, duplication or mix-up",
  "Each self-play iteration of a learning run stores exactly the samples it produced in its own directory, below a directory that no other run shares, and loading a directory yields each stored sample once with its own policy, position and result, for any number of samples. Training from disk reads exactly the self-play directories below the requested path, and an error while finding, reading or writing them stops the program.",
  ["histories", "inputs", "fault_sequences"], "every run and every number of samples", "no test touches the disk", [AZ, AP, MA], [("save_training_data, load_training_data", AZ), ("get_all_paths_rec", MA)], ["AlphaZero::save_training_data", "AlphaZero::load_training_data"])
p("C31", "Saved games are complete and readable, and I/O failures are reported",
  "Saving a game writes its whole record to a file named after the game in the given directory and reports any failure to create, serialise, write or flush it; loading reads the same format back and reports failures, and loading a directory yields every game file in it. The record of a played game holds the starting position, the agents, the winner and every move played, and no two games share a name.",
  ["histories", "fault_sequences"], "every game and every I/O failure", "no test touches the disk", [VS], [("save_game, load_game, load_all_games", VS), ("play", VS)], ["versus::save_game", "versus::load_game"])
p("C32", "Every configuration value reaches its parameter, or start-up fails",
  "Each parameter is read from the configuration key of its name and used for that purpose only; a missing key, a value of the wrong type or a negative count is reported as an error. The two ways of building the learning set-up agree on the keys.",
  ["configurations"], "every configuration file", "no test reads a configuration", [LI, AZ, MA], [("from_config", LI), ("from_config", AZ)], ["MctsConfig::from_config", "AlphaZeroConfig::from_config", "OptimizerParams::from_config"])
p("C33", "The command line selects the game, agents, models and data it names",
  "The game, each player's agent and model, the output directory and the part of the stored data given on the command line are the ones used, each option for its own purpose; anything unknown, missing or contradictory stops the program before play or training starts.",
  ["configurations", "inputs"], "every command line", "no test runs the program", [MA], [("handle_command, main", MA)], ["main"])
p("C34", "Saved positions and games are read back field by field",
  "Every field of a saved game, turn, agent and position is written under a name from which reading fills the same field again; none is skipped, replaced by a default or swapped with another.",
  ["inputs"], "every game and position", "no test writes or reads a game", [VS, BG, TTT], [("derived Serialize/Deserialize", VS)], ["Game", "Turn", "Agent", "Backgammon", "TicTacToe"])
p("C35", "The printed position shows the position",
  "The text printed for a position shows all of it: the nine squares of tic-tac-toe in board order, three to a line, with each mark told apart; in backgammon whose turn it is, the dice, the hit and borne-off checkers of each side under that side's name, and for each of the 24 points one column, labelled with its number, with one mark per checker in its owner's symbol up to five and the number of further checkers above that.",
  ["inputs"], "every position", "no test looks at the printed text", [BG, TTT], [("to_pretty_str", BG), ("to_pretty_str", TTT)], ["LearnableGame::to_pretty_str"])
p("C36", "A learning run is made of complete iterations, each on its own samples",
  "A learning run, batched or sequential, makes the configured number of iterations and ends only after the last (or stops the program). In each, the model as trained so far plays the configured number of self-play runs; then it is trained the configured number of epochs on exactly the samples of this iteration; then the trained model is saved once, under a name no other iteration uses, and in batched learning compared once with the best. The next iteration goes on with the trained model.",
  ["histories"], "every learning run", "a learning run takes hours; no test makes one", [AP, AN], [("learn_parallel", AP), ("learn", AN)], ["AlphaZero::learn_parallel", "AlphaZero::learn"])
p("C37", "A replay and a match summary show what was recorded",
  "Replaying a game file shows the game's id, both agents, the winner and the starting position and then, for every recorded turn in order, its player, roll and action and the position after it, each once and under its own label, whether or not the user is waited for; a file that cannot be read is reported. The printed summary of a match shows each agent, each player's wins, the draws, the number of games and player one's share of wins in percent, each once and under its own label.",
  ["inputs"], "every saved game and match result", "no test looks at printed text", [VS], [("print_game", VS), ("Display for PlayResult", VS)], ["versus::print_game", "PlayResult"])
p("C38", "A game keeps the id it was given and new games begin alike",
  "The id given to a game is the id it reports; giving it changes nothing else about the game, and no move, pass or roll changes it. Every way of making a new game gives the standard position (in tic-tac-toe the empty board) or exactly the position, player and half of a double it is made from, with the dice not yet rolled and the id zero; player one (-1) begins.",
  ["inputs", "histories"], "every game, id, move and position", "matches find their games by id, and no test plays a match", [BG, TTT], [("get_id/set_id/new/init_with_fields", BG), ("get_id/set_id/new", TTT)], ["LearnableGame::get_id", "LearnableGame::set_id", "LearnableGame::new", "Backgammon::init_with_fields"])
p("C39", "A position passes the validity check exactly when each side has fifteen checkers",
  "The validity check of a backgammon position accepts it exactly when, for each side, the checkers on the points, on the bar and borne off add up to fifteen; it stops the program otherwise and never changes the position.",
  ["inputs"], "every position", "the tests check the opening position and a few of its changes", [BG], [("is_valid", BG)], ["Backgammon::is_valid"])
p("C40", "Every legal backgammon move survives encoding and decoding unchanged",
  "For every position and roll, decoding the code of an offered move in the position it was offered for gives the very same steps, so that different offered moves have different codes; this holds for both copies of the codec, each read by its own decoder.",
  ["inputs"], "every position, roll and offered move", "the tests sample some sixty moves", [BG, ENC], [("encode/decode", BG)], ["LearnableGame::encode", "LearnableGame::decode"])
p("C41", "Dice, playouts and noise are drawn from the intended distributions",
  "Dice are uniform and independent, playout moves uniform, and Dirichlet noise has the configured concentration, in distribution and not only in range.",
  ["histories"], "all random draws", "distributions cannot be tested by a few draws", [BG, ND, NZ], [("rand", BG)])
p("C42", "Learning makes the player stronger",
  "Over a learning run the stored best model becomes stronger, and training converges.",
  ["histories"], "every learning run", "takes days of training", [AP, AZ], [("learn_parallel", AP)])
