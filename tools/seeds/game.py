BG = "backgammon/backgammon_logic.rs"
H = "#![allow(unused)]\nuse die_e::base::LearnableGame;\nuse die_e::backgammon::backgammon_logic::Backgammon;\nuse die_e::tictactoe::TicTacToe;\n"
SEEDS = {}

SEEDS["skip-keeps-second-play"] = dict(property="C03",
  edits=[(BG, "    fn skip_turn(&mut self) {\n        self.is_second_play = false;\n", "    fn skip_turn(&mut self) {\n        if self.roll.0 != self.roll.1 {\n            self.is_second_play = false;\n        }\n")],
  needs="a turn passed during the second play of doubles",
  breaks="the second-play mark stays set, so the opponent's next doubles are played only once",
  demo=H + """fn main() {
    let mut bg = Backgammon::new();
    bg.roll = (3, 3);
    let m = bg.get_valid_moves()[0].clone();
    bg.apply_move(&m);
    assert!(bg.is_second_play);
    bg.skip_turn();
    assert!(!bg.is_second_play, "second-play mark survives a passed turn");
}
""")

SEEDS["bar-hit-own-count"] = dict(property="C01",
  edits=[(BG, """                    } else {
                        state.1 .0 += 1;
                        state.1 .1 -= 1;
                    }
                } else if""", """                    } else {
                        state.1 .0 += 1;
                        state.1 .1 = state.1 .1.saturating_sub(state.1 .0);
                    }
                } else if""")],
  needs="player 1 enters from the bar hitting a blot while the opponent already has a checker on the bar",
  breaks="the mover's bar count drops by the size of the opponent's bar instead of by one",
  demo=H + """fn main() {
    let mut pts = [0i8; 24];
    pts[2] = -1; pts[5] = -12; pts[18] = 10;
    let board = (pts, (2u8, 5u8), (0u8, 0u8));
    let next = Backgammon::get_next_state(board, &vec![(-1, 2)], 1);
    assert_eq!(next.1, (3, 4), "bar after entering with a hit");
    assert_eq!(next.0[2], 1);
}
""")

SEEDS["search-codec-entry-distance"] = dict(property="C09",
  edits=[(BG, """                        // raise the low_roll_first_flag if the first move is certainly the low roll
                        let distance = (t - (-1)) as u8;
                        low_roll_first_flag = distance == low_roll;""", """                        // raise the low_roll_first_flag if the first move is certainly the low roll
                        let distance = t as u8;
                        low_roll_first_flag = distance == low_roll;""")],
  needs="player 1 enters from the bar with the higher die first, the lower die being one less",
  breaks="the copy of the codec that search uses says the low die was played first",
  demo=H + """fn main() {
    let mut bg = Backgammon::new();
    bg.player = 1;
    bg.roll = (4, 3);
    // enter with the 4 (point 3), then move a checker by 3
    let m = vec![(-1i8, 3i8), (11, 14)];
    let code = LearnableGame::encode(&bg, &m);
    assert_eq!(code, 24 + 26 * 11, "code of the move");
    assert_eq!(LearnableGame::decode(&bg, code), m);
}
""")

SEEDS["entry-open-point-double"] = dict(property="C05",
  edits=[(BG, """                let point = m - 1;
                if board[point as usize] > -2 {""", """                let point = m - 1;
                if board[point as usize] > -2 || (state.1 .1 > 1 && board[point as usize] == -2) {""")],
  needs="player 1 has two or more checkers on the bar and the opponent holds the entry point with exactly two",
  breaks="an entering step onto a point held by the opponent is offered",
  demo=H + """fn main() {
    let mut pts = [0i8; 24];
    pts[2] = -2; pts[7] = -13; pts[18] = 13;
    let mut bg = Backgammon::init_with_fields((pts, (0, 2), (0, 0)), 1, false);
    bg.roll = (3, 3);
    assert!(bg.get_valid_moves().is_empty(), "point 2 is blocked");
}
""")

SEEDS["bear-off-after-hit"] = dict(property="C06",
  edits=[(BG, """            if board.1 .1 != 0 {
                return false;
            }
            for i in 0..=17 {""", """            if board.1 .1 > board.2 .1 {
                return false;
            }
            for i in 0..=17 {""")],
  needs="player 1 is hit after bearing off its first checkers",
  breaks="bearing off counts as allowed while a checker waits on the bar",
  demo=H + """fn main() {
    let mut pts = [0i8; 24];
    pts[18] = 12; pts[0] = -15;
    assert!(!Backgammon::is_collectible((pts, (0, 1), (0, 2)), 1));
}
""")

