#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    if len(title) > 80: print("LONG", id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
BG = "src/backgammon/backgammon_logic.rs"; ENC = "src/backgammon/encoding.rs"; TTT = "src/tictactoe/mod.rs"
SM = "src/mcts/simple_mcts.rs"; AM = "src/mcts/alpha_mcts.rs"; ND = "src/mcts/node.rs"; NS = "src/mcts/node_store.rs"
UT = "src/mcts/utils.rs"; NZ = "src/mcts/noise.rs"; AZ = "src/alphazero/alphazero.rs"; AP = "src/alphazero/alpha_parallel.rs"
AN = "src/alphazero/alpha_no_parallel.rs"; AV = "src/alphazero/alpha_versus.rs"; NN = "src/alphazero/nnet.rs"; VS = "src/versus.rs"
MA = "src/main.rs"; LI = "src/lib.rs"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_table.py")).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
