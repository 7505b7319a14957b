"""property -> (rule in one sentence, decision procedure)"""
from . import backgammon as bg, games
CHECKS = {
 "C01": ("value-flow summary of get_next_state's step loop compared with the reference effect of one step on every path", bg.c01),
 "C02": ("rows of the three winner queries compared with 'borne off == 15' over all counts up to 15", bg.c02),
 "C03": ("rows of apply_move, skip_turn, roll_die and the constructors compared with the turn rules", bg.c03),
 "C04": ("every step get_normal_moves can offer, per die and point, compared as a boolean function of the board with the movement rule", bg.c04),
 "C05": ("every step get_entry_moves can offer compared with the entry rule; dispatch on the bar in every caller", bg.c05),
 "C06": ("every bearing-off step compared as a boolean function of the board with the home-board rule", bg.c06),
 "C07": ("dice list, children of every generated step and the extraction of sequences compared with the turn rule", bg.c07),
 "C08": ("loop summary of remove_duplicate_states: kept iff the position reached was not seen; both updates", bg.c08),

 "C09": ("rows of both copies of encode and decode compared with the digit layout and the order of the dice, for every kind of step", bg.c09),
 "C10": ("moves, effect of a move, winner and codes of tic-tac-toe compared as boolean functions of the nine cells with the rules", games.c10),
 "C11": ("symbolic evaluation of the tensor layout operations: shape, and injectivity of every part of the position at fixed places", games.c11),
}
from . import tree
CHECKS.update({
 "C14": ("effects of every function that adds, stores or expands tree nodes compared field by field with the reference", tree.c14),
})
CHECKS["C15"] = ("one step of backing up a result (of the recursion or loop) compared with the reference: which node, visits, sign of the value, where it goes on", tree.c15)
CHECKS["C19"] = ("stop condition and choice of the next node in both descents, and the score as a term, compared with the reference", tree.c19)
CHECKS["C18"] = ("the playout's loop: bound, effect of every path of one round and result of every exit compared with the reference", tree.c18)
CHECKS["C16"] = ("every path of one search iteration: calls made, their arguments and the one result backed up, and the answer, compared with the reference", tree.c16)
from . import guided
CHECKS["C17"] = ("the root's expansion, every path of one iteration for one game and for many (calls, arguments, the one result backed up per tree) compared with the reference", guided.c17)
CHECKS["C22"] = ("the noise as a polynomial of priors and sample compared with the convex mix; every path of both searches adds it once, to the root, before the first iteration", guided.c22)
from . import policies
CHECKS["C20"] = ("the answer evaluated as a sparse tensor (enumeration of its entries, place and value of each) and compared with visits over total visits at the move's code", policies.c20)
CHECKS["C21"] = ("the priors of all three functions evaluated as sparse vectors and compared with policy over the sum on the legal moves' codes", policies.c21)
from . import network
CHECKS["C12"] = ("construction and the three forward passes evaluated over tensor shapes: every layer's width, the heads' last step, the training flag, the store of the weights", network.c12)
from . import modes
CHECKS["C13"] = ("effects over the call graph: the training flag of every evaluation followed through its callers, a must-analysis of the no-grad guard at every evaluation, and the functions reachable from searches and matches that change weights", modes.c13)
from . import selfplay, matches
CHECKS["C23"] = ("every path of one round of sequential and batched self-play: what is recorded and what a finished game delivers, compared with the reference sample", selfplay.c23)
CHECKS["C24"] = ("the open games, counters, deliveries and removals of batched self-play as loop variables: every path of a round compared with the reference", selfplay.c24)
CHECKS["C25"] = ("every path that plays a move in self-play, matches and single answers: the position searched, the draw, the decoding, the look-up among the legal moves and the pass compared with the reference", selfplay.c25)
CHECKS["C26"] = ("start, one turn of every game and the tally of a match as loop variables: every path compared with the reference", matches.c26)
from . import learning
CHECKS["C27"] = ("every path of the comparison with the best model: what is written, when, and between which weights the match was played, compared with the reference over all win rates", learning.c27)
CHECKS["C28"] = ("one training step as a path of the loop over the batches: events, gradient order, loss and its inputs as terms over the shuffled memory, compared with the reference", learning.c28)
CHECKS["C29"] = ("every path of start-up, model loading and learning: which weights are loaded from where and used, and the facts and directories every save rests on", learning.c29)
CHECKS["C30"] = ("every path that stores, finds and loads samples: files, columns and rows matched between writing and reading, directories per iteration, the recursive listing as a loop", learning.c30)
from . import records
CHECKS["C31"] = ("every path of saving and loading a game: the file, its content and every failure that has to be reported; the record kept by a match as loop variables", records.c31)
CHECKS["C34"] = ("the derived writers and readers of all saved types: each field's name, source and destination matched between the two", records.c34)
from . import commands
CHECKS["C32"] = ("every path of reading the configuration: key, type and destination of each value; and what each value reaches: repetitions, searches, noise, optimizer", commands.c32)
CHECKS["C33"] = ("every path of the command line's handling: what is refused, and which game, agents, models, data and files every command that runs uses", commands.c33)
from . import printing
CHECKS["C35"] = ("the printed text as a term of the position: lines, columns and header fields, every column evaluated for every number of checkers", printing.c35)
CHECKS["C38"] = ("rows of the constructors, get_id, set_id and of every change of a game compared field by field with the standard start and the id given", games.c38)
CHECKS["C39"] = ("rows of is_valid with its sums over the points as counts of the two sides' checkers, compared with 'fifteen each'", games.c39)
CHECKS["C40"] = ("decoding composed with encoding as terms, for every kind of step, player and order of the dice, compared with the identity", bg.c40)
CHECKS["C36"] = ("the order, number and subjects of self-play, training, saving and comparing on every path of an iteration of both learning loops", learning.c36)
CHECKS["C37"] = ("the printed text as a term: labels and values of the replay of a file, of every one of its turns, and of a match's summary, compared with the fields recorded", records.c37)
