"""What each check reaches, and within which bounds, beyond its one-line method."""
NOTES = {
"C01": "Domain: any board, bar and borne-off counts as symbols, any origin, destination and either player; one step is compared cell by cell, a move of several steps by the loop over its steps (the step function composed in order). The tests play a handful of fixed moves.",
"C02": "All three winner queries are evaluated on symbolic borne-off counts 0..15 and compared with each other.",
"C03": "A turn as a function of the old position: whose turn, second half of a double, which dice are drawn and that a draw is one to six and independent for each die.",
"C04": "For each player and every one or two dice (6 + 36 combinations) the list of steps is expanded into (guard, step) pairs over 24 symbolic points in -15..15; guards are compared as BDDs with the movement rule for all 24x24 steps. Exhaustive over boards.",
"C05": "As C04, for entering from the bar.",
"C06": "As C04, for bearing off; whether all checkers are home is a separate obligation.",
"C07": "The tree of steps is followed structurally: for every possible step, the call that generates its children gets the position after it and exactly the dice left; the list of moves is every path from root to leaf. Holds for every board because positions are symbols.",
"C08": "The loop that drops duplicates: the set of seen positions and the kept list as loop variables; a move is kept exactly when its resulting position was not in the set.",
"C09": "Encoding and decoding as functions of roll, player and steps, evaluated for all rolls and each origin class (point, bar, none); the code's range is part of it.",
"C10": "All 3^9 boards as nine symbols in -1..1 with BDDs; moves cell by cell.",
"C11": "The tensor is evaluated as a term over its index; every part of the position must be the value of some index, and no index may carry two. Shapes are computed by the tensor model.",
"C12": "Layer widths and shapes are computed from the constants of every implementation of the game trait.",
"C13": "Flags are followed through callers, so a flag computed from the input is reported even if it is false in the case at hand.",
"C14": "Allocation, linking and the move each child is reached by: loops over the moves as comprehensions.",
"C15": "Inductive: the base (root) and step (to the parent) of the recursion or loop; floating point as a ring.",
"C16": "A leaf is expanded and rolled out from, or scored when terminal, per path; the tree operations themselves are C14, C15, C18, C19.",
"C17": "Sequential and batched guided search; in the batched one an arbitrary tree of the batch stands for all, and terms that mention another tree are reported.",
"C18": "The loop's exits are enumerated; uniformity is judged as: one draw over the whole list of legal moves, of the current position.",
"C19": "The score is compared as a term in visits, value, prior and the constant; argmax over all children.",
"C20": "Sparse tensors: shape, list of written entries as a comprehension, scale factor.",
"C21": "As C20, for the three functions that make priors.",
"C22": "The mix is a polynomial identity; that it happens once and before the first iteration is a path property.",
"C23": "Both self-play routines; the sample recorded on each path and what happens to it when the game ends.",
"C24": "Loop invariants of the outer loop given by its paths: a game leaves the set exactly when delivered, counters only grow on its own turn, the loop ends only when no game is open.",
"C25": "Every call that applies a move, in every caller, is traced back to its search, draw, decoding and legality test.",
"C26": "The number of games and the limit are read from the code; the tally is compared as a sum over the games delivered.",
"C27": "Thresholds are compared over all win rates, as intervals.",
"C28": "Batches as slices of the shuffled memory: every sample in exactly one batch, losses as terms, order of zeroing, backward pass and step.",
"C29": "Saves and loads are matched by path term; that a directory exists is a must-fact at every save.",
"C30": "Row order, columns, file names and recursion of the stored data; read and written formats matched with each other rather than with fixed names.",
"C31": "I/O results are tracked to a returned error or a stop on every path (`?`, match, unwrap); a result that is dropped is reported.",
"C32": "Keys, types and sinks as a relation, over the two constructors.",
"C33": "All option combinations as symbols; the refusal comes before the first search, training or save on its path.",
"C34": "The derived code of serde is part of the MIR and is analysed as any other function.",
"C35": "31 checker counts per point are substituted into the text term: complete for every position because a column depends on its own point only (which is checked).",
"C36": "Both loops; an arbitrary iteration on each of its paths (saving fails or not), with the self-play and training loops inside it. What training, storing and comparing do is C28, C30, C27.",
"C37": "Any game (the position printer is opaque here and is C35). Labels are compared by the words that tell two values apart, not by their wording.",
"C38": "The constructors, get_id, set_id and every function that changes a game are evaluated on symbolic games; each field of the result is compared with the start or the id. A trait method that changes nothing but takes `&mut self` would be covered by the same rows.",
"C39": "is_valid is summarised with its loop as sums over the 24 points; each sum is read as a count (its summand is a function of what stands on the point, tabulated over -15..15, and must be linear in the two sides' checkers); the accepting rows are then compared with 'fifteen each' as formulas. Arithmetic overflow of the i8 totals lies outside the domain (more than 127 checkers).",
"C40": "Every kind of step (point to point, entering, bearing off), one or two, either player, equal and unequal dice in either order, the first step with either die; origins and dice are symbols. That offered moves have this form is C04-C07. A left inverse makes codes distinct.",
}
CAUGHT_ALSO = {}
