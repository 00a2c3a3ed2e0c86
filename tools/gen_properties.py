#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
S = "barbarosa/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HOOK_CUBES = "read/write access to the piece sets of the 4x4..7x7 cubes and to the fields of the centre-corner piece (cfg verif_hooks)"

p("C01", "Turning the 2x2 and the 3x3 does exactly what turning the physical cube does",
  "For every sequence of face turns applied to a 2x2 or 3x3 cube, from solved or from any other state, every sticker ends up exactly where it ends up on the physical puzzle: a turn moves all pieces of its own face clockwise by its amount (seen from that face), twists and flips them as a rigid rotation does, and touches nothing else.",
  ["histories", "inputs"], "all finite sequences of the 18 face turns, from all states",
  "The tests check a handful of fixed sequences (T perm twice, six sexy moves) that return to solved, so any error that cancels out, or that needs another face, amount or piece, is invisible; the state space has 4.3e19 states.",
  ["cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs", "cube_n/pieces/corner.rs", "cube_n/pieces/edge.rs", "cube_n/moves/rotation.rs"],
  [("Corner/Edge selection and rotation", "cube_n/pieces/corner.rs"), ("Edge rotation and flip rule", "cube_n/pieces/edge.rs"), ("rotation arithmetic", "cube_n/moves/rotation.rs")],
  ["Cube2/Cube3 piece sets (public fields)"])

p("C02", "Layer turns on the 4x4 to 7x7 do exactly what the physical cubes do",
  "For every sequence of plain and wide turns on a 4x4, 5x5, 6x6 or 7x7 cube, every sticker of every piece the physical puzzle has (corners, edges, wings, all kinds of centres) ends up exactly where it does on the physical puzzle: a turn of depth d carries along precisely the d+1 layers nearest its face, clockwise by its amount, and nothing else. In particular every movable physical piece is represented, and a turn that does not reach a piece's layer leaves it alone.",
  ["histories", "inputs"], "all finite sequences of turns (face x amount x depth) for the four sizes",
  "The tests only check that self-cancelling sequences return to solved; a turn that drags along a wrong layer consistently, or a missing kind of piece, still cancels out.",
  ["cube_n/cube4/mod.rs", "cube_n/cube5/mod.rs", "cube_n/cube6/mod.rs", "cube_n/cube7/mod.rs", "cube_n/moves/wide.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs"],
  [("which pieces a wide turn selects", "cube_n/moves/wide.rs"), ("wing location arithmetic", "cube_n/pieces/wing.rs"), ("centre pieces", "cube_n/pieces/center/wing.rs")],
  ["piece sets of Cube4..Cube7"], HOOK_CUBES)

p("C03", "Undoing works: reversal restores the exact state, for every kind of move",
  "For every cube size and every kind of move (face, wide, quarter, combined same-axis, and extended moves with rotations and slices), applying any sequence and then its reversal restores exactly the state before it, and reversing twice gives back the same sequence. A double turn equals two single turns, an inverse turn equals three, and four repetitions of any turn change nothing.",
  ["histories", "inputs"], "all sequences of every move type on every cube size, from every state",
  "One random 30-move sequence on the 3x3 and one fixed on the 4x4 are sampled; extended moves are never applied by any test.",
  ["generic/alg.rs", "generic/moves.rs", "cube_n/moves/mod.rs", "cube_n/moves/amount.rs", "cube_n/moves/extended.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/quarter.rs", "cube_n/moves/wide.rs"],
  [("sequence reversal", "generic/alg.rs"), ("inverse per move type", "cube_n/moves/amount.rs")])

p("C04", "A cube reports solved exactly when every face shows its own colour",
  "For every cube size 2x2 to 7x7 and every arrangement reachable by turning, the cube reports being solved if and only if every sticker on every face shows that face's home colour; which of several same-coloured centre pieces sits where must not matter, and a single displaced sticker of any piece kind must be noticed. A held (orientable) cube answers the same as long as it is held as at the start.",
  ["histories", "inputs"], "all reachable arrangements of each cube size",
  "Tests only ask about the solved cube, cubes after self-cancelling sequences, and one badly scrambled one; an arrangement in which only a few pieces of one kind are displaced is never examined.",
  ["generic/mod.rs", "generic/piece/set.rs", "cube_n/orientable/mod.rs", "cube_n/cube4/mod.rs", "cube_n/cube5/mod.rs", "cube_n/cube6/mod.rs", "cube_n/cube7/mod.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/corner.rs"],
  [("per-piece solved test", "cube_n/pieces/center/corner.rs"), ("set-level solved test", "generic/piece/set.rs")],
  ["Cube::is_solved"], HOOK_CUBES)

p("C05", "Every randomly generated cube is a legal, solvable cube",
  "Whatever the random source produces, a randomly generated 2x2 or 3x3 cube is a state that can be reached from the solved cube by legal turns: every piece appears once at a distinct position, the permutation parities of corners and edges agree, the number of flipped edges is even and the total corner twist is a multiple of three. The published repair helpers turn any complete assembly of pieces into such a cube and leave an already legal cube unchanged.",
  ["inputs", "configurations"], "all outputs of the random source; all assemblies of the 8 corners and 12 edges",
  "The tests draw a few random cubes and check only that nothing panics; an unsolvable cube would pass.",
  ["cube_n/invariants.rs", "cube_n/cube3/mod.rs", "cube_n/cube2/mod.rs", "generic/piece/set.rs"],
  [("parity, flip and twist repair", "cube_n/invariants.rs"), ("random sampling", "cube_n/cube3/mod.rs")])

p("C06", "Search returns a real and shortest solution, and finds one whenever it exists",
  "For every start state, goal and successor relation, whatever solution the iterative-deepening search returns is a chain of actual successor moves leading from the start to the returned end state, and that end state satisfies the goal. With a heuristic that never overestimates, the solution is as short as possible, and the search gives up only if no solution exists within its depth limit; solving a 3x3 therefore always yields a sequence that really solves it.",
  ["inputs", "programs"], "all finite successor graphs, goals and heuristics; all 3x3 states",
  "The optimality tests are ignored by default because they need the big cache; the rest run the search on ten single-edge goals and one cross.",
  ["generic/search/ida.rs", "generic/search/mod.rs", "cube_n/search.rs", "cube_n/cube3/mod.rs"],
  [("bound management, cycle check, path unwinding", "generic/search/ida.rs"), ("successor generation", "cube_n/cube3/mod.rs")])

p("C07", "The cross solver solves the cross, and the optimal one in the fewest turns",
  "For every 3x3 state and every bottom face, both cross solvers return a turn sequence whose application to the input gives exactly the returned cube, in which all four edges of that face are home and oriented; the optimal solver's sequence is never longer than necessary and the reported number of solved cross edges is always the true number.",
  ["inputs"], "all 190,080 arrangements of the four cross edges, for each of the 6 faces",
  "One cross, of one scramble, for one face, with the fast solver only, is solved by the tests; the loop meant to exercise the optimal solver never reaches it.",
  ["cube_n/cube3/cfop/cross.rs", "cube_n/pieces/edge.rs", "generic/search/ida.rs"],
  [("cross goal and heuristics", "cube_n/cube3/cfop/cross.rs")])

p("C08", "Distance estimates are exact or never overestimate, as they promise",
  "For every position, flip and home of an edge, the estimate of the turns needed to solve that edge alone equals the true minimum. The admissible cross estimate never exceeds the true number of turns to solve the cross of the given face, the two cross estimates are zero exactly when the cross is solved, and the set of cross edges of a face is exactly its four edges. The distances along the axes of single pieces, of any selection of a set and of the whole cube are those of the geometry.",
  ["inputs"], "all 12 x 24 edge situations; all 190,080 cross arrangements x 6 faces",
  "Ten random cubes and one single edge slot are compared by the tests; an overestimate anywhere else silently makes solutions non-optimal.",
  ["cube_n/pieces/edge.rs", "cube_n/cube3/cfop/cross.rs", "cube_n/cube3/heuristics/manhattan.rs", "cube_n/cube3/heuristics/mod.rs"],
  [("case table for a single edge", "cube_n/pieces/edge.rs"), ("cross estimates", "cube_n/cube3/cfop/cross.rs")])

p("C09", "Pattern numbering is a bijection: every pattern has its own number and back",
  "Every corner pattern and every six-edge pattern of the 3x3 is numbered with a unique number below the advertised table size, every number below that size decodes to a valid pattern with exactly that number, the solved pattern has number zero, and any legal cube is rebuilt exactly from its three numbers. No legal cube ever yields a number outside the table. The numbering of arrangements and orientations of any other number and kind of pieces is gap-free and unique as well.",
  ["inputs"], "all 88,179,840 corner patterns and 42,577,920 half-edge patterns; all cubes",
  "The tests round-trip the solved cube, two single turns and one seeded random cube out of 130 million patterns; lookups with these numbers are unchecked memory reads.",
  ["cube_n/cube3/mus/index/mod.rs", "cube_n/cube3/mus/index/implementations.rs", "cube_n/cube3/mus/deindex/mod.rs", "cube_n/cube3/mus/deindex/implementations.rs", "cube_n/pieces/corner.rs"],
  [("ranking", "cube_n/cube3/mus/index/mod.rs"), ("unranking", "cube_n/cube3/mus/deindex/mod.rs")])

p("C10", "The moves-until-solved table holds exact distances and never overestimates",
  "Every entry of the generated pattern table is the exact minimum number of turns that brings that pattern to solved, and the estimate for a cube is the maximum over its corner pattern and its two edge patterns, so it never exceeds the number of turns needed to solve the cube. Solving with this estimate therefore gives shortest solutions, and before the table is loaded the fallback estimate is used unchanged.",
  ["inputs", "histories"], "all patterns of the tables; all cubes",
  "All three tests that touch the table are ignored ('takes too long'); the table generation is compiled but never run by the suite.",
  ["cube_n/cube3/mus/cache/generation.rs", "cube_n/cube3/mus/cache/mod.rs", "cube_n/cube3/heuristics/mus.rs", "cube_n/cube3/mus/index/mod.rs"],
  [("layer-by-layer table fill", "cube_n/cube3/mus/cache/generation.rs"), ("lookup and maximum", "cube_n/cube3/mus/cache/mod.rs")],
  None, "the table build/load functions, which are private, made callable for smaller pattern kinds (cfg verif_hooks)")

p("C11", "A table that was not completely written is never used for answers",
  "Wherever table generation is interrupted (crash, kill, full disk, failing or short write, missing directory), every later start either loads complete and exact tables, or rebuilds what is missing, or stops with an explicit error: it never answers from a missing, truncated or oversized table. Once a start has succeeded, the stored tables are complete and the next start gives the same answers without recomputing; loading only never creates or changes files.",
  ["crash_points", "fault_sequences"], "every file-system call of a build and every amount of data written before the interruption",
  "No test touches the files at all.",
  ["cube_n/cube3/mus/cache/disk_storage.rs", "cube_n/cube3/mus/cache/generation.rs", "cube_n/cube3/mus/cache/mod.rs"],
  [("size check, directory creation, load-or-build", "cube_n/cube3/mus/cache/disk_storage.rs")],
  None, "the table build/load functions, which are private, made callable for smaller pattern kinds (cfg verif_hooks)")

p("C12", "Move notation is accepted exactly as defined, and never crashes the parser",
  "For every text, parsing a face turn, wide turn, rotation, extended move or a whitespace-separated sequence either yields the one move the notation denotes or an error; it never panics, never ignores leftover characters, and a sequence with one bad move is rejected as a whole. Exactly the notation's strings are accepted: face letter with optional 2 or ', wide turns with w or a lower-case letter and an optional one-digit depth, x/y/z rotations and M/E/S/m/e/s slices, and wide turns deeper than the type allows are refused.",
  ["inputs"], "all strings",
  "About forty hand-picked strings are tried.",
  ["cube_n/parser/mod.rs", "generic/parse.rs", "generic/alg.rs", "grammar/cube_n.pest"],
  [("grammar", "grammar/cube_n.pest"), ("tree to move conversion", "cube_n/parser/mod.rs"), ("whole-input check", "generic/parse.rs")])

p("C13", "Printing a move or sequence and parsing it back gives the same move",
  "For every face turn, every wide turn and every sequence of them, the printed text parses back to exactly that value, and different values print differently; combined same-axis moves print as a sequence of the same effect.",
  ["inputs"], "all moves and all sequences",
  "One printed wide move is compared with a literal; no round trip is tested.",
  ["cube_n/moves/mod.rs", "cube_n/moves/wide.rs", "cube_n/moves/amount.rs", "cube_n/space/face.rs", "cube_n/parser/mod.rs", "generic/alg.rs", "cube_n/moves/non_redundant.rs"],
  [("Display implementations", "cube_n/moves/wide.rs"), ("parser", "cube_n/parser/mod.rs")])

p("C14", "Normalising a sequence keeps its effect and removes all simple redundancy",
  "For every sequence of face turns, the normalised sequence has the same effect on every cube, is never longer, and contains no simple redundancy: in any run of consecutive turns on the same axis each face appears at most once. Normalising a second time changes nothing, and absorbing a turn into a combined same-axis move has exactly the effect of doing both and reports truthfully what happened.",
  ["inputs"], "all sequences of face turns",
  "One example sequence in a doc test.",
  ["cube_n/moves/non_redundant.rs", "cube_n/moves/amount.rs"],
  [("absorb / collapse state machine", "cube_n/moves/non_redundant.rs")])

p("C15", "Random sequences have the asked length and no redundancy",
  "Whatever the random source produces and for every length, a generated scramble has exactly the requested number of turns and no two turns of the same face in any run of same-axis turns; unnormalised random sequences have exactly the requested length and random wide turns never exceed their depth limit. The lists of non-redundant moves offered per axis and after a given axis are complete and without duplicates.",
  ["inputs", "configurations"], "all outputs of the random source; all lengths",
  "Random scrambles are only used as inputs of other tests; their own form is never checked.",
  ["cube_n/moves/non_redundant.rs", "generic/alg.rs", "cube_n/moves/wide.rs"],
  [("choice given last axis", "cube_n/moves/non_redundant.rs")])

p("C16", "Converting between kinds of moves never changes their effect",
  "For every move or sequence and every cube state, converting it to another kind of move (quarter turns, combined same-axis moves, wide turns of any allowed depth bound, or back) and applying the result has exactly the effect of applying the original; a wide turn of depth zero is the plain turn on every cube size, and a sequence has the effect of its moves in order. No operation ever yields a wide turn deeper than its declared maximum: what would exceed it is refused and leaves the value unchanged.",
  ["inputs", "histories"], "all moves and sequences of all move kinds, all cube sizes",
  "One ten-move sequence is converted; width conversions are only checked not to panic.",
  ["cube_n/moves/quarter.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/wide.rs", "cube_n/moves/mod.rs", "generic/alg.rs"],
  [("conversions", "cube_n/moves/quarter.rs"), ("depth bound", "cube_n/moves/wide.rs")])

p("C17", "An oriented cube behaves like a cube held in the hand",
  "For every sequence of face turns, wide turns of any depth, whole-cube rotations and slice turns on an orientable cube of size 2 to 7, what the holder sees is exactly what is seen on the physical cube: rotations carry the whole cube, later turns act on the faces as currently held, a wide turn carries all its layers (all layers or more being the pure rotation), and a slice turn carries only inner layers (M like L, E like D, S like F; capital: all inner layers, lower case: only the middle one). The reported positions of the original right and upper faces are the true ones, and no move ever panics.",
  ["histories", "inputs"], "all sequences of extended moves on the orientable cubes of size 2..7",
  "No test applies an extended move; turns on a held cube are tested for two orientations, both of which are their own inverse.",
  ["cube_n/orientable/mod.rs", "cube_n/orientable/orientation.rs", "cube_n/moves/extended.rs", "cube_n/moves/rotation.rs"],
  [("orientation tracking", "cube_n/orientable/orientation.rs"), ("turns relative to the holder", "cube_n/orientable/mod.rs"), ("wide and slice decomposition", "cube_n/moves/extended.rs")],
  ["Orientable base cube and orientation (public fields)"], HOOK_CUBES)

p("C18", "Rotating faces, axes, positions, pieces and moves is the geometric rotation",
  "For every whole-cube rotation and everything that can be rotated (directions, axes, positions, every kind of piece, turns, sequences), the result is exactly the geometric rotation of it, so rotations compose, four equal quarter rotations cancel, and turning a rotated face equals rotating, turning and rotating back. The face relations (opposite, next/previous around an axis, perpendicular by the right-hand rule, handedness of axes, membership of positions and edges in a face) agree with geometry, and so does everything a piece says about itself: its faces, its side, its coordinates, its flip or twist, and whether it is at home; a piece made from faces shows these faces.",
  ["inputs"], "all 6 faces, 3 axes, 9 rotations, all piece values, all short sequences",
  "A few faces and edges are rotated around one or two axes by the tests.",
  ["cube_n/space/face.rs", "cube_n/space/axis.rs", "cube_n/space/direction.rs", "cube_n/moves/rotation.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/corner.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs"],
  [("rotation arithmetic", "cube_n/moves/rotation.rs"), ("face relations", "cube_n/space/face.rs"), ("axis relations", "cube_n/space/axis.rs")],
  None, HOOK_CUBES)

p("C19", "The drawn cube shows the true colour of every sticker",
  "For every 3x3 state, the unfolded picture and the printed cube show on each of the 54 squares exactly the colour the physical cube shows there, in the documented layout (U on top, L F R in a row, D, then B unfolded below D), using the colour scheme's colour for that face.",
  ["inputs", "histories"], "all piece x position x orientation combinations, all reachable 3x3 states",
  "The two display tests only print; nothing is compared.",
  ["cube_n/visualization/mod.rs", "cube_n/visualization/unfolded/mod.rs"],
  [("sticker colours per piece", "cube_n/visualization/mod.rs"), ("unfolding", "cube_n/visualization/unfolded/mod.rs")])

p("C20", "Recovering moves from states finds the move exactly when there is one",
  "For any two states of a cube, the connecting-move lookup returns a turn that leads from the first to the second, and returns none only if no single turn does; a list of states converts to a sequence exactly when every two neighbours are connected by one turn, the sequence replayed from the first state visits exactly those states, and otherwise the error names a pair of neighbours that is not connected. The successors of a 3x3 are exactly the 18 different results of its 18 turns, each paired with its turn.",
  ["inputs", "histories"], "all pairs and lists of states",
  "One doc test connects one pair by one move.",
  ["generic/moves.rs", "generic/alg.rs", "cube_n/moves/mod.rs", "cube_n/cube3/mod.rs"],
  [("search over all moves", "generic/moves.rs"), ("states to sequence", "generic/alg.rs"), ("list of all turns", "cube_n/moves/mod.rs")])

p("C21", "Piece sets accept exactly duplicate-free sets and look pieces up truly",
  "Building a set of pieces succeeds exactly if no two pieces share a position, and the error names a position that really is duplicated. In every valid set the lookups by original position, by current position and by index agree with each other and with iteration, swapping two pieces exchanges exactly those two, and every turn or shuffle keeps the set free of duplicates.",
  ["inputs", "histories"], "all arrays of pieces; all reachable arrangements",
  "Lookups are used incidentally by a few tests on the 4x4; construction of invalid sets is never tried.",
  ["generic/piece/set.rs", "generic/piece/mod.rs"],
  [("validation and lookups", "generic/piece/set.rs")])

p("C22", "The interactive playground survives any input and shows the true cube",
  "For every sequence of input lines, the interactive 3x3 session either applies the whole line's moves and shows the cube exactly as the holder-independent solved-frame picture after those moves, or reports an error and leaves the cube unchanged; no line makes it crash, and the end of the input ends the session normally.",
  ["inputs", "histories"], "all input line sequences",
  "The binary has no tests at all.",
  ["main.rs", "cube_n/parser/mod.rs", "cube_n/moves/extended.rs", "cube_n/orientable/mod.rs"],
  [("read-parse-apply-print loop", "main.rs")])

p("C23", "Cubes compare equal exactly when they are in the same state",
  "For any two cubes of one size, however they came about, == holds exactly when every piece is in the same place with the same orientation (and, for held cubes, the cube is held the same way), != is its opposite, and cubes that are equal hash equally.",
  ["histories", "inputs"], "all pairs of states of the cubes of size 2 to 7 and of the held cubes, with all histories leading to them",
  "Tests compare a cube with itself after undoing, or with the solved cube; two different states that compare equal, or one state reached in two ways that does not, would make recovered moves, searches and all tests lie.",
  ["cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs", "cube_n/cube4/mod.rs", "cube_n/cube5/mod.rs", "cube_n/cube6/mod.rs", "cube_n/cube7/mod.rs", "cube_n/orientable/mod.rs", "cube_n/orientable/orientation.rs", "generic/piece/set.rs", "cube_n/pieces/corner.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/wing.rs"],
  [("equality and hash of sets and pieces", "generic/piece/set.rs"), ("orientation of held cubes", "cube_n/orientable/orientation.rs")])

p("C24", "Programs starting at the same time never use an unfinished table",
  "Whatever the order in which the file accesses of several programs or threads interleave that load or generate the same table at the same time, and even if the system splits their reads and writes or one of them is killed, each of them answers from the complete exact table or stops with an explicit error, and so does every later start. If none of them is interrupted and the stored table was missing or complete, every start succeeds and leaves a complete table behind.",
  ["schedules", "crash_points"], "all interleavings of the file calls of concurrent starts and loads, with split reads and writes and kills",
  "No test touches the files; concurrent starts need a particular order of file accesses within milliseconds.",
  ["cube_n/cube3/mus/cache/disk_storage.rs", "cube_n/cube3/mus/cache/generation.rs", "cube_n/cube3/mus/cache/mod.rs"],
  [("writing the table", "cube_n/cube3/mus/cache/disk_storage.rs"), ("load or build", "cube_n/cube3/mus/cache/disk_storage.rs")],
  None, "the table build/load functions, which are private, made callable for smaller pattern kinds (cfg verif_hooks)")

p("C25", "Random cubes and random sequences leave nothing out",
  "Everything legal can come up at random. In a random 2x2 or 3x3 every two pieces come up in every combination of places and orientations that is legal, the corners in all 40,320 arrangements and with all 2,187 twists, the edges with all 2,048 flips. Every sequence of turns without redundancy can come up as a scramble, up to the order of neighbouring turns on one axis, and at every place of a random sequence every turn of its kind (with every depth up to the limit for wide turns) can follow every other that allows it, and any two places further apart take any two turns. Calls that bring their own random source do not repeat each other.",
  ["inputs", "configurations"], "all outcomes of random cubes, scrambles and unnormalised sequences of every kind of move, over the outputs of the random source",
  "The tests draw a few random cubes and look at none of them; a generator confined to a part of the cubes passes.",
  ["cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs", "cube_n/invariants.rs", "generic/piece/set.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/wide.rs", "generic/alg.rs", "cube_n/moves/amount.rs", "cube_n/space/axis.rs"],
  [("random cubes", "cube_n/cube3/mod.rs"), ("random scrambles", "cube_n/moves/non_redundant.rs"), ("random wide turns", "cube_n/moves/wide.rs")])

p("C26", "What an operation answers depends on its arguments alone",
  "Nothing remembers: whatever a program did before, with whatever arguments, successes or failures, and whatever other threads do at the same time, parsing, turning, comparing, connecting, normalising, reversing, converting, drawing, numbering, repairing, estimating, searching and solving give for the same arguments (and the same random source) the very answer they give in a program that does nothing else. Arguments that are only lent out are as they were afterwards, and a copy stays what it was when the original is turned.",
  ["histories", "schedules"], "all histories of operations with similar arguments, in one thread and in several at once; repetitions and floods of different arguments",
  "Each test calls one operation a few times with the same arguments; an answer taken from a memory with an incomplete key, a buffer left over after an error, or a memory that fills up, passes.",
  ["generic/alg.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/parse.rs", "generic/piece/set.rs", "generic/search/ida.rs", "cube_n/cube3/cfop/cross.rs", "cube_n/invariants.rs"],
  [("operations without memory", "generic/alg.rs"), ("searches", "generic/search/ida.rs")])

p("C27", "The named sequences move exactly the pieces they are named for",
  "The named last-layer sequences do on every cube what their documentation says, from any state and in any order, and touch nothing else: T exchanges the two corners on the right and the left with the right edge, U (Ua) takes the right edge to the back, the back one to the left and the left one to the right, J exchanges the two corners on the right and the right with the front edge, each keeping the upper stickers on top; the remaining one is R U R' U'. Repeated 2, 3, 2 and 6 times they do nothing, on every size.",
  ["inputs", "histories"], "all words of named sequences, on all sizes",
  "The tests only check that two T perms and six R U R' U' cancel, which many other sequences do too.",
  ["cube_n/moves/perms.rs"],
  [("named sequences", "cube_n/moves/perms.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
