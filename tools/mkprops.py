#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit the table here, then run it."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- search
p("S01", "A* returns a cheapest solution, and one whenever one exists",
  "On any finite state space with positive edge costs and a heuristic that never overestimates, A* reports a solution exactly when the goal can be reached, and the reported path has minimum total cost. This holds with integer costs (bucketed open list) and real-valued costs (heap), for consistent and inconsistent heuristics, and with operators that declare their inverse.",
  ["inputs", "programs"], "every labelled graph, cost assignment and admissible heuristic within the stated sizes, and larger fixed graph shapes with all costs and heuristic values symbolic",
  "No test runs any search algorithm; only the closed list of the search library has tests.",
  ["search/astar.hpp", "search/search.hpp", "search/closedlist.hpp", "structs/binheap.hpp", "utils/pool.hpp"],
  [("re-opening of duplicates with a cheaper g", "search/astar.hpp"), ("f ordering with g tie-break", "search/search.hpp"), ("parent/inverse-operator pruning", "search/astar.hpp")],
  [("open list", "frontier ordered on f, then larger g", "search/search.hpp"), ("closed list", "every generated state", "search/closedlist.hpp")],
  ["Result::path", "Result::ops"])
p("S02", "IDA* returns a cheapest solution",
  "On any finite state space whose goal is reachable, with positive integer edge costs and a heuristic that never overestimates, iterative deepening A* terminates with a minimum-cost solution.",
  ["inputs", "programs"], "all small graphs, costs and admissible heuristics within the bounds",
  "No test runs IDA*.", ["search/idastar.hpp"],
  [("bound update to the smallest exceeded f", "search/idastar.hpp"), ("undoing of edges on backtracking", "search/idastar.hpp")], observe=["Result::path"])
p("S03", "Weighted A* stays within its weight of the optimum",
  "With a weight w>=1 and a heuristic that never overestimates, weighted A* finds a solution exactly when one exists and its cost is at most w times the optimum; with duplicate dropping the search still finds a valid solution exactly when one exists, and expands no state twice.",
  ["inputs", "programs", "configurations"], "all small graphs, costs, heuristics, weights and duplicate policies within the bounds",
  "No test runs weighted A*.", ["search/wastar.hpp", "search/search.hpp", "structs/binheap.hpp"],
  [("f' = g + w*h ordering", "search/wastar.hpp"), ("duplicate re-opening/dropping", "search/wastar.hpp")], observe=["Result::path"])
p("S04", "Greedy and speedy search find a solution whenever one exists",
  "Greedy best-first search, on cost-to-go or on distance-to-go estimates, terminates on every finite state space, reports a valid solution exactly when the goal is reachable; with duplicate dropping it expands each state at most once.",
  ["inputs", "programs"], "all small graphs and heuristic values within the bounds",
  "No test runs greedy search.", ["search/greedy.hpp", "structs/intpq.hpp", "search/search.hpp"],
  [("duplicate detection", "search/greedy.hpp"), ("h-ordered open list", "search/greedy.hpp")], observe=["Result::path", "Result::expd"])
p("S05", "Every reported solution is an executable path",
  "Whenever any of the search algorithms reports a solution, replaying its operators from the start state visits exactly the reported states in order, starts at the start state and ends in a goal; a search that finds nothing reports an empty path and no operators.",
  ["inputs", "programs", "configurations"], "all small graphs, costs, heuristics and algorithm parameters within the bounds, for best-first, iterative-deepening, anytime, beam, utility-guided and real-time algorithms",
  "No test runs any search algorithm.", ["search/search.hpp", "search/beam.hpp", "search/bugsy.hpp", "search/bugsy-slim.hpp", "search/lsslrtastar.hpp", "search/rtastar.hpp", "search/arastar.hpp", "search/wastar.hpp", "search/greedy.hpp", "search/astar.hpp", "search/idastar.hpp", "search/fhatlrtastar.hpp"],
  [("parent pointers walked from the goal", "search/search.hpp"), ("path rebuilt by re-applying operators", "search/lsslrtastar.hpp")], observe=["Result::path", "Result::ops"])
p("S06", "Anytime repairing A* improves monotonically to the optimum",
  "On a finite state space with a consistent heuristic, ARA* emits successive solutions of non-increasing cost, each within its then-current weight of the optimum; when its weight schedule ends at 1 the final solution is a cheapest one, and it finds a solution exactly when one exists; the variants that stop early by a stopping rule never stop without a solution when there is one, and what they report obeys the same bounds.",
  ["inputs", "programs", "configurations"], "all small graphs, costs and consistent heuristics, and weight schedules within the bounds",
  "No test runs ARA*.", ["search/arastar.hpp"],
  [("inconsistent list moved to open between iterations", "search/arastar.hpp"), ("weight decrement", "search/arastar.hpp")], observe=["Result::path", "output rows"])
p("S07", "Beam search is sound and safe for every beam width",
  "For every beam width, beam search terminates on every finite state space without crashing, reports only real solutions, and with a beam at least as wide as the state space it reports a solution exactly when one exists.",
  ["inputs", "programs", "configurations"], "all small graphs, costs, heuristics and widths within the bounds",
  "No test runs beam search.", ["search/beam.hpp", "search/search.hpp", "structs/binheap.hpp"],
  [("beam truncation and re-generation of discarded states", "search/beam.hpp")], observe=["Result::path"])
p("S08", "Utility-guided search is sound and complete",
  "The utility-guided search algorithms, for every setting of the cost and time weights, terminate on every finite state space and report a valid solution exactly when the goal is reachable; with zero time weight, no duplicate dropping and an admissible consistent heuristic the solution is a cheapest one.",
  ["inputs", "programs", "configurations"], "all small graphs, costs, heuristics and utility weights within the bounds",
  "No test runs these algorithms.", ["search/bugsy.hpp", "search/bugsy-slim.hpp"],
  [("utility ordering and periodic resorting", "search/bugsy.hpp")], observe=["Result::path"])
p("S09", "Real-time searches reach a goal by legal moves",
  "On every finite state space in which the goal is reachable from every reachable state, the real-time searches terminate at a goal for every lookahead size and every estimate that is zero at goals, and the executed moves form a legal path from the start.",
  ["inputs", "programs", "configurations"], "all small strongly connected graphs, costs, heuristics and lookaheads within the bounds",
  "No test runs a real-time search.", ["search/lsslrtastar.hpp", "search/rtastar.hpp", "search/fhatlrtastar.hpp"],
  [("heuristic learning in the local search space", "search/lsslrtastar.hpp"), ("move commitment", "search/lsslrtastar.hpp")], observe=["Result::path"])
p("S10", "Search limits are honoured",
  "When a limit on expansions or generations is given, a search never expands more states than the expansion limit, stops at the first check after either limit is reached, and never reports a bogus solution; when neither limit is reached the result equals that of the unlimited search.",
  ["inputs", "programs", "configurations"], "all small graphs and all limit values within the bounds",
  "No test runs a search with limits.", ["search/search.hpp", "search/search.cc", "search/astar.hpp", "search/greedy.hpp", "search/wastar.hpp", "search/idastar.hpp"],
  [("limit test in the main loop", "search/search.hpp")], observe=["Result::expd", "Result::gend"])
p("S11", "A search object can be reset and reused",
  "After a reset, running a search again — on the same or on another start state — gives the same path, operators and counters as a freshly constructed search.",
  ["histories", "inputs"], "all pairs of small problems within the bounds, for every algorithm that supports reset",
  "No test resets a search.", ["search/astar.hpp", "search/greedy.hpp", "search/wastar.hpp", "search/idastar.hpp", "search/beam.hpp", "search/rtastar.hpp", "search/lsslrtastar.hpp", "search/bugsy.hpp", "search/bugsy-slim.hpp", "search/arastar.hpp"],
  [("reset of open, closed, node pool and result", "search/astar.hpp")], observe=["Result"])

# ---------------------------------------------------------------- structs
p("T01", "The binary heap is a correct updatable priority queue",
  "After any sequence of pushes, pops, priority changes, appends and clears, the binary heap pops a least element of exactly its current contents, reports its size and membership correctly, and every stored element's recorded index locates it.",
  ["histories", "inputs"], "all operation sequences and priorities within the bounds",
  "Tests push and pop one random list; no updates, removals or appends.", ["structs/binheap.hpp"],
  [("sift-up/sift-down with index callbacks", "structs/binheap.hpp")], observe=["pop", "front", "update", "pushupdate"])
p("T02", "Bucketed priority queues order exactly",
  "After any sequence of pushes, pops, priority updates and clears, the integer-bucketed queues pop an element of least priority (and, for the two-level open list, of greatest tie-break value among those), each exactly once, and report emptiness and membership correctly.",
  ["histories", "inputs"], "all operation sequences and priorities within the bounds",
  "Tests push and pop one random list on the single-level queue only; the two-level open list has none.", ["structs/intpq.hpp", "search/search.hpp"],
  [("lowest/highest non-empty bucket tracking", "search/search.hpp")], observe=["push", "pop", "pre_update", "post_update"])
p("T03", "The closed list is an exact map under any history",
  "After any sequence of additions, removals, lookups, clears and automatic or explicit growth, for every positive initial size, looking up a state in the closed list returns exactly the entry added and not since removed, and iteration visits each entry once.",
  ["histories", "inputs"], "all operation sequences over symbolic keys and hash values within the bounds",
  "Tests add random keys with good hashes; collisions within and across growth and removal in chains are sampled only.", ["search/closedlist.hpp"],
  [("chained buckets, re-linking on growth", "search/closedlist.hpp")], observe=["find", "remove", "iterator"])
p("T04", "The intrusive hash table is an exact map under any history",
  "For every positive initial size and after any sequence of additions, removals, lookups and growth, the hash table finds exactly the elements added and not since removed, and removal reports whether the element was present.",
  ["histories", "inputs"], "all operation sequences over symbolic keys and hash values within the bounds",
  "Tests add random keys and remove them with few collisions.", ["structs/htable.hpp"],
  [("chained buckets", "structs/htable.hpp")], observe=["find", "add", "rm"])
p("T05", "Disjoint sets partition exactly",
  "After any sequence of joins, two elements have the same representative exactly when they are connected by the joins performed.",
  ["histories"], "all join sequences within the bounds", "There are no tests of disjoint sets.", ["structs/djset.hpp"],
  [("path compression, union by rank", "structs/djset.hpp")], observe=["find", "join"])
p("T06", "Simple temporal networks are decided and propagated exactly",
  "Adding constraints to a simple temporal network succeeds exactly when the resulting constraint set is consistent; the bounds of every node are then the tightest implied ones (none where none is implied), and a failed or undone addition leaves the network exactly as it was before; growing the network keeps all of this.",
  ["histories", "inputs"], "all sequences of constraint additions, failures and undos within the bounds",
  "Tests add one constraint at a time to a few random networks.", ["structs/stn.hpp", "structs/stn.cc"],
  [("incremental bound propagation with undo log", "structs/stn.cc")], observe=["Stn::add", "Stn::undo", "lower/upper bounds"])
p("T07", "The k-d tree returns true nearest neighbours",
  "After any sequence of insertions, a k-d tree contains exactly the inserted points, and a nearest-neighbour query returns a point at minimum Euclidean distance from the query.",
  ["histories", "inputs"], "all insertion sequences and query points on a small grid within the bounds",
  "Tests use random points only.", ["structs/kdtree.hpp"],
  [("descent to the near side first, pruning of the far side", "structs/kdtree.hpp")], observe=["insert", "nearest", "iterator"])
p("T08", "The object pool hands out disjoint live objects",
  "Under any sequence of constructions and destructions, live pool objects never overlap, keep their contents, are suitably aligned, and are constructed and destroyed exactly once each by the calls that ask for it.",
  ["histories"], "all construct/destruct sequences within the bounds, across block boundaries", "There are no tests of the pool.", ["utils/pool.hpp"],
  [("free list over blocks", "utils/pool.hpp")], observe=["construct", "destruct"])

# ---------------------------------------------------------------- utils
p("U01", "Checked integer arithmetic is exact or reports the overflow",
  "Each overflow-checked addition, subtraction, multiplication and division returns the mathematically exact result when it is representable and otherwise throws the matching overflow/underflow error, for signed and unsigned types; it never traps or wraps silently.",
  ["inputs"], "every pair of operands of the 8- and 16-bit types; every pair of 32- and 64-bit operands for addition and subtraction; multiplication and division of those against every factor within the stated bounds", "There are no tests of the checked arithmetic.", ["utils/safeops.hpp"],
  [("range tests before the operation", "utils/safeops.hpp")], observe=["safe::add", "safe::sub", "safe::mul", "safe::div"])
p("U02", "Permutation ranking is a bijection",
  "Ranking assigns each arrangement of the chosen tiles a distinct number from 0 to the number of arrangements minus one, in lexicographic order.",
  ["inputs"], "every arrangement for the stated sizes", "There are no tests of ranking.", ["utils/rank.cc", "utils/utils.hpp"],
  [("counting tree", "utils/rank.cc")], observe=["rank"])
p("U03", "Text encodings round-trip and match the standard",
  "For every byte string, base-64 encoding produces the standard encoding and decoding restores the bytes; run-length encoding is undone by its decoder, ASCII-85 encoding is the standard one (so nothing is lost), and sequences of controls 0 to 127 written to text read back unchanged.",
  ["inputs"], "every byte string up to the stated length", "Tests use a handful of fixed strings and no ASCII-85 or run-length decoding.", ["utils/encode.cc", "gridnav/gridnav.cc", "plat2d/plat2d.cc"],
  [("bit packing and padding", "utils/encode.cc")], observe=["base64enc", "base64dec", "runlenenc", "runlendec", "ascii85enc", "controlstr", "controlvec"])
p("U04", "Path and string helpers split and join consistently",
  "Directory, base name and extension of a path follow the documented rules, joining a non-empty directory and base name gives back an equivalent path, prefix tests are exact, and the word splitter yields exactly the whitespace-separated words, for every string.",
  ["inputs"], "every string up to the stated length over a small alphabet", "Tests use a few fixed paths.", ["utils/fs.cc", "utils/str.cc"],
  [("separator scanning", "utils/fs.cc")], observe=["dirname", "basename", "pathcat", "hasprefix"])
p("U05", "Data-file records read back as written",
  "Every key/value pair and every row written in data-file format is read back with the same key and value, for contents without quotes and line ends, whatever their length; nothing is silently truncated (a record too long for the format may be refused with an error).",
  ["inputs"], "every key and value length/content within the bounds, including lengths around the internal buffer size", "There are no tests of data files.", ["utils/datafile.cc"],
  [("growing format buffer", "utils/datafile.cc"), ("line tokenizer", "utils/datafile.cc")], observe=["dfpair", "dfrow", "dfread"])
p("U06", "Integer math helpers are exact",
  "Integer power, integer logarithm and falling factorial return the exact mathematical value whenever it is representable.",
  ["inputs"], "every argument whose result is representable, within the stated ranges", "There are no tests of these helpers.", ["utils/math.cc"],
  [("repeated multiplication", "utils/math.cc")], observe=["ipow", "ilog2", "fallfact"])
p("U07", "Pseudo-random generation stays in range and is reproducible",
  "For every seed, generated integers lie in the requested closed range whenever its width is below 2^63, and equal seeds generate equal sequences; hashing depends on the bytes only and not on their address.",
  ["inputs"], "every seed/state and every range; every byte string up to the stated length", "There are no tests of the generator or the hash.", ["utils/rand.cc", "utils/hash.c"],
  [("range reduction", "utils/rand.cc"), ("unaligned tail handling", "utils/hash.c")], observe=["Rand::integer", "Rand::bits", "hashbytes"])

# ---------------------------------------------------------------- domains
p("M01", "Sliding-tile moves are legal and exactly undone",
  "In every sliding-tile state, the operators offered are exactly the blank moves that stay on the board, applying one yields the neighbouring permutation, and undoing it restores the state exactly; the declared inverse operator is the one that moves back.",
  ["inputs", "histories"], "every permutation reached within the bounds on several board sizes and every move sequence within the bounds", "There are no tests of the tiles domain.", ["tiles/tiles.hpp", "tiles/mdist.hpp", "tiles/tiles.cc"],
  [("operator tables", "tiles/tiles.hpp"), ("edge constructor/destructor", "tiles/mdist.hpp")], observe=["Operators", "Edge"])
p("M02", "Tile heuristics are exact sums, admissible and consistent",
  "The Manhattan-distance estimate maintained move by move equals the one computed from scratch, is zero exactly at the goal, and never drops by more than the cost of a move.",
  ["inputs", "histories"], "every permutation and move within the bounds", "There are no tests of the tiles domain.", ["tiles/mdist.hpp", "tiles/tiles.hpp"],
  [("incremental distance tables", "tiles/mdist.hpp")], observe=["h", "isgoal"])
p("M03", "Packing states loses nothing and hashing agrees with equality",
  "In the sliding-tile and pancake domains, unpacking a packed state restores a state that behaves identically, packed states compare equal exactly for equal states, and equal packed states hash equally.",
  ["inputs"], "every state (and pair of states) of the stated sizes", "Neither domain has tests.", ["tiles/mdist.hpp", "tiles/packed.hpp", "pancake/pancake.hpp"],
  [("pack/unpack", "tiles/mdist.hpp")], observe=["pack", "unpack", "eq", "hash"])
p("M04", "Pattern-database tables are indexed one-to-one",
  "A pattern-database table, sparse or compact, gives every arrangement of its pattern tiles its own entry inside the table: entries start at zero, writing one arrangement's entry changes no other arrangement's, and the number of entries reported is the number of arrangements.",
  ["inputs"], "every arrangement, or pair of arrangements, for the stated boards and patterns", "There are no tests of pattern databases.", ["tiles/pdb.hpp", "tiles/pdb.cc", "utils/rank.cc"],
  [("entry index of an arrangement", "tiles/pdb.hpp")], observe=["CompactPdb", "SparsePdb"])
p("M05", "Pancake flips and the gap heuristic are exact",
  "Every pancake operator reverses exactly its prefix and is undone exactly; the gap estimate maintained flip by flip equals the one computed from scratch, is zero exactly at the sorted stack, never overestimates and never drops by more than the flip's cost.",
  ["inputs", "histories"], "every permutation within the bounds", "There are no tests of the pancake domain.", ["pancake/pancake.hpp"],
  [("prefix flip", "pancake/pancake.hpp"), ("incremental gap count", "pancake/pancake.hpp")], observe=["Edge", "h", "isgoal"])
p("M06", "Grid moves are legal, reversible and priced as documented",
  "On every grid map a move is offered exactly when its destination (and, for diagonal octile moves, both cells it cuts) can be entered: it is inside the map and neither blocked nor a tree, and water is entered from water only and left for water only. A move has the documented cost for each cost model (1, or sqrt 2 on a diagonal, times the life-cost factor of the row it leaves), and the declared inverse move is offered at its destination and leads back at the declared reverse cost.",
  ["inputs", "configurations"], "every map within the stated size, cell and movement/cost model", "There are no tests of grid navigation.", ["gridnav/gridmap.hpp", "gridnav/gridmap.cc", "gridnav/gridnav.hpp"],
  [("move table with required-free cells", "gridnav/gridmap.cc")], observe=["Operators", "Edge"])
p("M07", "Grid heuristics never overestimate",
  "For every movement and cost model, the grid heuristic is zero at the goal, non-negative everywhere and never exceeds the cost of a move plus the heuristic of the state it leads to, so it never exceeds the cheapest cost to the goal; with unit costs the distance estimate likewise never exceeds the fewest moves.",
  ["inputs", "configurations"], "every map size within the bounds, every start, goal and move, all movement/cost models", "There are no tests of grid navigation.", ["gridnav/gridnav.hpp"],
  [("closed-form heuristics for unit/life costs, 4/8 connected", "gridnav/gridnav.hpp")], observe=["h", "d"])
p("M08", "Map and instance readers accept exactly well-formed input",
  "Reading a sliding-tile, pancake, grid-map (all three formats), vacuum or traffic instance either reproduces the described map or instance exactly or stops with an error; no input makes a reader access memory out of bounds or accept a description of the wrong size.",
  ["inputs"], "every file content within the stated length/shape", "There are no tests of any reader.", ["tiles/tiles.cc", "gridnav/gridmap.cc", "vacuum/vacuum.hpp", "traffic/traffic.cc"],
  [("header and cell parsing", "gridnav/gridmap.cc")], observe=["constructors reading FILE*"])
p("M09", "Vacuum world moves, cleaning and heuristics are exact",
  "In the vacuum world, moves stay on free cells, vacuuming removes exactly the dirt under the robot, the state is a goal exactly when no dirt is left, and the heuristics never overestimate the remaining cost.",
  ["inputs", "histories"], "every small map, dirt placement and reachable state within the bounds", "There are no tests of the vacuum domain.", ["vacuum/vacuum.hpp"],
  [("dirt bitmap and count", "vacuum/vacuum.hpp")], observe=["Edge", "h", "isgoal"])
p("M10", "Traffic obstacles stay on the grid and collisions are honoured",
  "At every time step every moving obstacle is inside the map and moves at most one cell per step along its bouncing track, and a step into an obstacle is never treated as an ordinary move.",
  ["inputs", "histories"], "every obstacle start, velocity and time, on maps within the bounds", "There are no tests of the traffic domain.", ["traffic/traffic.hpp", "traffic/traffic.cc"],
  [("closed-form bouncing position", "traffic/traffic.hpp")], observe=["positionAt", "Edge"])
p("M11", "Dock-robot actions are applied and undone exactly, with a safe estimate",
  "In the dock-robot domain every offered action is applicable, applying and undoing it restores the state exactly, boxes are neither lost nor duplicated, and the cost estimate never exceeds the cost of reaching the goal.",
  ["inputs", "histories"], "every state within the stated numbers of locations, cranes, piles and boxes", "Tests check the enumeration of operators on hand-made states; not application, undo or the estimate.", ["drobot/drobot.hpp", "drobot/drobot.cc"],
  [("apply/undo", "drobot/drobot.hpp"), ("incremental count of misplaced boxes", "drobot/drobot.hpp")], observe=["Edge", "h", "isgoal"])
p("M12", "Segment puzzle moves are exact and reversible",
  "In the segments domain every operator changes the state as documented, its declared inverse restores an equal state at the declared cost, no offered move takes a segment off the board or makes it end on another while moves with room are offered, and the count of segments out of place is right after every move, so the goal test is exact.",
  ["inputs", "histories"], "every state within the stated grid size and number of segments", "There are no tests of the segments domain.", ["segments/segments.hpp", "segments/segments.cc"],
  [("operator generation with collision test", "segments/segments.cc")], observe=["Edge", "Operators", "isgoal"])
p("M13", "Platformer motion never enters a wall and is deterministic",
  "For every sequence of controls the player never overlaps a solid tile or leaves the level, moves at most the documented distance per frame; levels of any shape are read tile for tile, the goal test is exact, packing and unpacking a state does not change its future, and a declared reverse control leads back to the state it came from.",
  ["histories", "inputs"], "all positions and control sequences up to the stated length on the stated levels", "There are no tests of the platformer.", ["plat2d/body.cc", "plat2d/lvl.cc", "plat2d/player.cc", "plat2d/plat2d.hpp"],
  [("unit-step collision resolution", "plat2d/body.cc")], observe=["Player::act", "pack", "unpack"])
p("M14", "Planar geometry predicates agree with exact geometry",
  "On points with small integer coordinates, segment intersection, line side tests, boxes and polygon containment agree with exact rational geometry.",
  ["inputs"], "all point configurations on a small integer grid", "Tests use a few fixed and random configurations.", ["utils/geom2d.hpp", "utils/geom2d.cc"],
  [("slope/intercept line intersection", "utils/geom2d.hpp")], observe=["LineSg::isect", "LineSg::hits", "Bbox::contains", "Poly::contains"])
p("R01", "Result databases map attribute sets to one file each",
  "In a result database, asking for the path of an attribute set twice gives the same path, attribute sets that differ give different paths, and reading a path's attributes back gives the attributes that made it.",
  ["inputs", "histories"], "all attribute sets within the stated sizes", "Tests check a few fixed attribute sets.", ["rdb/rdb.cc", "rdb/rdb.hpp"],
  [("key files and value directories", "rdb/rdb.cc")], observe=["pathfor", "pathattrs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
