#!/usr/bin/env python3
"""writes properties.jsonl (the text of the properties lives here)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}})


p("C01", "A directed graph equals its set model after every mutation history",
  "After any sequence of adding and removing vertices and edges, a directed graph contains exactly the vertices and edges that sequence leaves (adding an edge adds its endpoints, removing a vertex removes every incident edge), with no duplicates. Every query agrees with that set: membership, counts, outbound and inbound edges, the three degrees, self-loops, vertex list and edge list. No call panics, and removing something absent changes nothing.",
  ["histories", "inputs"], "all mutation sequences, all 64-bit vertex ids (including equal, 0 and maximal ones), self-loops and parallel insertions included",
  "The unit tests build a handful of fixed graphs; they never mix removals, re-insertions, self-loops and duplicate insertions in arbitrary order.",
  ["core/src/directed_graph.rs", "core/src/graph.rs"], [("adjacency maps kept in step", "core/src/directed_graph.rs"), ("default methods over the trait", "core/src/graph.rs")],
  ["Graph trait methods"], [{"name": "vertices, from, to", "meaning": "vertex list and both adjacency maps", "where": "core/src/directed_graph.rs"}])

p("C02", "A command list and a graph are two views of the same thing",
  "Converting a graph to a command list and replaying that list rebuilds exactly the same vertices and edges; replaying any command list gives the graph obtained by applying the commands in order, also when they are applied one at a time to an existing graph. Reverting a command produces the inverse operation, so applying it to a graph where the command took effect restores the earlier graph.",
  ["histories", "inputs"], "all graphs and all command sequences over all vertex ids",
  "Tests replay one or two fixed lists; the round trip has to hold for isolated vertices, self-loops and any order of commands.",
  ["core/src/graph_command.rs"], [("GraphCommand apply/revert, from/to graph", "core/src/graph_command.rs")], ["graph_command public functions"])

p("C03", "Command-log files: saved graphs and appended commands read back exactly",
  "Saving a graph to a command-log file and loading it gives the same vertices and edges, and appending commands to an existing file gives the file's graph with these commands applied, in order, with the earlier content untouched. A file is accepted exactly when every line is empty, a comment (starting with #) or a valid command with ids in the 64-bit range, and then yields exactly the listed commands. Any other content, malformed ids, invalid text encoding or a missing file is reported as an error, never a panic or a silently different graph.",
  ["inputs", "histories"], "all graphs, all 64-bit ids, all file contents (any bytes)",
  "Tests save and load one fixed graph; they never feed arbitrary bytes, extreme ids or appends to arbitrary files.",
  ["core/src/format/gcmd.rs", "core/src/format/utils.rs"], [("line grammar and writer", "core/src/format/gcmd.rs"), ("file helpers", "core/src/format/utils.rs")], ["save/load/append functions and file bytes"])

p("C04", "TGF files: saved graphs read back exactly, malformed files are errors",
  "Saving a graph in trivial graph format and loading it gives the same vertices and edges. Loading accepts empty lines, comments (starting with #), vertex lines and edge lines with optional labels, and yields exactly the vertices and edges they list. Malformed or out-of-range ids, invalid text encoding or a missing file are reported as errors, never a panic.",
  ["inputs"], "all graphs, all 64-bit ids, all file contents (any bytes)",
  "Tests load one sample file.",
  ["core/src/format/tgf.rs", "core/src/format/utils.rs"], [("line grammar and writer", "core/src/format/tgf.rs")], ["save/load functions and file bytes"])

p("C05", "Traversals visit each reachable vertex exactly once, breadth-first by distance",
  "A breadth-first or depth-first traversal from a vertex returns that vertex first, then every vertex reachable from it exactly once, and nothing else. Breadth-first order never returns a vertex before one that is fewer edges away; in depth-first order each vertex has an edge from a vertex returned earlier. Traversals of any graph (cycles and self-loops included) end.",
  ["inputs"], "all directed graphs, all start vertices, all orders in which the hash containers enumerate their elements",
  "Tests traverse a few small fixed graphs, with one enumeration order.",
  ["core/src/iter/iter_breadth.rs", "core/src/iter/iter_depth.rs", "core/src/iter/iter_datastructure.rs"], [("visited set and queue/stack", "core/src/iter/")], ["vertex iterators"])

p("C06", "Path traversals return exactly the simple paths from the start vertex",
  "The breadth-first and depth-first path traversals return every path from the start vertex that repeats no vertex, each exactly once, and nothing else; every returned path is a real path of the graph. Breadth-first returns them by non-decreasing length. They end on every graph, cyclic ones included.",
  ["inputs"], "all directed graphs, all start vertices, all container enumeration orders",
  "Tests list the paths of a few fixed graphs.",
  ["core/src/iter/iter_breadth.rs", "core/src/iter/iter_depth.rs"], [("path queue/stack with cycle test", "core/src/iter/")], ["path iterators"])

p("C07", "Topological sort: a valid order for acyclic graphs, an error for cyclic ones",
  "For an acyclic graph the topological sort returns every vertex exactly once with every edge pointing forward; for a graph with a cycle (a self-loop counts) it reports failure. The acyclicity test gives the same verdict, and neither changes the graph.",
  ["inputs"], "all directed graphs",
  "Tests cover a few fixed graphs; a graph whose cycle hangs off an acyclic part, self-loops and isolated vertices need enumeration of shapes.",
  ["core/src/algorithm/topo_sort.rs"], [("Kahn's algorithm", "core/src/algorithm/topo_sort.rs")], ["topological sort and acyclicity functions"])

p("C08", "Unconstrained shortest-path search returns a cheapest path, or none",
  "For non-negative edge weights the shortest-path search (best-first with or without an admissible, consistent heuristic) returns a real path from start to end whose reported cost is the sum of its weights and is minimal among all paths, and returns nothing exactly when the end is unreachable. The best-first traversal returns every reachable vertex's cheapest path. Searches end on every graph.",
  ["inputs"], "all directed graphs, all non-negative weight functions, all start and end vertices, all container orders",
  "Tests use a handful of graphs, mostly with unit weights.",
  ["core/src/search/a_star.rs", "core/src/iter/iter_best.rs", "core/src/algorithm/shortest_path.rs", "core/src/iter/iter_datastructure.rs"], [("priority queue ordered by cost", "core/src/iter/iter_best.rs"), ("A*", "core/src/search/a_star.rs")], ["shortest path functions and best-first iterators"])

p("C09", "Constrained shortest-path search is sound, complete and cheapest",
  "Among all walks from start to end that satisfy every given constraint, the constrained search returns one of minimal cost, and it returns nothing exactly when no walk satisfies them, whenever the constraints bound the walk (a length or score bound, or no repeated vertices). Every returned walk is a real walk of the graph from start to end that satisfies all the constraints, with its reported cost equal to the sum of its weights.",
  ["inputs", "configurations"], "all directed graphs, positive weights, start/end vertices and all combinations of constraints with a bounding one",
  "Tests try single constraints on a few graphs; pruning errors need a particular combination of graph, weights and constraint.",
  ["core/src/iter/iter_best_constraint.rs", "core/src/constraint/checker.rs", "core/src/algorithm/shortest_path.rs"], [("search pruned by partial checks", "core/src/iter/iter_best_constraint.rs")], ["constrained shortest path functions"])

p("C10", "A partial constraint check never rejects a path that can still succeed",
  "If the check of an unfinished path against a constraint says it cannot be satisfied any more, then no extension of that path satisfies the constraint.",
  ["inputs", "configurations"], "all paths, all extensions, all scores that do not decrease, all constraints, composite ones (and, or, xor, not) included",
  "Tests check selected constraints on selected paths; the claim quantifies over every extension and every nesting.",
  ["core/src/constraint/checker.rs"], [("three-valued partial check", "core/src/constraint/checker.rs")], ["constraint checker functions"])

p("C11", "A complete path satisfies a constraint exactly when its definition says so",
  "The check of a finished path gives, for every kind of constraint, the answer of its definition: the path contains a vertex; contains an edge; meets listed vertices only in the listed order; repeats a vertex (contains a cycle); has at least or at most so many vertices, or so much score (bounds inclusive); and the logical and, or, xor and not of these.",
  ["inputs", "configurations"], "all paths (repeated vertices included), all scores and all constraint parameters, composite constraints included",
  "Tests cover selected cases of each kind.",
  ["core/src/constraint/checker.rs", "core/src/constraint/constraint.rs"], [("complete check", "core/src/constraint/checker.rs")], ["constraint checker functions"])

p("C12", "Acyclic graphs: shortest and longest paths are exact for all vertices",
  "On an acyclic graph, with arbitrary (also negative) weights, the single-source shortest and longest path functions report for exactly the vertices reachable from the start the true minimum (maximum) cost, together with a real path of that cost; on a cyclic graph they report failure.",
  ["inputs"], "all directed graphs, all weight functions that do not overflow, all start vertices",
  "Tests use a few fixed graphs and weights.",
  ["core/src/algorithm/shortest_path.rs", "core/src/algorithm/longest_path.rs", "core/src/algorithm/topo_sort.rs"], [("relaxation in topological order", "core/src/algorithm/")], ["DAG shortest and longest path functions"])

p("C13", "Negative weights: Bellman-Ford and SPFA are exact and detect negative cycles",
  "With arbitrary weights, when no negative cycle is reachable from the start, the Bellman-Ford and SPFA functions end and report the true shortest distances, with real paths of that cost, for exactly the vertices reachable from the start. Bellman-Ford reports failure exactly when a negative cycle is reachable.",
  ["inputs"], "all directed graphs, all weight functions that do not overflow, all start vertices",
  "Tests use a few fixed graphs and weights; a missed relaxation round only shows for particular edge orders and weights.",
  ["core/src/algorithm/shortest_path.rs"], [("relaxation rounds and negative cycle test", "core/src/algorithm/shortest_path.rs")], ["Bellman-Ford and SPFA functions"])

p("C14", "Cycle enumeration returns every simple cycle it covers exactly once",
  "The cycle enumeration returns only real cycles of the graph that repeat no vertex, never the same cycle twice (rotations count as the same), and ends on every graph. It returns every cycle that is reachable from a vertex without incoming edges, and every cycle of a strongly connected graph; none is returned exactly when the graph has no such cycle.",
  ["inputs"], "all directed graphs, all container orders",
  "Tests count the cycles of a few fixed graphs.",
  ["core/src/iter/iter_cycle.rs", "core/src/algorithm/cycle.rs"], [("search from the heads of the graph", "core/src/iter/iter_cycle.rs")], ["cycle iterators"])

p("C15", "Cycle summaries agree with the enumerated cycles",
  "The functions that count cycles, return the first, the first n or all cycles, the girth, a shortest, a longest or a Hamiltonian cycle agree with the enumeration: counts are equal, extreme cycles are extreme among those enumerated, no cycle is returned twice, and nothing is returned exactly when there is none.",
  ["inputs"], "all directed graphs, all container orders",
  "Tests check a few fixed graphs.",
  ["core/src/algorithm/cycle.rs"], [("functions over the cycle iterator", "core/src/algorithm/cycle.rs")], ["cycle functions"])

p("C16", "Hamiltonian path search is sound and complete",
  "The Hamiltonian path search returns exactly the paths that visit every vertex of the graph exactly once along real edges, each once, and the functions that return the first or test whether there is one agree with it; checking whether a given path is Hamiltonian gives the answer of the definition.",
  ["inputs"], "all directed graphs, all start vertices, all paths",
  "Tests use a few fixed graphs.",
  ["core/src/algorithm/hamiltonian.rs"], [("exhaustive path search", "core/src/algorithm/hamiltonian.rs")], ["hamiltonian functions"])

p("C17", "Maximum flow: feasible, conserving, and equal to the minimum cut",
  "The computed flow never exceeds an edge's capacity, is never negative, is conserved at every vertex other than source and sink, and its value equals the capacity of a minimum cut; a graph where the sink cannot be reached has flow zero. The computation ends on every graph with non-negative capacities and does not panic when source and sink are distinct vertices of the graph.",
  ["inputs"], "all directed graphs (antiparallel edges and self-loops included), all non-negative capacities, all pairs of distinct vertices",
  "Tests check the flow value of a few fixed networks; cancelling flow through backward edges needs particular shapes and capacities.",
  ["core/src/algorithm/max_flow.rs"], [("augmenting paths over the residual graph", "core/src/algorithm/max_flow.rs")], ["max flow function"])

p("C18", "Constraint validation rejects exactly the documented conflicts",
  "Validation of a list of constraints rejects it exactly when two of them are in a documented conflict: a vertex or edge both required and forbidden, an edge required whose endpoint is forbidden, cycles both required and forbidden, a minimum above the maximum of length or score, or the same bound given twice. All other lists are accepted, whatever their order.",
  ["configurations", "inputs"], "all lists of constraints with any parameters",
  "Tests check a few pairs.",
  ["core/src/constraint/constraint.rs", "core/src/constraint/checker.rs"], [("pairwise validation", "core/src/constraint/")], ["constraint validation functions"])

p("C19", "Search queues return exactly what was put in, in their documented order",
  "Every search queue returns each element that was added exactly once and no other, and nothing exactly when it is empty: the stack last-in first-out, the queue first-in first-out, the minimum (maximum) priority queue a smallest (largest) among the elements present.",
  ["histories", "inputs"], "all interleavings of insertions and removals, all scores (equal ones included)",
  "Tests insert a few fixed values.",
  ["core/src/iter/iter_datastructure.rs"], [("stack, queue and binary heaps", "core/src/iter/iter_datastructure.rs")], ["data structure trait methods"])

p("C20", "gc-add and gc-delete change the stored graph by exactly what was asked",
  "gc-add adds exactly the vertices and edges that its options describe: the vertices, the edges (ids taken two by two), a chain, a cycle (a chain closed by an edge from the last id to the first), a star (edges from the first id to each other one) or a clique (edges between every two, both ways), over the ids in the order given, every edge of the first five reversed with --reverse. gc-delete removes exactly the given vertices (with their edges) and edges. Everything else in the stored graph is unchanged. A value of an option that is not a 64-bit vertex id, or an odd number of ids for edges, makes the command fail without anything of that option being applied.",
  ["inputs", "histories"], "all argument lists over all ids and all stored graphs",
  "There is no test of the commands.",
  ["command/src/bin/gc-add.rs", "command/src/bin/gc-delete.rs", "command/src/arg_utils.rs", "command/src/graph_utils.rs"], [("patterns to command lists", "command/src/bin/gc-add.rs")], ["exit status and the graph file"])

p("C21", "A sequence of commands works on one persistent graph",
  "Running any sequence of commands on a directory gives, at each step, the result for the graph left by the preceding ones: gc-init creates an empty graph and leaves one that is there unchanged, gc-add and gc-delete change it, gc-build compacts the file (at most one command per vertex and edge) without changing the graph, gc-clean removes the stored graph (after asking, unless forced; any answer but yes or y leaves it unchanged), gc-desc reports its numbers of vertices and edges and its smallest and largest id, gc-topo-sort prints a topological order or that there is none, and neither changes it. Except for gc-init, commands on a directory without a graph fail and store no graph. Graphs in other directories and other files are not touched.",
  ["histories", "inputs"], "all sequences of commands with all arguments",
  "There is no test of the commands.",
  ["command/src/bin", "command/src/graph_utils.rs", "core/src/format/gcmd.rs"], [("graph file under .graph", "command/src/graph_utils.rs")], ["exit status, standard output and files"])

p("C22", "gc-csp, gc-cycle and gc-short-path answer for exactly the options given",
  "For vertices of the stored graph, every path gc-short-path and gc-csp print is one of the graph between the requested vertices, with its number of edges as cost, and satisfies every constraint option given; it is a cheapest such path, and 'not reachable' is printed exactly when there is none (for gc-csp: when an option such as --no-cycle, --max-length or --max-score bounds the search). Every cycle gc-cycle prints is one of the graph and satisfies every option (lengths and scores count its vertices, its edges include the closing one), none is printed twice, and count, head, take-n, all, shortest, longest, girth and hamiltonian agree with the cycles reachable from the vertices without inbound edge, or with all cycles if every vertex can reach every other. A value of an option that is not a number makes the command fail instead of being ignored.",
  ["inputs", "configurations"], "all option combinations with all values, all stored graphs",
  "There is no test of the commands.",
  ["command/src/bin/gc-csp.rs", "command/src/bin/gc-cycle.rs", "command/src/bin/gc-short-path.rs", "command/src/arg_utils.rs"], [("options to constraints", "command/src/bin/")], ["exit status and standard output"])

p("C23", "The graph lock: updates exclude each other and locks are released",
  "While one command holds a graph's lock, gc-add, gc-delete, gc-build and gc-clean on that graph fail without changing it, and no command removes a lock that it did not acquire. A command that acquired the lock releases it when it ends, whether it succeeds or reports an error. Of two commands that run at the same time at least one succeeds; the changes of each that reports success are in the stored graph, and one that reports failure changed nothing.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of two updating commands' file operations, all arguments",
  "There is no test of the commands, and no test runs two at once.",
  ["command/src/graph_utils.rs", "command/src/bin"], [("lock file", "command/src/graph_utils.rs")], ["lock file, exit status, graph file"])

p("C24", "A command reports success only if the data was written",
  "Whatever file operations fail or write only part of the data (open, create, read, write, remove), a command exits with success only if its effect is complete: the stored file holds exactly the requested graph, the removed graph is gone, the answer printed is that for the whole stored graph, and the lock is released. The library's save functions return success only if the file holds the whole graph.",
  ["fault_sequences", "inputs"], "every file operation failing, at every position, with short writes",
  "No test injects a file error.",
  ["core/src/format/gcmd.rs", "core/src/format/tgf.rs", "core/src/format/utils.rs", "command/src/graph_utils.rs"], [("error propagation", "core/src/format/utils.rs")], ["results, exit status and file bytes"])

p("C25", "gc-random produces acyclic graphs of about the requested number of edges",
  "For two or more vertices, whatever random numbers are drawn, the graph generated has no cycle and no self-loop, at least the requested number of edges and fewer than that plus the number of vertices. It replaces the stored graph entirely, after a confirmation or with --force; without confirmation, on a locked graph or where there is no graph, nothing is changed.",
  ["inputs", "configurations"], "all random choices and all parameters",
  "There is no test of the command; outcomes depend on random choices.",
  ["command/src/bin/gc-random.rs"], [("random edge generation", "command/src/bin/gc-random.rs")], ["graph file, exit status"])

p("C26", "Attribute mappings behave as maps from vertices and edges to values",
  "After any sequence of setting and removing attributes, looking up a vertex or edge returns the value last set for it, and nothing (or the given default) if none is set or it was removed; other entries are unaffected. Applying a list of attribute commands equals applying them one by one, in order.",
  ["histories", "inputs"], "all sequences of operations, all vertices, edges and values",
  "Tests set one or two attributes.",
  ["core/src/attribute/mapping.rs", "core/src/attribute/attribute_command.rs"], [("hash maps per kind", "core/src/attribute/mapping.rs")], ["mapping functions"])

p("C27", "Path, cycle and edge values: derived facts follow from their vertices",
  "Size, first and last vertex, the edge list, containment of a vertex or an edge, presence of a repeated vertex, and extension of a path by a vertex all follow from its vertex sequence; scored paths are ordered by score. A cycle is built from a vertex sequence exactly when it has at least two vertices and repeats none, and its canonical form is its rotation that starts at the smallest vertex. Extending a path never changes the original.",
  ["inputs"], "all vertex sequences, edges and scores",
  "Tests check a few values.",
  ["core/src/path.rs", "core/src/graph.rs"], [("functions over the vertex vector", "core/src/path.rs")], ["path and cycle functions"])

p("C28", "A crash while commands are appended never damages what was stored before",
  "If gc-add or gc-delete dies at any moment, the stored file still starts with its complete earlier content, and the complete lines after it are the first of the requested commands, in order; when the command reports success, they are all there.",
  ["crash_points", "inputs"], "every point between and inside the file operations of an update",
  "No test stops a process in the middle of an update.",
  ["core/src/format/gcmd.rs", "core/src/format/utils.rs", "command/src/graph_utils.rs"], [("append-only writes", "core/src/format/gcmd.rs")], ["file bytes after the crash"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
