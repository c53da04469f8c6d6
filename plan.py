"""what each property's check runs: harness, crate, tier, deadline (s), must finish, coverage points that must be reached, bounds"""


def q(h, dl, cover, b, crate="core"):
    return dict(h=h, crate=crate, tier="q", dl=dl, req=True, cover=cover, b=b)


def t(h, dl, cover, b, crate="core", req=False):
    return dict(h=h, crate=crate, tier="t", dl=dl, req=req, cover=cover, b=b)


qc = lambda h, dl, cover, b: q(h, dl, cover, b, "cli")
tc = lambda h, dl, cover, b: t(h, dl, cover, b, "cli")

E = lambda n: "graphs built from %d edges, endpoints arbitrary 64-bit ids (all sharing patterns, duplicates, self-loops)" % n
N = lambda n, l: "all graphs on %d arbitrary distinct 64-bit ids, %s self-loops" % (n, "with" if l else "without")
OA = "; the hash containers enumerate in any order (symbolic)"
O1 = "; insertion or reverse-insertion enumeration order of hash containers"
F = lambda n: "families (chain, cycle, star out/in/both, chain with short cuts, binary tree, dense acyclic, complete bipartite) of %d vertices" % n
S = lambda n: F(n) + ", with one symbolic extra edge"
FAN = lambda n: "the start joined to each of %d other vertices and a chain through them" % (n - 1)
I58 = ", weights arbitrary integers of magnitude <= 2^58"
P58 = ", weights arbitrary integers in 0..2^58"

PLAN = {
    "C01": [
        q("c01_hist2", 60, 1, "2 arbitrary operations on arbitrary 64-bit ids from the empty graph" + OA),
        q("c01_hist3", 60, 1, "3 arbitrary operations" + OA),
        q("c01_hist4", 90, 1, "4 arbitrary operations" + O1),
        q("c01_step2", 60, 1, "one arbitrary operation on every graph of 2 vertices" + OA),
        q("c01_step3", 90, 1, "one arbitrary operation on every graph of 3 vertices" + O1), q("c01_two2", 60, 1, "two arbitrary operations on every graph of 2 vertices" + O1),
        q("c01_big", 60, 1, F(12) + ", one arbitrary operation"), q("c01_huge", 90, 1, "stars (out, in, both ways) of 130 vertices, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c01_wide", 120, 1, "stars (out, in, both ways, the edges to the hub added before, after or between the others) of 68 vertices, one operation between the hub and an arbitrary id, or removal of the hub"), q("c01_foreign", 30, 1, "one arbitrary operation on every graph of 1 or 2 vertices; queries about an arbitrary id that is not in the graph"), q("c01_foreign0", 30, 1, "queries about an arbitrary id on the empty graph"), q("c01_big2", 90, 1, "stars (out, in, both ways) of 36 vertices, one arbitrary operation"),
    ],
    "C02": [
        q("c02_round_e3", 60, 1, E(3) + OA), q("c02_round_e4", 60, 1, E(4) + O1), q("c02_round_n3", 60, 1, N(3, True) + OA), q("c02_round_n4", 60, 1, N(4, False) + O1),
        q("c02_round_big", 90, 1, S(16)),
        q("c02_apply3", 60, 1, "3 arbitrary commands" + OA), q("c02_long", 30, 1, "45 commands, one of them arbitrary, applied at once or in two parts"), q("c02_revert_big", 30, 1, F(10) + " and an arbitrary command"), q("c02_apply4", 60, 1, "4 arbitrary commands" + O1),
        q("c02_revert_e2", 60, 1, E(2) + " and an arbitrary command"), q("c02_revert_n2", 60, 1, N(2, True) + " and an arbitrary command"), q("c02_revert_n3", 60, 1, N(3, True) + " and an arbitrary command"),
        t("c02_apply5", 600, 1, "5 arbitrary commands" + O1),
    ],
    "C03": [
        q("c03_round_e1", 30, 1, "graphs of up to one edge between arbitrary ids up to 99999"), q("c03_round_e2s", 60, 1, "graphs of up to 2 edges and a vertex, arbitrary one-digit ids" + OA),
        q("c03_round_lim", 30, 1, "one edge and a vertex over 8 extreme 64-bit ids"), q("c03_large", 60, 1, "a graph of more than 8 KiB of text with one symbolic edge"),
        q("c03_append11", 30, 1, "one arbitrary command appended after another, ids up to 999"), q("c03_append22", 30, 1, "two commands appended after two"), q("c03_missing", 10, 1, "appending to a file that is not there"),
        q("c03_grammar2", 30, 3, "2 arbitrary printable characters or newlines between and after the keywords of each kind of line"), q("c03_grammar3", 30, 3, "3 arbitrary characters"), q("c03_word", 30, 3, "3 arbitrary characters inside a keyword"),
        q("c03_total2", 60, 3, "2 arbitrary bytes (not necessarily UTF-8) after the beginning of each kind of line"), q("c03_ids2", 30, 3, "ids of up to 20 digits around the 64-bit limit, 2 of them symbolic"), q("c03_ids3", 30, 3, "4 symbolic digits"),
        t("c03_round_e3", 120, 1, "graphs of up to 3 edges, one-digit ids"), t("c03_round_e2", 600, 1, "graphs of up to 2 edges, ids up to 99"), t("c03_round_lim2", 120, 1, "two edges over 8 extreme ids"), t("c03_total3", 120, 3, "3 arbitrary bytes"), t("c03_append1", 600, 1, "one command with arbitrary 64-bit ids"), t("c03_round_any", 900, 1, "one vertex with an arbitrary 64-bit id"),
    ],
    "C04": [
        q("c04_round_e1", 30, 1, "graphs of up to one edge between arbitrary ids up to 99999"), q("c04_round_e2s", 60, 1, "graphs of up to 2 edges and a vertex, arbitrary one-digit ids" + OA),
        q("c04_round_lim", 30, 1, "one edge and a vertex over 8 extreme 64-bit ids"), q("c04_large", 60, 1, "a graph of more than 8 KiB of text with one symbolic edge"),
        q("c04_grammar2", 30, 3, "2 arbitrary printable characters or newlines before, between and after ids and labels"), q("c04_grammar3", 30, 3, "3 arbitrary characters"), q("c04_total2", 60, 3, "2 arbitrary bytes after the beginning of each kind of line"),
        q("c04_ids2", 30, 3, "ids of up to 20 digits around the 64-bit limit, 2 of them symbolic"), q("c04_ids3", 30, 3, "4 symbolic digits"),
        t("c04_round_e3", 300, 1, "graphs of up to 3 edges, one-digit ids"), t("c04_round_e2", 600, 1, "graphs of up to 2 edges, ids up to 99"), t("c04_round_lim2", 120, 1, "two edges over 8 extreme ids"), t("c04_total3", 120, 3, "3 arbitrary bytes"), t("c04_round_any", 900, 1, "one vertex with an arbitrary 64-bit id"),
    ],
    "C05": [
        q("c05_edges3", 90, 6, E(3) + OA), q("c05_edges4", 90, 6, E(4) + O1), q("c05_n3", 60, 6, N(3, True) + OA), q("c05_n4", 60, 6, N(4, False) + O1),
        q("c05_head3", 60, 2, E(3) + OA + "; traversal from the first vertex"), q("c05_head0", 30, 2, "empty graph"), q("c05_tiny", 30, 6, "every graph of 1 or 2 arbitrary vertices, with self-loops"+OA), q("c05_huge", 60, 2, "chain, star, star both ways of 260 vertices, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c05_wide", 60, 2, "chain, star, star both ways of 80 vertices, with an edge from the last vertex to an arbitrary one"), q("c05_big", 120, 6, S(12)), q("c05_big2", 120, 6, S(24)),
        t("c05_edges5", 900, 6, E(5) + O1), t("c05_n4l", 900, 6, N(4, True) + O1),
    ],
    "C06": [
        q("c06_edges3", 90, 2, E(3) + OA), q("c06_edges4", 90, 2, E(4) + O1), q("c06_n3", 60, 2, N(3, True) + OA), q("c06_n4", 60, 2, N(4, False) + O1), q("c06_tiny", 30, 2, "every graph of 1 or 2 arbitrary vertices, with self-loops"+OA), q("c06_huge", 60, 2, "chain and star of 260 vertices, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c06_wide", 60, 2, "chain and star of 72 vertices, with an edge from the last vertex to an arbitrary one"), q("c06_big", 90, 2, S(12)), q("c06_big2", 60, 2, "stars (in, both ways)" + " of 12 vertices, with one symbolic extra edge"), q("c06_big3", 60, 2, "chain with short cuts, dense acyclic, complete bipartite graphs of 7 vertices, with one symbolic extra edge"),
        t("c06_edges5", 900, 2, E(5) + O1), t("c06_n4l", 900, 2, N(4, True) + O1),
    ],
    "C07": [
        q("c07_edges3", 60, 3, E(3) + OA), q("c07_edges4", 60, 3, E(4) + O1), q("c07_n3", 60, 3, N(3, True) + OA), q("c07_n4", 60, 3, N(4, False) + O1),
        q("c07_big", 60, 3, S(14)), q("c07_tiny", 30, 3, "every graph of 1 or 2 arbitrary vertices, with self-loops"+OA), q("c07_huge", 90, 3, "chain, cycle and stars of 260 vertices, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c07_wide", 60, 3, "cycle and stars of 72 vertices, with an edge from the last vertex to an arbitrary one"), q("c07_big2", 60, 1, "chain, chain with short cuts, binary tree of 40 vertices"),
    ],
    "C08": [
        q("c08_best_e3", 90, 2, E(3) + P58 + OA), q("c08_best_e4", 90, 2, E(4) + P58 + O1), q("c08_best_n3", 60, 2, N(3, False) + P58 + OA),
        q("c08_astar_e4", 120, 6, E(4) + P58 + O1), q("c08_astar_n3", 60, 6, N(3, True) + P58 + OA), q("c08_h_e3", 60, 6, E(3) + P58 + ", arbitrary consistent heuristic"), q("c08_h_n3", 60, 6, N(3, False) + P58 + ", arbitrary consistent heuristic"),
        q("c08_unit_e4", 90, 2, E(4) + ", unit weights"), q("c08_unit_n4", 60, 2, N(4, False) + ", unit weights"), q("c08_b_tiny", 30, 2, "every graph of 1 or 2 arbitrary vertices, with self-loops"+P58+OA), q("c08_a_tiny", 30, 6, "every graph of 1 or 2 arbitrary vertices, with self-loops"+P58+OA), q("c08_u_tiny", 30, 2, "every graph of 1 or 2 arbitrary vertices, with self-loops"+OA), q("c08_huge", 60, 2, "chain and stars of 260 vertices, unit weights, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c08_wide", 60, 2, "chain and stars of 80 vertices, unit weights, with an edge from the last vertex to an arbitrary one"), q("c08_big", 150, 2, S(14) + ", unit weights"), q("c08_big2", 60, 2, "dense acyclic, complete bipartite, star both ways of 10 vertices with one symbolic extra edge, unit weights"), q("c08_fan_b", 60, 2, FAN(5) + P58 + O1), q("c08_fan_a", 60, 2, FAN(5) + P58 + O1), q("c08_fan_h", 60, 2, FAN(4) + P58 + ", arbitrary consistent heuristic"),
        t("c08_h_e4", 600, 6, E(4) + P58 + ", arbitrary consistent heuristic"), t("c08_astar_n4", 1800, 6, N(4, False) + P58 + O1), t("c08_unit_e5", 1200, 2, E(5) + ", unit weights"), t("c08_astar_e5", 1800, 6, E(5) + P58 + O1),
    ],
    "C09": [
        q("c09_len_e2", 60, 3, E(2) + ", one constraint of any kind (and/or/not), length bound 4"), q("c09_len_e3", 150, 3, E(3) + ", one constraint of any kind, length bound 3"),
        q("c09_acyclic_e3", 180, 3, E(3) + P58 + ", one constraint, no repeated vertex"), q("c09_score_e3", 150, 3, E(3) + ", one constraint, score bound 2"), q("c09_single_e3", 60, 3, E(3) + P58 + ", one bound (length, score or no repeated vertex) and no other constraint"), q("c09_none_e3", 60, 3, "acyclic " + E(3) + P58 + ", no constraint"), q("c09_dag_e3", 150, 3, "acyclic " + E(3) + P58 + ", one constraint of any kind"), q("c09_n3", 90, 3, N(3, False) + P58 + ", one constraint, no repeated vertex"), q("c09_many9", 40, 3, "3 or 4 constraints at once on a chain of 9 vertices with short cuts"), q("c09_big", 60, 3, F(5) + ", one constraint, no repeated vertex"), q("c09_biglen", 40, 3, "chain, cycle, stars, binary tree of 8 vertices, one constraint, length bound 4"),
        t("c09_w_e3", 400, 3, E(3) + P58 + ", one constraint, length bound 3"), t("c09_two_e2", 600, 3, E(2) + ", two constraints, length bound 3"), t("c09_two_e3", 1800, 3, E(3) + ", two constraints, no repeated vertex"), t("c09_acyclic_e4", 1800, 3, E(4) + P58 + ", one constraint, no repeated vertex"),
    ],
    "C10": [
        q("c10_leaf", 60, 3, "every basic constraint with arbitrary parameters; path of 1..3 arbitrary vertices extended by 0..2; any non-decreasing score"), q("c10_ord", 30, 3, "ordered lists of 0, 1, 4 or 5 vertices, path 1..2, extension 0..1"), q("c10_long", 60, 3, "every basic constraint and its negation, a path of 20 vertices (one arbitrary) that extends one of 1, 10 or 19"), q("c10_not", 60, 3, "negation of every basic constraint; path 1..3, extension 0..2"), q("c10_tree1", 60, 3, "every and/or/xor/not of basic constraints; path 1..2, extension 0..1"), q("c10_tree2", 90, 3, "two levels of and/or/xor/not; path of 1, extension 0..1"),
        t("c10_tree3", 1800, 3, "three levels of and/or/xor/not over two kinds"),
    ],
    "C11": [
        q("c11_leaf4", 60, 3, "every basic constraint with arbitrary parameters; paths of 0..4 arbitrary vertices; any score"), q("c11_leaf3o", 60, 3, "every basic constraint, paths of 0..3" + OA), q("c11_tree1", 60, 3, "every and/or/xor/not of basic constraints, paths of 0..2"), q("c11_leaf5", 60, 3, "every basic constraint, paths of 0..5"), q("c11_ord", 30, 3, "ordered lists of 0, 1, 4 or 5 vertices, paths of 0..3"), q("c11_long", 60, 3, "every basic constraint and its negation, paths of 20 vertices, one arbitrary"), q("c11_tree2", 120, 3, "two levels of and/or/xor/not, paths of 0..2"),
    ],
    "C12": [
        q("c12_s_e3", 90, 2, E(3) + I58 + OA), q("c12_s_e4", 90, 2, E(4) + I58 + O1), q("c12_s_n4", 60, 2, N(4, False) + I58 + O1), q("c12_l_e3", 240, 2, E(3) + I58 + OA), q("c12_s_tiny", 30, 2, "every graph of 1 or 2 arbitrary vertices, with self-loops"+I58+OA), q("c12_l_tiny", 30, 2, "every graph of 1 or 2 arbitrary vertices, with self-loops"+I58+OA), q("c12_huge", 60, 2, "chain and star of 130 vertices, unit weights, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c12_wide", 60, 2, "chain and star of 72 vertices, unit weights, with an edge from the last vertex to an arbitrary one"), q("c12_big", 90, 2, S(14) + ", unit weights"), q("c12_s_fan", 60, 2, FAN(5) + I58 + O1), q("c12_l_fan", 90, 2, FAN(4) + I58 + O1),
        t("c12_l_e4", 1800, 2, E(4) + I58 + O1), t("c12_l_n4", 1800, 2, N(4, False) + I58 + O1),
    ],
    "C13": [
        q("c13_bf_e3", 120, 6, E(3) + I58 + OA), q("c13_bf_e4", 150, 6, E(4) + I58 + O1), q("c13_sp_e3", 120, 2, E(3) + I58 + OA), q("c13_sp_e4", 90, 2, E(4) + I58 + O1), q("c13_sp_n3", 60, 2, N(3, True) + I58 + O1), q("c13_bf_tiny", 30, 6, "every graph of 1 or 2 arbitrary vertices, with self-loops"+I58+OA), q("c13_sp_tiny", 30, 2, "every graph of 1 or 2 arbitrary vertices, with self-loops"+I58+OA), q("c13_huge", 90, 2, "chain and star of 220 vertices, unit weights, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c13_wide", 60, 2, "chain and star of 72 vertices, unit weights, with an edge from the last vertex to an arbitrary one"), q("c13_big", 60, 2, S(12) + ", unit weights"), q("c13_bf_fan6", 60, 4, FAN(6) + I58 + O1), q("c13_bf_fanb5", 60, 6, FAN(5) + " and an edge back" + I58 + O1), q("c13_sp_fan6", 60, 2, FAN(6) + I58 + O1), q("c13_sp_fanb5", 60, 2, FAN(5) + " and an edge back" + I58 + O1),
        t("c13_bf_n3", 1200, 6, N(3, True) + I58 + O1), t("c13_bf_n4", 1800, 6, N(4, False) + I58 + O1), t("c13_sp_n4", 1800, 2, N(4, False) + I58 + O1),
    ],
    "C14": [
        q("c14_e3", 60, 3, E(3) + OA), q("c14_e4", 60, 3, E(4) + O1), q("c14_n3", 60, 3, N(3, True) + OA), q("c14_tiny", 30, 3, "every graph of 1 or 2 arbitrary vertices, with self-loops"+OA), q("c14_huge", 120, 3, "cycle of 130 vertices, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c14_wide", 90, 2, "cycle of 68, star both ways of 40 vertices, with an edge from the last vertex to an arbitrary one"), q("c14_big", 60, 3, S(12)), q("c14_big2", 60, 3, "chain with short cuts, dense acyclic, complete bipartite, star both ways of 7 vertices with one symbolic extra edge"), q("c14_empty", 30, 1, "empty graph"), q("c14_big3", 60, 3, "cycle, star in, binary tree of 24 vertices with one symbolic extra edge"), q("c14_n4", 300, 3, N(4, False) + O1),
        t("c14_e5", 1200, 3, E(5) + O1),
    ],
    "C15": [
        q("c15_e3", 60, 3, E(3) + OA), q("c15_e4", 120, 3, E(4) + O1), q("c15_n3", 60, 3, N(3, True) + O1), q("c15_n4", 200, 3, N(4, False) + O1), q("c15_tiny", 30, 3, "every graph of 1 or 2 arbitrary vertices, with self-loops"+OA), q("c15_huge", 120, 3, "cycle of 130, star both ways of 110 vertices, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c15_wide", 120, 2, "cycle and star both ways of 68 vertices, with an edge from the last vertex to an arbitrary one"), q("c15_big", 60, 3, S(12)), q("c15_big2", 60, 3, "chain with short cuts, dense acyclic, complete bipartite, star both ways of 7 vertices with one symbolic extra edge"), q("c15_empty", 30, 1, "empty graph"), q("c15_big3", 60, 3, "cycle, star in, binary tree of 20 vertices with one symbolic extra edge"),
    ],
    "C16": [
        q("c16_e3", 60, 3, E(3) + OA), q("c16_e4", 60, 3, E(4) + O1), q("c16_n3", 60, 3, N(3, True) + OA), q("c16_n4", 60, 3, N(4, False) + O1), q("c16_tiny", 30, 3, "every graph of 1 or 2 arbitrary vertices, with self-loops"+OA), q("c16_long", 60, 3, "is_path_hamiltonian on walks of n-2 to n+2 vertices round a cycle, or in and out of the hub of a star, of n = 9, 20 or 70 vertices"), q("c16_huge", 90, 2, "chain and cycle of 130 vertices, with no further edge or one from the last vertex to the first, the middle, the one before or a further vertex, or one from the second vertex to the third"), q("c16_wide", 60, 2, "chain and cycle of 68 vertices, with an edge from the last vertex to an arbitrary one"), q("c16_big", 60, 3, S(9)), q("c16_big2", 90, 3, F(7) + ", with two symbolic extra edges"), q("c16_path_n3", 60, 3, N(3, True) + " and a path of up to 4 arbitrary vertices"), q("c16_empty", 30, 1, "empty graph"),
    ],
    "C17": [
        q("c17_tiny", 30, 3, "every graph of 1 or 2 arbitrary vertices, with self-loops"+P58+OA), q("c17_wide", 60, 2, "a source joined to a target by a chain of 24 edges or over 24 vertices, one capacity arbitrary in 0..12"), q("c17_e2", 60, 3, E(2) + ", capacities arbitrary in 0..2^58" + OA), q("c17_e3", 90, 3, E(3) + ", capacities arbitrary in 0..2^58"), q("c17_n3", 60, 3, N(3, False) + ", capacities arbitrary in 0..2^58"), q("c17_diamond", 300, 3, "4-vertex diamond networks (where flow must be cancelled), capacities arbitrary in 0..2^32"), q("c17_diamond1", 90, 3, "diamond networks with an extra edge, capacities 0..3"), q("c17_ladder", 90, 3, "6-vertex ladder, capacities 0..2"), q("c17_net", 150, 2, "5 networks of 4 to 8 vertices with given capacities, any one of them arbitrary in 0..20"),
        t("c17_net2", 1800, 2, "the same networks, any two capacities arbitrary in 0..20"),
        t("c17_e4", 1800, 3, E(4) + ", capacities arbitrary in 0..2^58"),
    ],
    "C18": [
        q("c18_l2", 60, 3, "lists of 0..2 constraints with parameters 0..999" + OA), q("c18_l3", 90, 3, "lists of 0..3 constraints with parameters 0..9" + O1), q("c18_ext", 90, 3, "two constraints over arbitrary 64-bit ids, lengths and scores"), q("c18_far5", 60, 3, "two constraints of kinds that may conflict, anywhere among 3 others"), q("c18_far9", 60, 3, "two constraints of kinds that may conflict, anywhere among 7 others"),
    ],
    "C19": [
        q("c19_stack", 60, 3, "6 arbitrary operations, arbitrary values"), q("c19_queue", 60, 3, "6 arbitrary operations"), q("c19_min", 90, 3, "6 arbitrary operations, arbitrary 64-bit scores"), q("c19_max", 90, 3, "6 arbitrary operations"), q("c19_scored_min", 60, 1, "scored paths"), q("c19_scored_max", 60, 1, "scored paths"), q("c19_scored_min6", 60, 1, "6 scored paths"), q("c19_scored_max6", 120, 1, "6 scored paths"),
        q("c19_long_st", 60, 2, "80 insertions of arbitrary values, removals in between, drained"), q("c19_long_q", 60, 2, "80 insertions of arbitrary values, removals in between, drained"), q("c19_long_min", 90, 2, "76 insertions, one with an arbitrary value, removals in between, drained"), q("c19_long_max", 90, 2, "76 insertions, one with an arbitrary value, removals in between, drained"),
        t("c19_min7", 1200, 3, "7 arbitrary operations"), t("c19_max7", 1200, 3, "7 arbitrary operations"),
    ],
    "C20": [
        qc("c20_one2", 40, 3, "each option of gc-add, long or short, with 2 arbitrary one-digit ids, with and without --reverse, on a stored graph of up to 1 command"), qc("c20_one3", 40, 3, "each option with 3 ids"), qc("c20_one4", 40, 3, "edges, chain, cycle and star with 4 ids"), qc("c20_one4q", 40, 3, "clique of 4 ids"),
        qc("c20_many10", 40, 1, "each option with 10 ids, distinct or repeating, one symbolic"), qc("c20_many40", 60, 1, "vertices, edges, chain, cycle, star of 40 ids, one symbolic"), qc("c20_many80", 30, 1, "80 vertices"), qc("c20_delm", 40, 1, "2 arbitrary edges deleted from the complete graph of 4 vertices"), qc("c20_delm5", 40, 1, "5 edges, 2 of them arbitrary"), qc("c20_delmv", 40, 1, "3 arbitrary vertices"),
        qc("c20_two22", 60, 1, "two different options in one call, 2 ids each"), qc("c20_wide3", 30, 1, "ids of 3 digits"),
        qc("c20_delv", 30, 1, "gc-delete of a vertex from a stored graph of up to 2 commands"), qc("c20_delv2", 40, 1, "two vertices"), qc("c20_dele", 40, 1, "an edge"), qc("c20_delb", 60, 1, "an edge and a vertex"),
        qc("c20_word1", 30, 3, "one id replaced by an arbitrary byte, each option"), qc("c20_word2", 30, 3, "by 2 arbitrary bytes"), qc("c20_word3", 60, 3, "by 3 arbitrary bytes"), qc("c20_wordd1", 30, 3, "gc-delete, 1 arbitrary byte"), qc("c20_wordd2", 40, 3, "gc-delete, 2 arbitrary bytes"),
        qc("c20_limit", 30, 3, "ids around 2^64"), qc("c20_limitd", 30, 3, "gc-delete, ids around 2^64"), qc("c20_odd", 20, 1, "an odd number of ids for edges"), qc("c20_oddd", 20, 1, "gc-delete, an odd number of ids"),
        tc("c20_two24", 600, 1, "two options, 2 and 4 ids of 0..3"), tc("c20_wide8", 600, 1, "ids of 8 digits"), tc("c20_dele2", 600, 1, "two edges deleted"),
    ],
    "C21": [
        qc("c21_seq2", 40, 7, "2 arbitrary commands from an empty directory, on it or another directory" + OA), qc("c21_seq3", 40, 15, "3 arbitrary commands with arbitrary one-digit ids"), qc("c21_seq4", 90, 15, "4 arbitrary commands"),
        qc("c21_graph11", 40, 15, "one arbitrary command on a stored graph of up to 1 command, in either directory"), qc("c21_graph12", 90, 15, "one command on a graph of up to 2 commands"), qc("c21_graph21", 90, 15, "two commands on a graph of up to 1 command"),
        qc("c21_big1", 40, 15, "one arbitrary command on the families of 12 vertices with ids of up to 6 digits and a longer history"), qc("c21_wide", 60, 7, "one arbitrary command on a stored chain, cycle, star, star both ways of 70 vertices"), qc("c21_big2", 60, 15, "two arbitrary commands on a cycle and a star of 6 vertices with a longer history"),
        qc("c21_confirm", 30, 3, "gc-clean's question answered by yes, y, no or up to 3 arbitrary characters"), qc("c21_odd", 30, 1, "one arbitrary command on a file with comments, empty lines, repeated commands or no final newline"), qc("c21_others", 30, 7, "another file in the directory"),
        tc("c21_graph13", 900, 15, "one command on a graph of up to 3 commands"), tc("c21_graph22", 900, 15, "two commands on a graph of up to 2 commands"),
    ],
    "C22": [
        qc("c22_path2", 40, 3, "gc-short-path between any two vertices of a stored graph of up to 2 edges" + OA), qc("c22_path3", 90, 3, "up to 3 edges"), qc("c22_absent", 40, 1, "start or end not in the graph"),
        qc("c22_csp2", 40, 3, "gc-csp, each of 5 options that bound the path, graphs of up to 2 edges"), qc("c22_csp2o", 60, 3, "--max-length 3 and each other option with arbitrary one-digit values"), qc("c22_csp2n", 60, 3, "--no-cycle and each other option"), qc("c22_csp2s", 60, 3, "--max-score 2 and each other option"), qc("c22_csp3", 90, 3, "graphs of up to 3 edges, one option"),
        qc("c22_cyc2", 30, 7, "gc-cycle, each action, graphs of up to 2 edges"), qc("c22_cyc2o", 40, 7, "each action with each constraint option"), qc("c22_cyc3", 60, 7, "each action, graphs of up to 3 edges"), qc("c22_cyc3o", 60, 1, "--all with each constraint option, up to 3 edges"), qc("c22_girth2", 30, 3, "girth and hamiltonian cycle, up to 2 edges"), qc("c22_girth3", 40, 3, "up to 3 edges"),
        qc("c22_pathb", 90, 3, "gc-short-path on families of 12 vertices, one edge added or removed"), qc("c22_cspb", 60, 3, "gc-csp on families of 9 vertices"), qc("c22_cspbo", 60, 3, "gc-csp --no-cycle with --include or --exclude on families of 9 vertices"), qc("c22_cspm", 40, 3, "gc-csp with up to 5 options of up to 4 values at once, chain of 9 vertices with short cuts"), qc("c22_cycm", 40, 7, "gc-cycle with up to 4 constraint options of up to 3 values at once, complete graph of 4 vertices with loops"), qc("c22_cycm5", 40, 7, "the same, complete graph of 5 vertices"), qc("c22_cycb", 40, 7, "gc-cycle, each action, on families of 10 vertices"), qc("c22_cycbo", 90, 7, "gc-cycle with each constraint option on cycles and stars of 9 vertices"), qc("c22_girthb", 40, 3, "girth and hamiltonian cycle on families of 9 vertices"),
        qc("c22_pathw", 60, 3, "gc-short-path on chain, star, chain with short cuts, star both ways of 70 vertices, with one edge added or removed"), qc("c22_cspw", 60, 3, "gc-csp --no-cycle on chain and star both ways of 70 vertices, with one edge added or removed"), qc("c22_cycl", 120, 1, "each length and score option of gc-cycle, with values around the length, on a cycle of 70 vertices with one edge added or removed"), qc("c22_cycw", 90, 1, "actions of gc-cycle on cycle and star both ways of 60 vertices, with one edge added or removed"), qc("c22_neg", 30, 7, "score options below zero on graphs of up to 2 edges"), qc("c22_ext", 30, 3, "queries and options on a cycle of extreme 64-bit ids with one extra edge"), qc("c22_names", 30, 7, "every name of the actions of gc-cycle"), qc("c22_bad1", 30, 1, "9 options with an arbitrary byte that is no number"), qc("c22_bad2", 40, 1, "2 arbitrary bytes"),
        tc("c22_path4", 600, 3, "gc-short-path, up to 4 edges"), tc("c22_csp3o", 900, 3, "gc-csp with two options, up to 3 edges"),
    ],
    "C23": [
        qc("c23_add2", 90, 3, "two simultaneous gc-add/gc-delete (4 pairs of kinds) with arbitrary one-digit ids on a graph of up to 1 command, interleaved at file system calls with up to 2 switches"), qc("c23_build", 60, 3, "gc-build against gc-add/gc-delete, up to 4 switches"), qc("c23_rest", 60, 3, "gc-clean, gc-build and updates, up to 4 switches"), qc("c23_any", 40, 3, "gc-add against gc-add, every interleaving"),
        qc("c23_locked", 30, 1, "each updating command on a locked graph"), qc("c23_lockedf", 60, 1, "each updating command on a locked graph, up to 2 file operations fail"), qc("c23_read", 30, 1, "each reading command on a locked graph"), qc("c23_fails", 30, 1, "commands that fail release the lock"), qc("c23_badargs", 30, 1, "8 calls with arguments that are not valid"), qc("c23_fault1", 30, 3, "each update, any one file system call but the removal of a file failing or writing half"), qc("c23_fault2", 30, 3, "any two such calls"),
        tc("c23_add", 300, 3, "pairs of updates, up to 4 switches"),
    ],
    "C24": [
        qc("c24_upd1", 40, 3, "each update with arbitrary one-digit ids on a graph of up to 1 command, any one file system call failing or writing half"), qc("c24_upd2", 40, 3, "any two calls"), qc("c24_build1", 40, 3, "gc-build, graph of up to 2 commands, any call"), qc("c24_build2", 40, 3, "any two calls"), qc("c24_clean1", 30, 3, "gc-clean, any call"), qc("c24_clean2", 30, 3, "gc-clean, any two calls"), qc("c24_init", 30, 3, "gc-init, any two calls"),
        qc("c24_bigadd", 40, 3, "gc-add of a clique of 20 vertices (two buffers of text), any call"), qc("c24_bigbuild", 40, 3, "gc-build of that graph, any call"), qc("c24_read1", 30, 3, "gc-desc, gc-topo-sort, gc-short-path, gc-csp and gc-cycle, any call"), qc("c24_read2", 30, 3, "any two calls"), qc("c24_rnd", 40, 3, "gc-random -v 3 -e 2, random numbers in 0..9, any call"),
        qc("c24_save1", 30, 3, "the library's save functions (TGF and commands), graph of up to 1 command, any call"), qc("c24_save2", 40, 3, "graph of up to 2 commands, any two calls"), qc("c24_bigsave", 60, 3, "two buffers of text, of edges or of isolated vertices, any call"),
    ],
    "C25": [
        qc("c25_v2e1", 30, 1, "-v 2 -e 1, up to 4 random numbers in 0..99"), qc("c25_v3e0", 20, 1, "-v 3 -e 0"), qc("c25_v3e2", 60, 1, "-v 3 -e 2, up to 4 random numbers in 0..9"), qc("c25_v2e3", 90, 1, "-v 2 -e 3, up to 4 random numbers in 0..99"), qc("c25_v40", 60, 1, "-v 40 -e 50, random numbers given except one, which is arbitrary in 0..60"), qc("c25_v25", 60, 1, "-v 25 and the default of 75 edges, one random number arbitrary in 0..30"), qc("c25_mirror", 90, 1, "24, 70 or 132 vertices; the i-th number drawn is n - i, so that most pairs are drawn both ways, and one is arbitrary"), qc("c25_v70", 60, 1, "-v 70 -e 20, one random number arbitrary in 0..99"), qc("c25_ask", 30, 3, "asked for confirmation"), qc("c25_nograph", 20, 1, "no graph"), qc("c25_locked", 20, 1, "locked graph"),
        tc("c25_v3e3", 300, 1, "-v 3 -e 3"), tc("c25_v3e2w", 300, 1, "-v 3 -e 2, numbers in 0..99"), tc("c25_v4e3", 900, 1, "-v 4 -e 3, up to 6 numbers"), tc("c25_v2e6", 900, 1, "-v 2, default number of edges, 7 numbers"), tc("c25_v11e1", 900, 1, "-v 11 -e 1, 10 numbers"),
    ],
    "C26": [
        q("c26_elist3", 30, 1, "lists of 3 arbitrary edge commands"), q("c26_long", 30, 3, "40 vertex and edge attributes, one arbitrary, and removals"), q("c26_elist4", 30, 1, "lists of 4 arbitrary edge commands"), q("c26_vertex", 60, 3, "arbitrary operation sequences on arbitrary vertices" + OA), q("c26_edge", 60, 3, "arbitrary operation sequences on arbitrary edges" + OA), q("c26_list", 60, 1, "lists of commands"), q("c26_vertex5", 60, 3, "5 operations"), q("c26_edge4", 60, 3, "4 operations"),
    ],
    "C27": [
        q("c27_path4", 30, 3, "paths of 0..4 arbitrary vertices" + OA), q("c27_path6", 30, 3, "paths of 0..6 arbitrary vertices"), q("c27_cycle4", 60, 3, "0..4 arbitrary vertices"), q("c27_cycle5", 120, 3, "0..5 arbitrary vertices"), q("c27_scored", 30, 1, "three arbitrary scored paths"), q("c27_edge", 30, 1, "two arbitrary edges"), q("c27_plong", 30, 3, "paths of 24 vertices, one arbitrary"), q("c27_clong", 30, 3, "20 vertices, one arbitrary"),
    ],
    "C28": [
        qc("c28_one", 40, 7, "each pattern of gc-add and gc-delete with 2 arbitrary one-digit ids on a graph of up to 1 command; death at any file system call or after any byte of a write"), qc("c28_four", 40, 7, "4 ids"), qc("c28_big", 60, 7, "two buffers of text (a star of 270 vertices); death at any call, inside a write after a spread of lengths"), qc("c28_any", 40, 7, "cycles and cliques of 3 ids, two options at once"),
    ],
}

BOUNDS = {}
ASSUME = [
    "The code executed is the optimised LLVM IR rustc produces for /repo's sources together with the harness; rustc's front end and optimiser are trusted, the symbolic executor's semantics are cross-checked by replaying sampled paths natively.",
    "HashMap and HashSet are modelled by association lists whose enumeration order is a symbolic choice (or insertion/reverse order where the bounds say so); hashing itself is not executed.",
    "Integer overflow of user weights is outside the bounds.",
    "Regular expressions, clap's argument vector, the file system, standard streams and random numbers: the regex crate is replaced by a small matcher for the patterns in use, clap is executed as it is, system calls are modelled; the same runs are replayed with the real crates on the real file system.",
]
NOT_APPLICABLE = {}
