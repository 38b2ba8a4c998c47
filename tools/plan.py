"""What each check runs: harness binary, entries, and the parameters (bounds) per tier.

Operand shapes are triples kind, least, greatest length; kind 0: all elements
arbitrary, kind 1: the fixed ladder 3, 9, 15, ..., kind 2: the fixed ladder 1, 3, 5, ...
"""


def S(lo, hi):
    return [0, lo, hi]


def L(lo, hi):
    return [1, lo, hi]


def D(lo, hi):
    return [2, lo, hi]


# keys of radix trees: kind, least and greatest number, size
def K(lo, hi, size):
    return [0, lo, hi, size]


def F(lo, hi, size):
    return [1, lo, hi, size]


def W(lo, hi):
    return [2, lo, hi, 0]


def P(n):
    return [3, n, n, 0]


# long fragments: 31, 63 or 255 fixed bytes and up to `size` arbitrary ones
def X(lo, hi, size):
    return [4, lo, hi, size]


# large trees against few arbitrary keys, either way
BIG_Q = [P(14) + K(1, 2, 2), K(1, 2, 2) + P(14), W(38, 38) + K(1, 1, 2), K(1, 1, 2) + W(38, 38)]
BIG_T = [P(24) + K(1, 2, 2), K(1, 2, 2) + P(24), W(42, 42) + K(1, 2, 2), K(1, 2, 2) + W(42, 42)]


PAIRS_Q = [S(0, 5) + S(0, 5), S(6, 14) + S(0, 2), S(0, 2) + S(6, 14), L(40, 40) + S(1, 2), S(1, 2) + L(40, 40), D(110, 110) + S(1, 1), S(1, 1) + D(110, 110)]
PAIRS_T = [S(0, 6) + S(0, 6), S(7, 20) + S(0, 3), S(0, 3) + S(7, 20), L(40, 40) + S(1, 3), S(1, 3) + L(40, 40), D(127, 127) + S(1, 2), S(1, 2) + D(127, 127)]
# elements that are wider than a byte: more than 256 of them; and more than 1000, against
# arbitrary ones near the first, the middle or the last
def N(m, lo, hi):
    return [100 + m, lo, hi]


LONG = [D(300, 300) + S(1, 1), S(1, 1) + D(300, 300)]
HUGE = [D(1050, 1050) + N(1050, 1, 2), N(1050, 1, 2) + D(1050, 1050)]
# joins: a seventh parameter, how many calls of the function may drop their key
JOIN_Q = [S(0, 4) + S(0, 4) + [4], S(4, 10) + S(0, 2) + [2], S(0, 2) + S(4, 10) + [2], L(40, 40) + S(1, 1) + [1], S(1, 1) + L(40, 40) + [1], D(110, 110) + S(1, 1) + [0], S(1, 1) + D(110, 110) + [0]]
JOIN_T = [S(0, 5) + S(0, 5) + [5], S(5, 12) + S(0, 2) + [4], S(0, 2) + S(5, 12) + [4], L(40, 40) + S(1, 2) + [2], S(1, 2) + L(40, 40) + [2], D(127, 127) + S(1, 1) + [1], S(1, 1) + D(127, 127) + [1]]
# B-tree nodes have up to 11 entries
BT_Q = [S(0, 3) + S(0, 3) + [4], L(14, 14) + S(1, 2) + [2], S(1, 2) + L(14, 14) + [2], D(100, 100) + S(1, 1) + [1], S(1, 1) + D(100, 100) + [1]]
BT_T = [S(0, 4) + S(0, 4) + [8], L(30, 30) + S(1, 2) + [4], S(1, 2) + L(30, 30) + [4]]
PLAN = {
    "C01": dict(
        bin="c01",
        bounds="operands: every pair of lengths and every value within the shapes; element types u8 and u16, inline capacities 2, 4 and 8 for operands and results",
        entries=[
            dict(entry="h_inherent", quick=PAIRS_Q, thorough=PAIRS_T),
            *[dict(entry=e, quick=PAIRS_Q + HUGE, thorough=PAIRS_T + LONG + HUGE) for e in ("h_trait", "h_operators")],
            dict(entry="h_inherent_wide", quick=[S(0, 3) + S(0, 3)] + HUGE, thorough=[S(0, 5) + S(0, 5)] + LONG + HUGE),
        ],
    ),
    "C02": dict(
        bin="c02",
        bounds="as C01; element types u8 and a wide one; left side inline, spilled, and spilled although it would fit; extend with every unsorted sequence of the lengths given",
        entries=[dict(entry=e, quick=PAIRS_Q + l, thorough=PAIRS_T + l) for e, l in (("h_assign_owned", []), ("h_assign_ref", []), ("h_assign_owned_wide", LONG + HUGE), ("h_with", []))]
        + [dict(entry="h_extend", quick=[S(0, 3) + S(0, 4)], thorough=[S(0, 4) + S(0, 5)])],
    ),
    "C03": dict(
        bin="c03",
        bounds="as C01; probes are arbitrary; u8 (contains) and u32",
        entries=[
            dict(entry="h_predicates", quick=PAIRS_Q, thorough=PAIRS_T),
            dict(entry="h_predicates_wide", quick=PAIRS_Q + LONG + HUGE, thorough=PAIRS_T + LONG + HUGE),
            dict(entry="h_contains", quick=[S(0, 20), L(40, 40)], thorough=[S(0, 40)]),
        ],
    ),
    "C04": dict(
        bin="c04",
        bounds="unsorted sequences: up to six arbitrary elements anywhere, and long fixed backgrounds (ascending, descending, zig-zag; up to 60) with arbitrary elements spread into them; keep-first and keep-last; one arbitrary, stateful comparison key",
        entries=[
            dict(entry="h_collect", quick=[[0, 5, 0], [1, 1, 15], [1, 1, 16], [1, 1, 33]], thorough=[[0, 6, 0], [1, 3, 15], [1, 3, 16], [2, 2, 60]]),
            dict(entry="h_collect_plain", quick=[[0, 4, 0], [1, 1, 17], [1, 1, 34], [1, 1, 100]], thorough=[[0, 6, 0], [1, 3, 17], [2, 2, 50], [1, 1, 200]]),
            dict(entry="h_from", quick=[[0, 4, 0], [1, 1, 17]], thorough=[[0, 5, 0], [1, 3, 17]]),
            dict(entry="h_map", quick=[[0, 4, 0], [1, 1, 16], [1, 1, 34]], thorough=[[0, 5, 0], [1, 3, 16]]),
            dict(entry="h_keep", quick=[[0, 4, 0], [1, 1, 16], [1, 1, 34]], thorough=[[0, 5, 0], [1, 3, 16], [2, 2, 34]]),
            dict(entry="h_stateful", quick=[[]], thorough=[[]]),
        ],
    ),
    "C05": dict(
        bin="c05",
        bounds="one step from every set within the shapes, every element and every predicate; and histories of several operations from the empty set; u8 with inline capacity 4, i64 with 1",
        entries=[
            dict(entry="h_step", quick=[S(0, 12), L(40, 40), D(127, 127)], thorough=[S(0, 24), L(40, 40), D(127, 127)]),
            dict(entry="h_step_wide", quick=[S(0, 8), D(300, 300), D(1050, 1050) + [1050]], thorough=[S(0, 16), D(600, 600), D(3000, 3000) + [3000]]),
            dict(entry="h_steps", quick=[[4]], thorough=[[5]]),
        ],
    ),
    "C06": dict(
        bin="c06",
        bounds="one step from every map within the shapes, every key, value and predicate; and histories of several operations from the empty map; u8 keys with inline capacity 4, i64 with 1",
        entries=[
            dict(entry="h_step", quick=[S(0, 12), L(40, 40), D(60, 60)], thorough=[S(0, 20), L(40, 40), D(127, 127)]),
            dict(entry="h_step_wide", quick=[S(0, 8), L(40, 40), D(300, 300) + [300], D(1050, 1050) + [1050]], thorough=[S(0, 12), D(60, 60), D(3000, 3000) + [3000]]),
            dict(entry="h_steps", quick=[[4]], thorough=[[5]]),
        ],
    ),
    "C07": dict(
        bin="c07",
        bounds="every pair of maps within the shapes, every function (fresh value or None per call; the number of None answers bounded by the seventh parameter)",
        entries=[dict(entry="h_join", quick=JOIN_Q, thorough=JOIN_T), dict(entry="h_join_wide", quick=JOIN_Q + [x + [0] for x in LONG + HUGE], thorough=JOIN_T + [x + [0] for x in LONG + HUGE])],
    ),
    "C08": dict(
        bin="c08",
        bounds="as C07 and C02",
        entries=[
            dict(entry="h_join", quick=JOIN_Q, thorough=JOIN_T),
            dict(entry="h_join_wide", quick=JOIN_Q + [x + [0] for x in LONG + HUGE], thorough=JOIN_T + [x + [0] for x in LONG + HUGE]),
            dict(entry="h_merge", quick=PAIRS_Q, thorough=PAIRS_T),
            dict(entry="h_merge_wide", quick=PAIRS_Q + LONG + HUGE, thorough=PAIRS_T + LONG + HUGE),
            dict(entry="h_extend", quick=[[3, 3]], thorough=[[4, 4]]),
        ],
    ),
    "C22": dict(
        bin="c22",
        bounds="as C07; a B-tree node holds up to 11 entries, shapes of 14 and 30 have inner nodes",
        entries=[dict(entry="h_join", quick=BT_Q, thorough=BT_T), dict(entry="h_join_with", quick=BT_Q, thorough=BT_T), dict(entry="h_view", quick=[S(0, 4), L(14, 14), D(30, 30)], thorough=[S(0, 8), D(127, 127)]), dict(entry="h_archived", quick=[S(0, 2) + S(0, 2) + [4], L(14, 14) + S(1, 1) + [1], S(1, 1) + L(14, 14) + [1]], thorough=BT_T)],
    ),
    "C09": dict(
        bin="c09",
        bounds="pairs within the shapes, each arrived at by up to five different ways; triples of total maps of up to one (two) entries for transitivity",
        entries=[
            dict(entry="h_set", quick=[S(0, 5) + S(0, 5), L(20, 20) + L(20, 20), D(110, 110) + S(0, 1), S(0, 1) + D(110, 110)], thorough=[S(0, 7) + S(0, 7), L(30, 30) + L(30, 30), D(127, 127) + S(0, 2)]),
            dict(entry="h_set_wide", quick=[S(0, 5) + S(0, 5), L(20, 20) + L(20, 20), D(300, 300) + S(0, 1)], thorough=[S(0, 7) + S(0, 7), L(30, 30) + L(30, 30)]),
            dict(entry="h_map", quick=[S(0, 5) + S(0, 5), L(20, 20) + L(20, 20), D(60, 60) + S(0, 1)], thorough=[S(0, 7) + S(0, 7), L(30, 30) + L(30, 30)]),
            dict(entry="h_clone", quick=[S(0, 4), S(17, 17)], thorough=[S(0, 8), S(33, 33)]),
            dict(entry="h_total_set", quick=[S(0, 5) + S(0, 5), L(20, 20) + L(20, 20), D(60, 60) + S(0, 1)], thorough=[S(0, 7) + S(0, 7), L(30, 30) + L(30, 30)]),
            dict(entry="h_total_map", quick=[S(0, 3) + S(0, 3), L(20, 20) + S(0, 1), S(0, 1) + D(20, 20), L(12, 12) + L(12, 12)], thorough=[S(0, 4) + S(0, 4), L(40, 40) + S(0, 2), S(0, 2) + D(40, 40)]),
            dict(entry="h_total_map_order", quick=[[1]], thorough=[[2]]),
        ],
    ),
    "C10": dict(
        bin="c10",
        bounds="pairs of lists within the shapes in all polarities, all values of u8; binary operators, assigning forms, single steps",
        entries=[
            dict(entry="h_binary", quick=[S(0, 3) + S(0, 3), S(4, 9) + S(0, 2), S(0, 2) + S(4, 9), L(40, 40) + S(1, 1), S(1, 1) + L(40, 40), D(110, 110) + S(1, 1), S(1, 1) + D(110, 110)], thorough=[S(0, 4) + S(0, 4), S(5, 14) + S(0, 2), S(0, 2) + S(5, 14), L(40, 40) + S(1, 2), S(1, 2) + L(40, 40), D(127, 127) + S(1, 1), S(1, 1) + D(127, 127)]),
            dict(entry="h_unary", quick=[S(0, 10), L(40, 40)], thorough=[S(0, 20), D(127, 127)]),
        ],
    ),
    "C11": dict(
        bin="c11",
        bounds="pairs of lists within the shapes in all polarities. Lists shorter than the 256 values of u8",
        entries=[dict(entry="h_predicates", quick=PAIRS_Q, thorough=PAIRS_T)],
    ),
    "C12": dict(
        bin="c12",
        bounds="total maps within the shapes over u8 keys with wrapping u8 values, every default; combining functions: a family with three arbitrary masks (all arithmetic, supremum, infimum by themselves); multiplication and division with values below 8 if there are more than two entries",
        entries=[
            dict(entry="h_index", quick=[S(0, 5), L(20, 20), D(60, 60)], thorough=[S(0, 8), D(127, 127)]),
            dict(entry="h_constants", quick=[[]]),
            dict(entry="h_combine", quick=[S(0, 2) + S(0, 2), L(20, 20) + S(1, 1), S(1, 1) + L(20, 20)], thorough=[S(0, 3) + S(0, 2), S(0, 2) + S(0, 3), L(40, 40) + S(1, 1), S(1, 1) + L(40, 40), L(12, 12) + L(12, 12)]),
            dict(entry="h_map_values", quick=[S(0, 5), L(20, 20), D(60, 60)], thorough=[S(0, 7), D(127, 127)]),
        ],
    ),
    "C21": dict(
        bin="c21",
        bounds="operands within the shapes; one panic at any of the first n calls of user code (n: seventh/ninth parameter) or none",
        entries=[
            dict(entry="h_set", quick=[S(0, 3) + S(0, 2) + [12]], thorough=[S(0, 4) + S(0, 3) + [20]]),
            dict(entry="h_build", quick=[[3, 0, 0, 0, 0, 0, 8]], thorough=[[4, 0, 0, 0, 0, 0, 16]]),
            dict(entry="h_map", quick=[S(0, 4) + S(0, 2) + [12]], thorough=[S(0, 4) + S(0, 3) + [20]]),
            dict(entry="h_total", quick=[S(0, 2) + S(0, 2) + [8]], thorough=[S(0, 3) + S(0, 3) + [16]]),
            dict(entry="h_tree", quick=[K(0, 3, 2) + K(0, 1, 2) + [8], K(0, 2, 2) + K(2, 2, 1) + [8]], thorough=[K(0, 3, 2) + K(0, 2, 2) + [16]]),
            dict(entry="h_arc_tree", quick=[K(0, 3, 2) + K(0, 1, 2) + [8], K(0, 2, 2) + K(2, 2, 1) + [8]], thorough=[K(0, 3, 2) + K(0, 2, 2) + [16]]),
            dict(entry="h_into_iter", quick=[K(0, 3, 2)], thorough=[K(0, 4, 2)]),
            dict(entry="h_into_iter_outlived", quick=[K(0, 2, 1)]),
        ],
    ),
    "C23": dict(
        bin="c23",
        bounds="inline capacities 1, 2, 4 and 8 (8: one operand of at most one element, thorough: four); shrinking operations: the shapes",
        entries=[
            *[dict(entry="h_small_%s_%d" % (n, c), quick=[[8, 8]] if c < 8 else [[8, 1], [1, 8]], thorough=[[8, 8]] if c < 8 else [[8, 4], [4, 8]]) for c in (1, 2, 4, 8) for n in ("set", "union_with", "map", "map_with")],
            dict(entry="h_heap", quick=[[4, 4]]),
            dict(entry="h_shrinking", quick=PAIRS_Q, thorough=PAIRS_T),
            dict(entry="h_shrink_to_fit", quick=[[6, 3]], thorough=[[12, 8]]),
        ],
    ),
    "C24": dict(
        bin="c24",
        bounds="all lengths within the shapes, every number of steps of iteration",
        entries=[
            dict(entry="h_set", quick=[S(0, 6), S(20, 20)], thorough=[S(0, 20)]),
            dict(entry="h_set_wide", quick=[S(0, 6), D(300, 300)], thorough=[S(0, 12), D(1050, 1050)]),
            dict(entry="h_map", quick=[S(0, 6), S(20, 20)], thorough=[S(0, 20)]),
            dict(entry="h_sorted_ops", quick=[S(0, 3) + S(0, 3)], thorough=[S(0, 5) + S(0, 5)]),
            dict(entry="h_provided", quick=[S(0, 4)], thorough=[S(0, 8), S(20, 20)]),
            dict(entry="h_sorted_pairs", quick=[S(0, 3) + S(0, 3)], thorough=[S(0, 5) + S(0, 5)]),
        ],
    ),
    "C13": dict(
        bin="c13",
        bounds="keys: all byte strings within the sizes (arbitrary bytes), long fixed prefixes cut at 0, 3, 15, 16, 17 bytes (a fragment spills at 16) or at 31, 63, 255 with arbitrary tails, wide fixed trees (up to 38 keys) and deep ones (14 nested prefixes with branches); any order of insertion",
        entries=[
            dict(entry="h_insert", quick=[K(0, 4, 2) + [3], K(0, 3, 3) + [4], F(1, 2, 2) + [1], X(1, 2, 2) + [1], P(14) + [2], W(38, 38) + [2]], thorough=[K(0, 5, 2) + [3], K(0, 4, 3) + [4], F(1, 3, 1) + [1], P(30) + [3]]),
            dict(entry="h_insert_more", quick=[K(0, 3, 2) + [3], F(1, 2, 1) + [1], X(1, 2, 1) + [1], W(12, 12) + [2], P(10) + [2]], thorough=[K(0, 4, 3) + [3], P(14) + [2], F(1, 3, 1) + [1], W(30, 30) + [2]]),
            dict(entry="h_equal", quick=[K(0, 3, 2) + K(0, 3, 2), F(1, 2, 1) + F(1, 2, 1), X(1, 2, 1) + X(1, 2, 1)], thorough=[K(0, 4, 2) + K(0, 4, 2), K(0, 3, 3) + K(0, 3, 3)]),
            dict(entry="h_small", quick=[[4]]),
            dict(entry="h_wide", quick=[[40, 2]], thorough=[[100, 2]]),
            dict(entry="h_provided", quick=[K(0, 3, 2)], thorough=[K(0, 4, 2), W(12, 12)]),
        ],
    ),
    "C14": dict(
        bin="c14",
        bounds="pairs of trees within the shapes of C13, every function by values, both answers for keys in the left tree only",
        entries=[
            dict(entry="h_combine", quick=[K(0, 3, 2) + K(0, 2, 2), K(0, 2, 2) + K(3, 3, 2), K(1, 2, 3) + K(1, 2, 3), F(1, 2, 1) + F(1, 1, 1), F(1, 1, 1) + F(2, 2, 1), X(1, 2, 1) + X(1, 1, 1), X(1, 1, 1) + X(2, 2, 1), W(12, 12) + K(1, 2, 2), K(1, 2, 2) + W(12, 12)] + BIG_Q, thorough=[K(0, 3, 2) + K(0, 3, 2), F(1, 2, 1) + F(1, 2, 1)] + BIG_T),
            dict(entry="h_other_values", quick=[K(0, 2, 2) + K(0, 2, 2)], thorough=[K(0, 3, 2) + K(0, 3, 2)]),
            dict(entry="h_chain", quick=[K(0, 2, 1) + K(0, 2, 1) + K(0, 1, 2)], thorough=[K(0, 2, 2) + K(0, 2, 2) + K(0, 2, 2)]),
        ],
    ),
    "C15": dict(
        bin="c15",
        bounds="pairs of trees within the shapes of C13",
        entries=[
            dict(entry="h_predicates", quick=[K(0, 3, 2) + K(0, 3, 2), K(1, 2, 3) + K(1, 2, 3), F(1, 2, 1) + F(1, 1, 1), F(1, 1, 1) + F(2, 2, 1), X(1, 2, 1) + X(1, 1, 1), X(1, 1, 1) + X(2, 2, 1), W(12, 12) + K(1, 2, 2), K(1, 2, 2) + W(12, 12)] + BIG_Q, thorough=[K(0, 4, 2) + K(0, 3, 3), K(0, 3, 3) + K(0, 4, 2), F(1, 2, 2) + F(1, 2, 1)] + BIG_T),
            dict(entry="h_other_values", quick=[K(0, 2, 2) + K(0, 2, 2)], thorough=[K(0, 3, 2) + K(0, 3, 2)]),
            dict(entry="h_combined", quick=[K(0, 1, 2) + K(0, 2, 1) + K(0, 1, 2)], thorough=[K(0, 2, 2) + K(0, 2, 2) + K(0, 2, 2)]),
        ],
    ),
    "C16": dict(
        bin="c16",
        bounds="trees within the shapes of C13; prefixes: arbitrary ones and ones near a key; every predicate",
        entries=[
            dict(entry="h_prefix", quick=[K(0, 3, 3) + [3], F(1, 2, 1) + [1], X(1, 2, 1) + [1], W(12, 12) + [2], P(14) + [2], W(38, 38) + [1]], thorough=[K(0, 4, 3) + [4], F(1, 3, 1) + [1], W(42, 42) + [2], P(30) + [3]]),
            dict(entry="h_prefixes", quick=[K(0, 3, 2) + K(0, 3, 2), K(1, 2, 3) + K(1, 2, 3), F(1, 2, 1) + F(1, 1, 1), X(1, 2, 1) + X(1, 1, 1), W(12, 12) + K(1, 2, 2), K(1, 2, 2) + W(12, 12)] + BIG_Q, thorough=[K(0, 4, 2) + K(0, 3, 2), K(0, 3, 3) + K(0, 3, 3), F(1, 2, 1) + F(1, 2, 1)] + BIG_T),
        ],
    ),
    "C17": dict(
        bin="c17",
        bounds="trees within the shapes of C13; one change of the tree, then one of the snapshot, then another",
        entries=[dict(entry=f"h_{f}_insert", quick=[K(0, 3, 2) + [3], F(1, 2, 1) + [1], X(1, 2, 1) + [1]], thorough=[K(0, 4, 2) + [3], F(1, 3, 1) + [1], X(1, 3, 1) + [1]]) for f in ("arc", "lazy")]
        + [dict(entry=f"h_{f}_combine", quick=[K(0, 2, 2) + K(0, 2, 2), W(12, 12) + K(1, 1, 2), P(14) + K(1, 1, 2)], thorough=[K(0, 3, 2) + K(0, 3, 2)] + BIG_T) for f in ("arc", "lazy", "arc_from", "lazy_from")]
        + [dict(entry=f"h_{f}_predicates", quick=[K(0, 2, 2) + K(0, 2, 2)], thorough=[K(0, 3, 2) + K(0, 3, 2)]) for f in ("arc", "lazy")]
        + [dict(entry=f"h_{f}_prefix", quick=[K(0, 2, 2) + [2], F(1, 1, 1) + [1]], thorough=[K(0, 3, 3) + [3], F(1, 2, 1) + [1]]) for f in ("arc", "lazy")]
        + [dict(entry=f"h_{f}_prefixes", quick=[K(0, 2, 2) + K(0, 2, 2)], thorough=[K(0, 3, 2) + K(0, 3, 2)]) for f in ("arc", "lazy")]
        + [dict(entry=f"h_{f}_isolated", quick=[K(0, 2, 2) + K(0, 1, 2), K(3, 3, 2) + K(1, 1, 2), P(8) + K(1, 1, 2)], thorough=[K(0, 3, 2) + K(0, 2, 2), P(10) + K(1, 2, 2), W(20, 20) + K(1, 1, 2)]) for f in ("arc", "lazy")]
        + [dict(entry="h_arc_all_arcs", quick=[K(0, 2, 2) + K(0, 2, 2)], thorough=[K(0, 3, 2) + K(0, 3, 2)]), dict(entry="h_mixed", quick=[K(0, 2, 2) + K(0, 2, 2)], thorough=[K(0, 3, 2) + K(0, 3, 2)])],
    ),
    "C18": dict(
        bin="c18",
        bounds="collections within the shapes; archived with rkyv's default serializers, buffer of exactly the size needed",
        entries=[
            dict(entry="h_set", quick=[S(0, 5), L(40, 40)], thorough=[S(0, 12)]),
            dict(entry="h_set_wide", quick=[S(0, 4), D(300, 300)], thorough=[S(0, 8), D(1050, 1050)]),
            dict(entry="h_set_ops", quick=[S(0, 3) + S(0, 3), S(4, 6) + S(0, 2), S(0, 2) + S(4, 6)], thorough=[S(0, 4) + S(0, 4), S(5, 10) + S(0, 2), S(0, 2) + S(5, 10)]),
            dict(entry="h_set_strings", quick=[[2, 2]], thorough=[[3, 2]]),
            dict(entry="h_map", quick=[S(0, 5), L(40, 40)], thorough=[S(0, 12)]),
            dict(entry="h_map_wide", quick=[S(0, 4), D(300, 300)], thorough=[S(0, 8), D(600, 600)]),
            dict(entry="h_map_joins", quick=[S(0, 3) + S(0, 3) + [3], L(20, 20) + S(1, 1) + [1], S(1, 1) + L(20, 20) + [1]], thorough=[S(0, 4) + S(0, 4) + [5], L(40, 40) + S(1, 1) + [1], S(1, 1) + L(40, 40) + [1]]),
            dict(entry="h_tree", quick=[K(0, 3, 2) + [3], F(1, 2, 1) + [1], X(1, 2, 1) + [1]], thorough=[K(0, 4, 2) + [3], F(1, 3, 1) + [1], X(1, 3, 1) + [1]]),
            dict(entry="h_tree_ops", quick=[K(0, 2, 2) + K(0, 2, 2), W(12, 12) + K(1, 1, 2), K(1, 1, 2) + W(12, 12), P(8) + K(1, 1, 2), K(1, 1, 2) + P(8)], thorough=[K(0, 3, 2) + K(0, 3, 2), W(30, 30) + K(1, 1, 2), K(1, 1, 2) + W(30, 30)]),
            dict(entry="h_shared", quick=[K(0, 2, 1) + K(0, 1, 2)], thorough=[K(0, 3, 2) + K(0, 2, 2)]),
        ],
    ),
    "C19": dict(
        bin="c19",
        bounds="buffers of the lengths given with every byte arbitrary; archives of small collections with windows of 1, 2, 4 or 8 arbitrary bytes at every place (one or two windows)",
        entries=[
            dict(entry="h_set", quick=[[0, 16]], thorough=[[0, 24]], covers=["refused", "accepted with several elements"]),
            dict(entry="h_set_wide", quick=[[8, 24]], thorough=[[8, 32]], covers=["refused", "accepted with several elements"]),
            dict(entry="h_set_bool", quick=[[8, 12]], thorough=[[8, 16]], covers=["accepted with several elements"]),
            dict(entry="h_set_char", quick=[[8, 20]], thorough=[[8, 24]], covers=["accepted with several elements"]),
            dict(entry="h_map", quick=[[8, 20]], thorough=[[8, 28]], covers=["refused", "accepted with several mappings"]),
            dict(entry="h_map_wide", quick=[[8, 20]], thorough=[[8, 28]], covers=["refused", "accepted with several mappings"]),
            dict(entry="h_tree", quick=[[0, 24], [40, 40], [44, 44]], thorough=[[0, 48]], covers=["refused", "accepted with a mapping", "accepted with children"]),
            dict(entry="h_arc", quick=[[0, 24], [40, 40], [44, 44]], thorough=[[0, 52]], covers=["refused", "accepted with a mapping"]),
            dict(entry="h_set_damaged", quick=[[5, 4, 0], [5, 2, 1]], thorough=[[8, 8, 0], [8, 4, 1]], covers=["refused", "accepted with several elements"]),
            dict(entry="h_map_damaged", quick=[[4, 4, 0], [4, 2, 1]], thorough=[[6, 8, 0], [5, 4, 1]], covers=["refused", "accepted with several mappings"]),
            dict(entry="h_tree_damaged", quick=[[0, 4, 0], [1, 4, 0], [2, 4, 0], [3, 4, 0], [1, 1, 1]], thorough=[[2, 8, 0], [3, 8, 0], [1, 2, 1], [3, 1, 1]], covers=["refused", "accepted with children"]),
            dict(entry="h_arc_damaged", quick=[[0, 4, 0], [1, 4, 0], [2, 4, 0], [3, 4, 0], [1, 1, 1]], thorough=[[2, 8, 0], [3, 8, 0], [1, 2, 1], [3, 1, 1]], covers=["refused", "accepted with children"]),
        ],
    ),
    "C20": dict(
        bin="c20",
        bounds="an abstract data format (token stream) with every size hint (none, or any u64 among those the harness draws); sequences within the bounds of C04",
        entries=[
            dict(entry="h_set", quick=[S(0, 5), L(40, 40)], thorough=[S(0, 10), L(40, 40)]),
            dict(entry="h_set_wide", quick=[S(0, 5), D(1050, 1050)], thorough=[S(0, 10)]),
            dict(entry="h_set_any", quick=[[0, 4, 0], [1, 1, 16], [1, 1, 33]], thorough=[[0, 5, 0], [1, 3, 16], [2, 2, 40]]),
            dict(entry="h_set_any_wide", quick=[[0, 4, 0], [1, 1, 80]], thorough=[[0, 5, 0], [1, 1, 160]]),
            dict(entry="h_set_bad", quick=[[4]], thorough=[[6]]),
            dict(entry="h_map", quick=[S(0, 5), L(40, 40)], thorough=[S(0, 10), L(40, 40)]),
            dict(entry="h_map_any", quick=[[0, 4, 0], [1, 1, 16], [1, 1, 33], [1, 1, 100]], thorough=[[0, 5, 0], [1, 3, 16], [2, 2, 40]]),
            dict(entry="h_map_bad", quick=[[3]], thorough=[[5]]),
            dict(entry="h_total_set", quick=[S(0, 5)], thorough=[S(0, 10)]),
            dict(entry="h_total_set_any", quick=[[0, 4, 0], [1, 1, 16]], thorough=[[0, 5, 0], [1, 2, 33]]),
            dict(entry="h_total_map", quick=[S(0, 4)], thorough=[S(0, 6)]),
            dict(entry="h_total_map_any", quick=[[0, 4, 0]], thorough=[[0, 5, 0]]),
        ],
    ),
    "C25": dict(
        bin="c25",
        threads=True,
        bounds="two threads (three where stated), each with one operation on its own snapshot of a tree within the shapes (or on the same tree, by reference), a key next to the tree's keys; every order of the atomic operations with at most the given number of preemptions; atomic operations take effect in one order (no stale relaxed loads), data races by happens-before",
        entries=[dict(entry=f"h_{f}", quick=[P(4) + [2, 2, 1], P(4) + [2, 1, 2], K(0, 2, 1) + [2, 1, 1], W(3, 3) + [2, 2, 1]], thorough=[P(6) + [2, 3, 2], P(3) + [3, 1, 1], K(0, 2, 2) + [2, 2, 2], W(6, 6) + [2, 2, 2]]) for f in ("arc", "lazy")]
        + [dict(entry=f"h_{f}_from", quick=[P(4) + [2, 1, 1]], thorough=[P(4) + [2, 2, 2]]) for f in ("arc", "lazy")]
        + [dict(entry="h_lazy_archived", quick=[P(4) + [2, 1, 2], K(0, 2, 1) + [2, 1, 1]], thorough=[P(6) + [2, 2, 2], K(0, 2, 2) + [2, 2, 2]])]
        + [dict(entry=f"h_{f}_first", quick=[[2, 2]], thorough=[[2, 3], [3, 2]]) for f in ("arc", "lazy")]
        + [dict(entry="h_arc_shared", quick=[P(4) + [2, 2, 2], K(0, 2, 1) + [2, 1, 1]], thorough=[P(6) + [2, 3, 2], P(4) + [3, 1, 1]])],
    ),
    "C26": dict(
        bin="c26",
        bounds="comparisons, copies and live values are counted exactly on every path. Searches: sets and maps within the shapes (up to 1050 entries), every element; tree nodes with up to 250 children and 60 nested keys. Building: the sequences of C04, up to 1050 elements, few of them arbitrary. Snapshots: trees of up to 512 keys, one arbitrary key",
        entries=[
            dict(entry="h_search", quick=[S(0, 12) + [0], D(127, 127) + [0], D(1050, 1050) + [1050]], thorough=[S(0, 40) + [0], D(300, 300) + [0], D(3000, 3000) + [3000]]),
            dict(entry="h_tree_search", quick=[[38, 20], [250, 60]], thorough=[[127, 60], [1000, 30]]),
            dict(entry="h_sorted", quick=[S(0, 8), D(300, 300), D(1050, 1050)], thorough=[S(0, 16), D(3000, 3000)]),
            dict(entry="h_unsorted", quick=[[0, 5, 0], [1, 1, 34], [0, 0, 1000]], thorough=[[0, 6, 0], [1, 1, 60], [1, 1, 200], [0, 0, 3000]]),
            dict(entry="h_storage", quick=[[60, 8, 1], [100, 10, 1], [1000, 20, 0]], thorough=[[60, 8, 3], [100, 10, 2], [3000, 60, 0]]),
            *[dict(entry="h_share_%s" % f, quick=[[2, 3], [3, 5], [2, 20], [4, 4]], thorough=[[3, 8], [5, 3], [2, 40]]) for f in ("arc", "lazy", "plain")],
        ],
    ),
}
