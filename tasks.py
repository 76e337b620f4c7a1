"""What each check runs: entries of the harness and their parameters.

A task is (entry, params, nominal seconds). `quick` tasks must all complete in
both tiers; `thorough` adds the longer ones."""
from itertools import product


def each(entry, *axes, slow=None, skip=()):
    """the product of the axes; slow: {params: seconds}"""
    out = []
    for p in product(*axes):
        if p in skip:
            continue
        out.append((entry, p, (slow or {}).get(p, 1)))
    return out


def only(entry, *params, cost=1):
    return [(entry, p if isinstance(p, tuple) else (p,), cost) for p in params]


def in_(variant, mark, ts):
    """the same tasks in the build with these features; mark: a last parameter"""
    return [(f"{variant}@{e}", p + ((mark,) if mark else ()), c) for e, p, c in ts]


R = range
# what is repeated for every combination of features (C24)
SOME = (
    each("h_seg", (0, 2, 5, 9, 14, 20, 27, 33, 41, 46)) + each("h_fil", (0, 2, 6, 12, 20, 25, 30, 36, 40, 50, 58)) + only("h_types", 0, cost=7) + each("h_str", (0, 4, 9, 24), (0, 2))
    + only("h_num", 0, 3) + each("h_errpos", (3, 9, 14, 23, 36), (0,)) + each("h_total", (0, 1, 8, 17, 30)) + each("h_same", (3, 8))
    + each("h_nodes", R(0, 28, 3), (2,), (2,), (20,)) + each("h_located", R(1, 28, 3), (2,), (2,), (20,), (0,)) + each("h_slice", (3,), R(0, 8, 3)) + only("h_index", 3)
    + each("h_cmp", R(0, 17, 3), R(0, 17, 4), (2,)) + each("h_terms", (2, 9), R(0, 17, 3)) + each("h_logic", R(0, 4)) + each("h_filter", R(0, 31, 4), (2,), (2,))
    + each("h_fun", R(0, 26, 4), (2,), (2,)) + only("h_norm", (2, 0), (2, 1)) + each("h_ptr", (2,), (0, 1)) + each("h_rt", R(1, 12, 3)) + each("h_list", (2, 9)) + each("h_loclist", (2, 9))
    + only("h_dedup2", 0) + only("h_pathapi", 1) + each("h_same", (1, 5)) + only("h_serde", 1) + only("h_mem", 3, 4)
)
# and with somebody listening to what the feature `trace` tells
TRACED = (
    only("h_types", 0, cost=30) + each("h_seg", (0, 9)) + each("h_size", R(0, 28, 5), (3,), (0,)) + each("h_nodes", (10, 20), (2,), (2,), (20,)) + only("h_located", (7, 2, 2, 20, 0), cost=15)
    + each("h_terms", (2, 9), (0, 6)) + each("h_fun", R(0, 26, 6), (1,), (2,)) + each("h_filter", R(0, 31, 6), (1,), (2,)) + each("h_call", R(0, 34, 5), (9,)) + each("h_norm", (1,), (0, 1)) + only("h_mem", 3)
    + each("h_errpos", (23,), (0, 3)) + each("h_longerr", (15, 100), R(1, 5), R(0, 8), (9,))
)
QUICK = {
    "C01": each("h_seg", R(0, 50), slow={(32,): 36, (6,): 20}, skip={(32,), (36,), (37,)})
    + each("h_size", (0, 1, 2, 3, 5, 6, 11, 12, 13), (40, 300, 1100), (0,)) + each("h_size", (28, 29, 30, 32, 33, 37), (40, 300), (0,))
    + each("h_longuni", (40, 300), R(1, 5), (2, 3)),
    "C02": each("h_fil", R(0, 67), slow={(1,): 36, (9,): 30, (47,): 40, (56,): 40, (45,): 20, (46,): 20}, skip={(3,), (17,), (18,), (31,), (42,), (43,), (44,)}) + only("h_types", 0, cost=7)
    + each("h_size", (4, 7, 8, 9, 10, 14, 17, 18, 24, 25, 26, 27), (40, 300), (0,)) + each("h_size", (15, 16), (40, 150), (0,))
    + each("h_size", (31, 34, 35, 38, 39, 40, 41, 42), (40, 300), (0,)) + each("h_size", (36,), (40, 100), (0,)),
    "C03": each("h_str", R(0, 18), R(0, 3)) + each("h_str", (19, 20), (0, 1)) + each("h_str", R(22, 33), R(0, 3))
    + each("h_size", (1, 2, 3, 4), (40, 300, 1100, 4100), (0,))
    + each("h_longuni", (40, 300, 1100), R(1, 5), R(0, 5)),
    "C04": only("h_num", 0, 2, 3, 5, 7, 8) + each("h_int", R(1, 9), R(0, 7), (0,)) + only("h_int", (16, 0, 0), (16, 5, 0), (16, 6, 0), cost=26)
    + only("h_int", (16, 1, 10), (16, 4, 8), (16, 3, 6), (16, 2, 8), (17, 0, 10), (17, 1, 12), (17, 3, 12), cost=10)
    + each("h_intval", R(1, 5))
    + each("h_size", R(19, 24), (40, 300, 1100), (0,), skip={(21, 1100, 0)}),
    "C05": each("h_total", R(0, 37), slow={(22,): 54}, skip={(22,), (25,), (26,)})
    + each("h_errpos", (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 28, 29, 30, 31, 32, 33, 34, 35, 36), (0,)) + each("h_errpos", (3, 5, 9, 11, 14, 18, 28, 36), R(1, 5))
    + each("h_longerr", (10, 40, 300), R(1, 5), R(0, 8)),
    "C06": each("h_nodes", R(0, 28), (2,), (2,), (20,)) + each("h_nodes", R(0, 28), (2,), (2,), (7,), (555,)) + only("h_steps", (2, 2), cost=9)
    + each("h_deep", R(0, 28), (3,), (2,), (0,), (0,), (8,), (0,)) + each("h_deep", R(0, 28), (2,), (2,), (0,), (101,), (2,), (0,)) + each("h_deep", R(0, 28), (4,), (1,), (20,), (0,), (1,), (0,)) + each("h_wide", R(0, 28), (4,), (100,), (0,))
    + each("h_chaindoc", R(0, 7), (40, 130), R(0, 4), (0,)) + each("h_many", R(0, 9), (300,), (0, 1)) + each("h_many", R(0, 9), (5000,), (0,)) + each("h_scalar", R(0, 17)) + each("h_size", (28, 29, 32, 37), (40, 300), (0,)),
    "C07": each("h_slice", R(0, 4), R(0, 8)) + each("h_index", R(0, 5)) + only("h_nonarray", 0) + each("h_slicetext", R(0, 4), R(0, 3)) + only("h_bigidx", 0, cost=3),
    "C08": each("h_cmp", R(0, 17), R(0, 17), (2,)) + each("h_lit", R(0, 2), R(0, 17)) + each("h_terms", R(0, 18), R(0, 17)) + each("h_ops", R(0, 17), R(0, 17)) + only("h_strs", (4, 3), (3, 4), (4, 4), (2, 3), (3, 2)),
    "C09": each("h_logic", R(0, 4)) + each("h_chain", R(2, 7), R(0, 5), skip={(2, 2)})
    + each("h_chain", (3, 5), R(0, 5), R(1, 6), (4,)) + each("h_chain", (4,), R(0, 5), (0,), R(1, 5)) + each("h_size", (38, 39, 40), (40,), (0,)) + each("h_filter", R(0, 31), (2,), (2,)) + each("h_exist", R(0, 17))
    + each("h_deepfil", (0,), R(0, 31), (2,), (2,), (101,), (2,)) + each("h_deepfil", (0,), R(0, 31), (3,), (2,), (0,), (8,)) + each("h_widefil", (0,), R(0, 31), (4,), (0,))
    + each("h_deepfil", (2,), R(0, 30), (2,), (2,), (101,), (1,)) + each("h_deepfil", (2,), R(0, 30), (3,), (2,), (0,), (8,)) + each("h_widefil", (2,), R(0, 30), (3,), (100,))
    + each("h_size", (7, 8, 9, 10), (40, 300), (0,)) + each("h_size", (15, 16), (40, 150), (0,)),
    "C10": each("h_len", R(0, 5), R(0, 4)) + each("h_fun", R(0, 26), (2,), (2,)) + each("h_funkind", R(0, 17))
    + each("h_deepfil", (1,), R(0, 26), (2,), (2,), (101,), (2,)) + each("h_deepfil", (1,), R(0, 26), (3,), (2,), (0,), (3,)) + each("h_widefil", (1,), R(0, 26), (4,), (0,))
    + only("h_manycount", 300, 1100, 5000)
    + each("h_size", (24, 25, 26, 27), (40, 300, 1100), (0,))
    + each("h_longuni", (40, 300, 1100), R(1, 5), (6,)),
    "C11": each("h_regex", R(0, 5), R(0, 61), (0, 1), skip={(n, i, f) for n in (3, 4) for i in (38, 39, 41) for f in (0, 1)})
    + each("h_regex", (2, 3), R(0, 61), (3,), skip={(3, i, 3) for i in (38, 39, 41)}) + each("h_regexkind", R(0, 17), R(0, 17), skip={(4, 5), (4, 15), (5, 5), (5, 15), (15, 5), (15, 15)})
    + [("h_rxmem", (i, (i + 1) % 36, 1), 3) for i in range(36) if i != 23] + only("h_rxmem", (23, 0, 1), cost=3) + each("h_rxtwin", R(0, 15), (0, 1), (1,)) + each("h_rxlong", R(0, 12), (1, 40), (0, 40)) + each("h_rxlong", R(0, 12), (300,), (9,)) + each("h_rxlong", (0, 1, 6, 7, 8), (1100,), (3,))
    + each("h_longuni", (40,), (1, 2), (7,)),
    "C12": each("h_located", R(0, 28), (2,), (2,), (20,), (0, 1)) + each("h_located", R(0, 28), (2,), (2,), (4,), (0,), (555,)) + only("h_bigidx", 0, cost=3)
    + each("h_deep", R(0, 28), (3,), (2,), (0,), (0,), (8,), (2,)) + each("h_deep", R(0, 28), (2,), (2,), (0,), (101,), (2,), (2,)) + each("h_deep", R(0, 28), (4,), (1,), (20,), (0,), (1,), (2,)) + each("h_wide", R(0, 28), (4,), (100,), (2,))
    + each("h_chaindoc", R(0, 7), (40, 130), R(0, 4), (1,)) + each("h_chainloc", (70, 130, 300), R(0, 4)) + each("h_many", R(0, 9), (300,), (0, 1)) + each("h_many", R(0, 9, 2), (5000,), (1,)) + each("h_scalar", R(0, 17)),
    "C13": each("h_norm", R(0, 5), (0,)) + each("h_norm", R(1, 5), (1,)) + each("h_normidx", R(0, 4)) + only("h_idxtext", 11, 101) + only("h_idxtext", 1002, cost=20) + only("h_bigidx", 0, cost=3)
    + each("h_elem", R(0, 4), R(0, 4)) + each("h_chainloc", (70, 130, 300), R(0, 4))
    + each("h_longuni", (12, 40, 300), R(1, 5), (5,)),
    "C14": each("h_ptr", R(0, 6), (0, 1)) + each("h_ptr2", R(0, 4), R(0, 4)) + only("h_idxptr", 12, 101) + only("h_idxptr", 1002, cost=20) + only("h_bigidx", 0, cost=3)
    + each("h_chainloc", (70, 130, 300), R(0, 4))
    + each("h_longuni", (12, 40, 300), R(1, 5), (5,)),
    "C15": each("h_rt", R(0, 36), skip={(26,)}, slow={(0,): 21, (12,): 27, (15,): 27, (16,): 24}) + each("h_callrt", R(0, 12))
    + each("h_size", R(0, 43), (8, 150), (1,), skip={(36, 150, 1)}),
    "C16": each("h_list", R(0, 16)) + each("h_loclist", R(0, 16)) + each("h_iters", R(0, 16)) + each("h_dedup", R(0, 13), (2,), (2,), (0, 555))
    + only("h_dedup2", 0) + each("h_pathapi", (1, 2))
    + only("h_idxord", 12, 1002) + each("h_ord", R(0, 3), R(0, 3), skip={(0, 0)}) + each("h_iters2", R(0, 10)) + only("h_bigidx", 0, cost=3)
    + each("h_many", R(0, 9), (300,), (0, 1)) + each("h_many", R(0, 9), (5000,), (0, 1)) + each("h_elem", R(0, 4), R(0, 4)) + only("h_elem", (9, 0)),
    "C17": each("h_intfrom", R(0, 7)) + each("h_intops", R(0, 5)) + each("h_intstr", (1, 2, 5, 15), (0, 1), (0,))
    + only("h_intstr", (16, 0, 8), (16, 1, 8), (17, 0, 10), (17, 1, 10), cost=10) + each("h_intfmt", (1, 2)),
    "C18": each("h_custom", R(0, 12)) + each("h_call", R(0, 34), R(0, 17)) + each("h_callname", R(0, 22)) + only("h_argc", 0) + each("h_argkind", R(0, 8))
    + each("h_chain", (4,), (0, 2), R(1, 6), (0, 3)),
    "C19": each("h_same", R(0, 16)) + each("h_serde", R(0, 11), slow={(4,): 20}) + each("h_serde", (12, 13)) + only("h_serde2", 0)
    + each("h_mem", R(0, 12), skip={(5,)}) + only("h_mem2", 0, cost=3),
    # not a property: the executor against the native build, over much of std
    "SELF": each("h_self", R(0, 17), skip={(2,)}),
    "C20": each("h_conv", R(0, 16), R(0, 3)) + only("h_table", 0),
    "C22": each("h_cost", (0,), R(0, 35), (4, 10)) + each("h_cost", (1,), R(0, 40), (40,)) + each("h_cost", (1,), (0, 5, 7, 8, 14, 15, 16, 17, 18, 19, 20, 23, 24, 33, 34, 35, 36, 37, 38, 39), (200,))
    + each("h_costdoc", R(0, 28), R(0, 5), (20,), R(0, 3)) + each("h_costnest", R(0, 35), (2, 3, 4), (8,), skip={(20, f, 8) for f in (2, 3, 4)}),
    "C24": in_("trace", 777, TRACED) + in_("trace", None, SOME)
    + in_("functions", None, SOME + each("h_call", R(0, 34), (9, 14)) + each("h_callname", R(0, 14, 2)) + each("h_custom", R(0, 12, 3)))
    + in_("regex", None, SOME + each("h_regex", (0, 2), R(0, 61, 4), (0,)) + each("h_custom", R(0, 12, 3)))
    + in_("bare", None, SOME + each("h_custom", R(0, 12, 3)) + only("h_errpos", (3, 1), (9, 2), (14, 3))),
}
COSTS = {"h_cost", "h_costdoc", "h_costnest"}
# long ones, run by the thorough tier only
THOROUGH = {
    "C01": only("h_seg", 32, cost=40) + only("h_seg", 36, 37, cost=300),
    "C02": only("h_fil", 3, 17, 18, 31, 42, 43, 44, cost=300),
    "C03": each("h_str", (18, 19, 20, 21), (0, 1, 2), slow={}),
    "C04": only("h_num", 1, 4, 6, 9, cost=300) + only("h_int", (16, 1, 8), (16, 4, 6), (16, 3, 4), cost=100),
    "C05": only("h_total", 22, 25, 26, cost=100),
    "C06": only("h_nodes", (0, 3, 2, 0), cost=20),
    "C07": each("h_slice", (4, 5), R(0, 8)) + each("h_index", R(5, 8)),
    "C13": only("h_norm", (5, 1), (6, 1), (5, 0), cost=300),
    "C14": each("h_ptr", (6, 7), (0, 1)) + only("h_ptr2", (4, 3), (4, 4)),
    "C15": only("h_rt", 26, cost=100),
    "C17": only("h_intfmt", 3, 4, cost=200),
}

# where each entry must get to, so that a pass is never a vacuous one
REACH = {
    "h_self": (1,), "h_seg": (1, 2), "h_fil": (1, 2), "h_types": (1, 2), "h_str": (1, 2), "h_num": (1, 2), "h_int": (1, 2), "h_intval": (1, 2), "h_total": (1, 2),
    "h_rt": (1,), "h_same": (1, 2), "h_serde": (1, 2), "h_serde2": (1,), "h_errpos": (1, 2), "h_intfrom": (1, 2), "h_intops": (1, 2), "h_intstr": (1, 2), "h_intfmt": (1,),
    "h_custom": (1, 2), "h_call": (1, 2), "h_callname": (1, 2), "h_argc": (1, 2), "h_argkind": (1,), "h_chain": (1, 2), "h_conv": (1,), "h_table": (1, 2),
    "h_cost": (1, 2), "h_costdoc": (1,), "h_costnest": (1, 2),
    "h_chaindoc": (1,), "h_chainloc": (1,), "h_many": (1, 2), "h_manycount": (1,), "h_elem": (1, 2), "h_mem": (1, 2), "h_mem2": (1,), "h_rxmem": (1,), "h_rxtwin": (1,), "h_scalar": (1, 2), "h_rxlong": (1,), "h_size": (1,), "h_longerr": (1,), "h_longuni": (1,),
    "h_norm": (1,), "h_normidx": (1,), "h_ptr": (1,), "h_ptr2": (1,),
}
OUTSIDE = {
    "SELF": "-",
    "C01": "longer texts; more than a few free bytes at a time; non-ASCII blanks beyond the UTF-8 templates",
    "C02": "filters of more terms than the templates have, nesting deeper than three",
    "C03": "more than five free bytes, more than two escapes in one string",
    "C04": "17 and more free digits; exponents of more than two digits are decided only as far as the templates go; the rounding of decimal text is serde_json's",
    "C05": "longer texts, nesting that exhausts the stack (see C23)",
    "C06": "deeper or wider documents with more than one free place, more than two segments, segments not in the list",
    "C07": "longer arrays",
    "C08": "integers beyond 2^53 (not I-JSON), longer strings, larger or deeper arrays and objects",
    "C09": "deeper or wider documents, expressions not in the lists",
    "C10": "longer strings; deeper or wider documents",
    "C11": "longer subjects with more than two free characters; patterns not in the list: what is not an I-Regexp (\\d, \\b, flags, lazy quantifiers), and ^ and $; the regex crate is executed symbolically as it is, but not itself specified",
    "C12": "as C06",
    "C13": "longer names, deeper locations (300 segments with fixed names)",
    "C14": "longer names, deeper locations (300 segments with fixed names)",
    "C15": "queries not among the templates; equality of two nodelists is on the probe document",
    "C16": "longer lists (5000 with one free element); lists of nodes of different documents put together by hand",
    "C17": "multiplication of two free operands (two free 54-bit factors are beyond the solver; ten fixed factors instead); texts with more free digits",
    "C18": "other signatures; arguments to the macro that do not compile",
    "C19": "texts and documents outside the templates; threads (see C21)",
    "C20": "more than two nodes",
    "C22": "larger sizes, texts and documents of other forms; doubling is decided at the sizes given, growth beyond them is not; memory and stack",
    "C24": "other documents and texts than these; what a subscriber receives; combinations of features beyond these four (trace without the others)",
}
ASSUMPTIONS = [
    "the LLVM IR rustc emits for harness + crates (opt-level 1, overflow checks, panic=abort, fat LTO) is what runs; the executor's reading of it is confirmed on sampled paths by running the native build",
    "z3's verdicts; interval reasoning decides some branches first (cross-checked against z3 in development)",
    "allocation never fails; memory comes from a model allocator; loops are followed path by path with no unrolling limit other than the step limit, and a path that exceeds it is reported, not dropped",
    "the reference (harness/src/oracle.rs, rx.rs), written from RFC 9535, 9485, 6901, is right",
    "serde_json with its default features, the crate with its default features",
]
