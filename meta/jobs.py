"""The symbolic execution jobs that decide each property."""
CRATE = {"tools": "harness-tools", "gbmo": "harness-tools"}
FEATURE = {"glue": "glue", "gbmo": "gbmo"}

ASSUME = [
    "the compiler front end (rustc to LLVM IR at opt-level 1 with fat LTO, debug assertions and overflow checks on) and z3 are trusted",
    "allocation never fails below 2^31 bytes; threads, files and the clock are not part of the explored code",
    "hash maps use the fxhash feature, so one iteration order per content is explored",
]
_A = {}
_B = {}
_J = {}


def job(prop, bin, entry, *args, tier="both", w=(1,), **kw):
    for p in prop.split():
        _J.setdefault(p, []).append(dict(bin=bin, entry=entry, args=list(args), tier=tier, witness=list(w), **kw))


def bound(prop, text):
    for p in prop.split():
        _B.setdefault(p, []).append(text)


def assume(prop, text):
    for p in prop.split():
        _A.setdefault(p, []).append(text)


def jobs(prop, tier):
    # "quick" jobs are dropped in the thorough tier when a deeper one replaces them
    return [dict(j) for j in _J.get(prop, []) if j["tier"] == "both" or j["tier"] == tier]


def bounds(prop):
    return _B.get(prop, [])


def assumptions(prop):
    return _A.get(prop, [])


def props():
    return sorted(_J)


# ------------------------------------------------------------------ types
T = "types"
job("T01", T, "lit_new", w=(1, 2))
job("T01", T, "var_ops")
job("T01", T, "ipasir", w=(1, 2))
job("T01", T, "lit_order", w=())
job("T01", T, "lit_arith", w=())
job("T01", T, "lit_fmt", w=())
bound("T01", "all 2^32 indices, all 2^32 IPASIR integers, both polarities; Display for indices up to 120")

job("T02", T, "asg_ops", 2, 0)
job("T02", T, "asg_ops", 2, 1)
job("T02", T, "asg_ops", 3, 0)
job("T02", T, "asg_ops", 3, 1, tier="thorough")
job("T02", T, "asg_ops", 4, 0, tier="thorough")
job("T02", T, "asg_iter", 5)
job("T02", T, "asg_iter", 8, tier="thorough")
job("T02", T, "asg_from", 5, w=())
bound("T02", "histories of up to 3 (thorough 4) operations on 3 variables from an empty or 2-variable assignment; iteration over 5 (8) variables")

for n in (2, 4, 5):
    job("T03", T, "vline_sat", n, 0, 0, w=(1, 2), cost=n)
    job("T03", T, "vline_sat", n, 1, 0, w=(1, 2), cost=n)
    job("T03", T, "vline_sat", n, 0, 1, w=(0,), cost=n)
    job("T03", T, "vline_sat", n, 1, 1, w=(0,), cost=n)
for n in (7,):
    for x in ((0, 0), (1, 0), (0, 1), (1, 1)):
        job("T03", T, "vline_sat", n, *x, tier="thorough", w=(0,), cost=n)
for n in (1, 2, 6):
    for x in (0, 1):
        job("T03", T, "vline_mse", n, x, w=(1,) if n > 1 else ())
for n in (3, 5):
    job("T03", T, "vline_pb", n, w=(1, 2))
job("T03", T, "vline_pb", 7, w=(1, 2), tier="thorough")
job("T03", T, "vline_any", 3, w=(1, 2))
job("T03", T, "vline_any", 5, w=(1, 2), tier="thorough")
for a in ((0, 2, 2), (2, 2, 2), (1, 2, 2), (1, 3, 2), (1, 2, 3), (0, 3, 1)):
    job("T03", T, "vline_ext", *a)
for a in ((0, 3, 3), (2, 3, 3), (1, 4, 3)):
    job("T03", T, "vline_ext", *a, tier="thorough", max_time=300)
bound("T03", "SAT, MaxSAT-evaluation and PB value lines with up to 5 (thorough 7) symbolic characters from the grammar's alphabet (digits 0129, sign, space, newline, letters); 3 (5) pieces with multi-byte characters; extending assignments to 1-3 variables by 2-3 values in one or two lines")

for x in ((0, 2), (1, 2), (2, 2), (3, 3), (4, 3)):
    job("C01", T, "cl_eval", *x)
job("C01", T, "cl_eval", 5, 3, tier="thorough")
for x in ((0, 1), (1, 2), (2, 2), (3, 2), (4, 3)):
    job("C01", T, "cl_norm", *x, w=(2,))
job("C01", T, "cl_norm", 5, 3, w=(1, 2), tier="thorough")
for x in ((0, 1), (1, 2), (2, 2), (3, 2), (4, 2)):
    job("C01", T, "cl_sanitize", *x)
job("C01", T, "cl_sanitize", 4, 3, tier="thorough")
for x in ((1, 2), (3, 2), (4, 3)):
    job("C01", T, "cl_edit", *x)
job("C01", T, "cl_edit", 5, 3, tier="thorough")
bound("C01", "clauses of up to 4 (thorough 5) literals over up to 3 variables, every partial assignment")

for n in (0, 1, 2, 3, 4):
    job("C02", T, "card_eval", n)
    job("C02", T, "card_class", n)
for n in (6,):
    job("C02", T, "card_eval", n, tier="thorough")
    job("C02", T, "card_class", n, tier="thorough")
bound("C02", "up to 4 (thorough 6) distinct literals, every 64-bit bound, every partial assignment")

for n, w in ((0, 8), (1, 32), (2, 16), (3, 5)):
    job("C03", T, "pb_eval", n, w)
job("C03", T, "pb_eval", 3, 16, tier="thorough")
job("C03", T, "pb_eval", 4, 5, tier="thorough")
for n in (1, 2):
    job("C03", T, "pb_eval_wide", n)
job("C03", T, "pb_eval_wide", 3, tier="thorough")
for n, w in ((0, 8), (1, 32), (2, 6), (3, 3)):
    job("C03", T, "pb_class", n, w)
for n, w in ((1, 16), (2, 8), (3, 4)):
    job("C03", T, "pb_class_ub", n, w)
job("C03", T, "pb_class", 2, 16, tier="thorough")
job("C03", T, "pb_class", 3, 8, tier="thorough")
job("C03", T, "pb_class_ub", 3, 16, tier="thorough")
bound("C03", "up to 3 (thorough 4) distinct literals; signed coefficients and bounds of 3 to 32 bits (fewer bits with more literals), unsigned coefficients of 64 bits whose sum is representable; every partial assignment")

for n in (0, 1, 2, 3):
    job("C04", T, "card_conv", n) if n else None
job("C04", T, "card_conv", 4, tier="thorough")
for n, w in ((0, 8), (1, 16), (2, 16), (3, 8)):
    job("C04", T, "pb_conv", n, w)
job("C04", T, "pb_conv", 4, 16, tier="thorough")
for x in ((0, 1, 4), (1, 1, 4), (2, 2, 4), (3, 2, 4)):
    job("C04", T, "pb_norm", *x)
job("C04", T, "pb_norm", 4, 3, 4, tier="thorough")
for x in ((0, 3), (1, 3), (2, 3), (3, 3)):
    job("C04", T, "pb_card", *x, 0, w=())
    job("C04", T, "pb_card", *x, 1, w=(3,))
for n in (1, 2, 3):
    job("C04", T, "pb_card", n, 20, 2, w=(1,))
job("C04", T, "pb_card", 4, 100, 2, w=(1,), tier="thorough")
job("C04", T, "pb_card", 4, 5, 0, w=(1, 2), tier="thorough")
bound("C04", "up to 3 (thorough 4) literals, coefficients up to 2^16, bounds of 32 bits (all 64-bit bounds for cardinality constraints; inversion only for bounds not above the number of literals); cardinality form: different coefficients up to 3 (5), equal coefficients up to 20 (100) with all 16-bit bounds; every total assignment")

# ---------------------------------------------------------------- E01, E02
A = "atomics"
for t in (0, 1, 2):
    for x in ((1, 1), (1, 2), (2, 1), (2, 2), (0, 1), (1, 0), (0, 0), (3, 2), (2, 3)):
        job("E01", A, "imp", *x, t, w=())
    job("E01", A, "imp", 3, 3, t, tier="thorough", w=())
    job("E01", A, "imp", 4, 4, t, tier="thorough", w=())
for n in (0, 1, 2, 3):
    job("E01", A, "imp_card", n)
    job("E01", A, "imp_pb", n, 5)
job("E01", A, "imp_card", 5, tier="thorough")
job("E01", A, "imp_pb", 4, 16, tier="thorough")
job("E01", A, "imp_pb", 2, 40, tier="thorough")
bound("E01", "clauses and cubes of up to 3 (thorough 4) literals over 3 variables, all literal choices with repetitions; cardinality constraints over up to 3 (5) literals with all 32-bit bounds; PB constraints with up to 3 (4) literals and 5-bit (40-bit) weights; all assignments")
for e in range(12):
    for n in (0, 1, 2, 3, 4, 5, 7, 9, 10):
        job("E02", A, "am1", e, n, 0, n % 2)
    job("E02", A, "am1", e, 4, 2, 0)
    for n in (6, 8, 12, 16, 17, 20):
        job("E02", A, "am1", e, n, 0, n % 2, tier="thorough")
    job("E02", A, "am1", e, 6, 3, 0, tier="thorough")
for e in range(6):
    job("E02", A, "am1_seq", e, 3, 4)
    job("E02", A, "am1_seq", e, 5, 6, tier="thorough")
bound("E02", "all six encodings (and five nested/other-split variants), up to 10 (thorough 20) literals of any polarity, up to 2 (3) of them repeating earlier variables, two constraints in one formula; all assignments to inputs and auxiliary variables")

# ---------------------------------------------------------------- E03 - E05, E11, E12 (cardinality)
K = "card"
for e in range(6):
    for n in (0, 1, 2, 3, 4):
        job("E03", K, "bound", e, n, 1, 1 if n <= 2 else 0)
    job("E03", K, "bound", e, 4, 1 + 256, 0)
    job("E03", K, "bound", e, 3, 1, 1, tier="thorough")
    job("E03", K, "bound", e, 5, 1, 0, tier="thorough")
    job("E03", K, "bound", e, 7, 1, 0, tier="thorough")
    for n in (0, 1, 3):
        job("E11", K, "bound", e, n, 2, 0)
        job("E12", K, "bound", e, n, 4, 0)
    job("E11", K, "bound", e, 5, 2, 0, tier="thorough")
    job("E12", K, "bound", e, 5, 4, 0, tier="thorough")
for c in (0, 1):
    for n in (1, 2, 3):
        job("E03", K, "referenced", c, n, 1)
        job("E12", K, "referenced", c, n, 4)
    job("E03", K, "referenced", c, 5, 1, tier="thorough")
for e in range(4):
    for n, st in ((0, 2), (1, 2), (2, 2), (0, 3)):
        job("E04", K, "hist", e, n, st, 1, cost=st)
        if st < 3:
            job("E11", K, "hist", e, n, st, 2, cost=st)
        if (n, st) != (2, 2):
            job("E12", K, "hist", e, n, st, 4, cost=st, tier="both" if st < 3 else "thorough")
    job("E04", K, "hist", e, 3, 2, 1, tier="thorough")
    job("E04", K, "hist", e, 1, 3, 1, tier="thorough")
    job("E04", K, "hist", e, 0, 4, 1, tier="thorough", cost=5)
for e in range(3):
    for n in (1, 2, 3):
        job("E04", K, "both_hist", e, n)
for h in range(6):
    for n in (0, 1, 2, 3, 4):
        job("E05", K, "constr", h, n, 0)
    job("E05", K, "constr", h, 4, 2)
    for n in (0, 3):
        job("E05", K, "constr_big", h, n)
    job("E05", K, "constr", h, 6, 0, tier="thorough")
    job("E05", K, "constr", h, 8, 0, tier="thorough")
    job("E05", K, "constr", h, 6, 3, tier="thorough")
bound("E03", "six cardinality encoders (totalizer, inverted, double and nested simulators), up to 4 (thorough 7) literals of any polarity, optionally one repeated; all bounds and ranges up to n+1 in included, excluded, unbounded and usize::MAX form; referenced totalizers up to 3 (5) literals; all assignments to inputs and auxiliary variables")
bound("E04", "histories of up to 3 (thorough 4) operations (extend by 1-2 literals, three encode_*_change, reserve, two from-scratch encodings into a new collector) from up to 2 (3) literals, single-bound, full and empty ranges")
bound("E05", "up to 4 (thorough 8) literals, up to 2 (3) repeated; bounds 0..n+2 and usize::MAX-1, usize::MAX; <=, >=, =; default and five explicit encoders")
bound("E11", "as E03 and E04 with up to 3 (5) literals")
bound("E12", "cardinality: as E03 with up to 3 (5) literals, all bounds up to n+1 and usize::MAX; histories as in E04 with 2 (3) operations")

# ---------------------------------------------------------------- E06 - E10, E11, E12 (pseudo-Boolean)
P = "pb"
OWN = {"E06": (0, 1, 2, 3, 10), "E07": (4, 5, 6), "E08": (7, 8, 9)}
BOTH = (2, 3, 6, 7, 8, 9, 10)
for prop, encs in OWN.items():
    for e in encs:
        for n in (0, 1, 2):
            job(prop, P, "bound", e, n, 3 + 256 * 2, 1, cost=n)
        job(prop, P, "bound", e, 1, 3 + 256, 1 + 256, cost=3)
        job(prop, P, "bound", e, 3, 2 + 256 * 5, 1, cost=5)
        job(prop, P, "bound", e, 2 + 256, 2, 1, cost=2)
        job(prop, P, "bound", e, 3, 3, 1, cost=40 if e in BOTH else 5, tier="both" if e not in BOTH else "thorough")
        job(prop, P, "bound", e, 2, 6, 1, cost=20, tier="thorough")
        job(prop, P, "bound", e, 2, 2 + 256, 1 + 256, cost=20, tier="thorough")
        job(prop, P, "bound", e, 4, 2 + 256 * 10, 1, cost=50, tier="thorough")
        if e != 3:
            for v in range(7):
                job(prop, P, "big", e, v, 1)
for e in range(11):
    job("E11", P, "bound", e, 2, 3 + 256, 2, cost=2)
    job("E11", P, "bound", e, 3, 2, 2, cost=2)
    job("E11", P, "bound", e, 3, 3, 2, cost=2, tier="thorough")
    job("E12", P, "bound", e, 2, 2 + 256, 4, cost=5)
    job("E12", P, "bound", e, 3, 2, 4, cost=20, tier="thorough")
    job("E12", P, "next", e, 2, 3)
    job("E12", P, "next", e, 3, 3)
    job("E12", P, "next", e, 3, 6, tier="thorough")
    job("E11", P, "hist", e, 1 + 256, 2, 2, cost=2)
    job("E11", P, "hist", e, 2 + 256, 1, 2, cost=1)
    job("E11", P, "hist", e, 3 + 512, 1, 2, cost=5)
    job("E11", P, "hist", e, 2 + 512, 2, 2, cost=45, tier="thorough")
    job("E12", P, "hist", e, 1 + 256, 2, 4, cost=10, tier="both" if e not in BOTH else "thorough")
    if e in BOTH:
        job("E12", P, "hist", e, 0 + 256, 2, 4, cost=5)
        job("E10", P, "hist", e, 1 + 256, 2, 1, cost=10)
        job("E10", P, "hist", e, 1 + 512, 2, 1, cost=40, tier="thorough")
    else:
        job("E10", P, "hist", e, 1 + 512, 2, 1, cost=10)
        job("E10", P, "hist", e, 2 + 256, 2, 1, cost=10)
        job("E10", P, "hist", e, 2 + 512, 2, 1, cost=50, tier="thorough")
    if e not in (4, 5, 6):
        # encode the whole range, add literals (heavier and lighter), encode again
        enc = lambda *acts: 256 * sum((x + 1) * 9**i for i, x in enumerate(acts)) + 16
        job("E10", P, "hist", e, 2 + 1024, 3, 1 + enc(3, 7, 3), cost=10)
        job("E10", P, "hist", e, 1 + 1024, 3, 1 + enc(0, 7, 3))
        job("E10", P, "hist", e, 1 + 1024, 4, 1 + enc(3, 7, 7, 3), cost=10, tier="thorough")
        job("E10", P, "hist", e, 1 + 512, 5, 1 + enc(3, 7, 3, 7, 3), cost=2)
        job("E11", P, "hist", e, 1 + 1024, 3, 2 + enc(3, 7, 3))
        job("E12", P, "hist", e, 1 + 1024, 3, 4 + enc(3, 7, 3))
        if e in BOTH:
            for acts in ((5, 7, 5), (5, 7, 3), (4, 7, 5)):
                job("E10", P, "hist", e, 1 + 1024, 3, 1 + enc(*acts))
    job("E10", P, "hist", e, 0 + 256, 2 + 256, 1, cost=3)
    job("E10", P, "hist", e, 0 + 256, 3 + 512, 1, cost=40 if e in BOTH else 8, tier="thorough" if e in BOTH else "both")
for x in ((2, 3, 1 + 256), (3, 3, 1 + 256), (2, 7, 3 + 256), (3, 5, 2 + 256), (1, 5, 2 + 512), (2, 2, 1 + 512)):
    job("E07", P, "prec", *x, cost=10)
for x in ((2, 3, 1 + 512), (2, 4, 2 + 512), (2, 5, 2 + 512), (2, 3, 1 + 768), (1, 9, 2 + 768)):
    job("E07", P, "prec", *x, cost=60, tier="thorough")
job("E07", P, "prec", 2, 3, 256, 1)
job("E07", P, "prec", 2, 2, 512 + 1, 1, cost=20)
job("E07", P, "prec", 2, 3, 512 + 1, 1, cost=110, tier="thorough")
for x in ((2, 3, 0), (3, 3, 0), (2, 5, 2), (3, 3, 1)):
    job("E07", P, "limit", *x, cost=3)
for x in ((2, 4, 1), (2, 5, 1)):  # precise enough for a tare in the encoding
    job("E07", P, "limit", *x, cost=15)
for ws, p in (((4, 4, 8, 1), 2), ((2, 2, 4, 1), 1), ((3, 5, 6, 4), 1), ((4, 12, 2, 4), 2), ((4, 4, 4, 8, 1), 2)):
    job("E07", P, "limit", len(ws), (1 << 40) + sum(w << (5 * i) for i, w in enumerate(ws)), p, cost=12)
for ws, p in (((8, 8, 1, 16), 3), ((3, 5, 6, 4), 2), ((5, 5, 4, 8, 3), 2)):
    job("E07", P, "limit", len(ws), (1 << 40) + sum(w << (5 * i) for i, w in enumerate(ws)), p, cost=25, tier="thorough")
for x in ((3, 4, 1), (2, 7, 1), (2, 7, 2)):
    job("E07", P, "limit", *x, cost=35, tier="thorough")
job("E07", P, "limit", 3, 5, 0, cost=20, tier="thorough")
job("E07", P, "limit", 3, 5, 2, cost=20, tier="thorough")
for c in (0, 1):
    job("E07", P, "dpw_ref", c, 2, 1, 1, cost=5)
    job("E07", P, "dpw_ref", c, 1, 2, 1, cost=5)
    job("E07", P, "dpw_ref", c, 2, 2, 1, cost=40, tier="thorough")
    job("E06", P, "referenced", c, 2, 1, 1, cost=5)
    job("E06", P, "referenced", c, 1, 2, 1, cost=5)
    job("E06", P, "referenced", c, 2, 2, 1, cost=40, tier="thorough")
    job("E12", P, "referenced", c, 1, 2, 4, cost=5)
    job("E12", P, "dpw_ref", c, 1, 2, 4, cost=5)
    job("E12", P, "referenced", c, 2, 1, 4, cost=10)
    job("E12", P, "dpw_ref", c, 2, 1, 4, cost=10)
for h in range(8):
    for n in (0, 1, 2):
        job("E09", P, "constr", h, n, 3)
    job("E09", P, "constr", h, 3, 2, cost=5)
    job("E09", P, "constr", h, 2 + 256, 2)
    for v in (0, 1, 3, 4):
        if h != 6:
            job("E09", P, "constr_wide", h, v)
    job("E09", P, "constr", h, 3, 4, cost=20, tier="thorough")
    job("E09", P, "constr", h, 3 + 256, 2, cost=20, tier="thorough")
    job("E09", P, "constr", h, 2, 7, cost=10, tier="thorough")
bound("E06 E07 E08", "up to 3 (thorough 4) literals with every weight up to 2 or 3 (6) in both polarities, optionally one literal repeated or complemented; all bounds and ranges (single, full, empty and general intervals; all included, excluded, unbounded and usize::MAX forms for small inputs); seven weight vectors with sums up to usize::MAX - 1 and the bounds around every partial sum; all assignments to inputs and auxiliary variables")
bound("E07", "precisions: up to 3 literals with weights up to 7, first precision 2 to 8, up to 2 (3) decreases of the divisor; limit_range: all ranges, up to 3 literals with weights up to 5; referenced watchdogs: 2 operations, up to 2 literals with weights up to 2")
bound("E06", "referenced generalized totalizers: 2 operations, up to 2 literals with weights up to 2")
bound("E09", "up to 3 literals with coefficients of both signs up to 2, 3 (7), one repeated; all bounds within the coefficients' range and one beyond; four vectors with coefficients near isize::MAX; <=, >=, =; default and seven explicit encoders")
bound("E10", "encode, add, encode (and once more) over whole ranges with weights up to 4; histories of 2 (thorough 3) operations (add a new or repeated literal, the encode_* and encode_*_change operations, reserve) from up to 2 literals of weight up to 2")
bound("E11 E12", "pseudo-Boolean: as E06 - E08 and E10 with up to 3 literals; next_higher and next_lower for all values up to the sum and the largest ones")
assume("E06 E07 E08 E09 E10 E11 E12", "the sum of all weights is below usize::MAX; for constraints, the sum of the absolute coefficients and the bound is below isize::MAX")

# ------------------------------------------------------------------ instances
I = "inst"
job("I01", I, "cnf_hist", 1, 3)
for m, n, k in ((2, 3, 2), (1, 3, 3), (3, 2, 2)):
    job("I01", I, "cnf_norm", m, n, k, 0, cost=5)
    job("I01", I, "cnf_norm", m, n, k, 1, cost=5, tier="thorough" if m == 3 else "both", max_time=300)
job("I01", I, "cnf_hist", 2, 2, 1)
job("I01", I, "cnf_hist", 3, 2, 1)
job("I01", I, "cnf_hist", 2, 2, 0, cost=60, tier="thorough", max_time=800)
job("I01", I, "cnf_hist", 4, 2, 1, cost=30, tier="thorough")
job("I01", I, "cnf_norm", 3, 3, 3, 0, cost=30, tier="thorough")
job("I01", I, "cnf_norm", 3, 3, 2, 1, cost=30, tier="thorough")
bound("I01", "histories of up to 3 (thorough 4) of 17 operations, evaluated after up to 1 (2) (adding clauses of 0 to 3 literals in every way, joining, extending, collecting, clearing, implications), literals over up to 3 variables in both polarities, all partial assignments; normalize and sanitize on up to 3 clauses of up to 2 or 3 literals")
for c in (0, 1, 2):
    job("I02", I, "inst_conv", 0, 2, 1, c)
    job("I02", I, "inst_conv", 1, 2, 2, c)
    job("I02", I, "inst_conv", 1, 3, 1, c, cost=5)
    job("I02", I, "inst_conv", 1, 3, 2, c, cost=60, tier="thorough", max_time=600)
job("I02", I, "inst_conv", 2, 2, 1, 0, cost=20)
job("I02", I, "inst_conv", 2, 2, 1, 1, cost=20)
job("I02", I, "inst_conv", 2, 2, 1, 2, cost=20)
job("I02", I, "inst_sanitize", 1, 2, 2)
job("I02", I, "inst_sanitize", 1, 3, 1, cost=5)
job("I02", I, "inst_sanitize", 2, 2, 1, cost=20)
job("I02", I, "inst_sanitize", 1, 3, 2, cost=30, tier="thorough")
job("I02", I, "inst_eval", 1, 2, 2)
job("I02", I, "inst_eval", 2, 2, 1, cost=20)
job("I02", I, "inst_extend", 1, 1, 1)
job("I02", I, "inst_extend", 0, 2, 2)
job("I02", I, "inst_extend", 1, 2, 1, cost=60, tier="thorough", max_time=400)
bound("I02", "up to 2 constraints (clause, cardinality, pseudo-Boolean with <=, >=, =) over up to 3 variables in both polarities, repeated and complementary literals, weights from -2 to 2, all bounds in and one beyond the reachable range; all assignments to all variables")
job("I03", I, "vm_basic", 2)
job("I03", I, "vm_obj", 2, 3)
job("I03", I, "vm_reind", 3, 2, cost=5)
# (1-3 any object, base 8: 1 new variable, 2 increase, 3 forget, 4 and 5 objects)
for t in ((4, 3, 4), (4, 2, 4), (4, 3, 5), (3, 4, 4)):
    job("I03", I, "vm_obj", 3, 2, t[0] + 8 * t[1] + 64 * t[2], cost=8)
job("I03", I, "vm_combine", 2, 0)
job("I03", I, "vm_combine", 2, 1)
job("I03", I, "inst_vars")
job("I03", I, "vm_basic", 3, cost=60, tier="thorough", max_time=600)
job("I03", I, "vm_obj", 3, 4, cost=60, tier="thorough", max_time=600)
job("I03", I, "vm_reind", 4, 2, cost=60, tier="thorough", max_time=800)
job("I03", I, "vm_combine", 3, 0, tier="thorough")
job("I03", I, "vm_combine", 3, 1, tier="thorough")
bound("I03", "histories of 2 (thorough 3) operations of basic and object-keyed managers with arbitrary 31-bit variables (re-indexing managers: 3 (4) operations, variables below 4), a symbolic witness variable stands for every variable in use; five object keys of four types; combining managers that continue one another")
assume("I03", "no variable within the last few below the maximum index is requested (the counter could not be represented); managers are combined only if they agree on shared variables; randomly re-indexing managers (feature rand) are not built")
for t in (0, 1, 2):
    for o in (0, 1):
        job("I04", I, "reindex", t, o, 1, 3)
        job("I04", I, "reindex", t, o, 1, 4, cost=5)
        job("I04", I, "reindex", t, o, 2, 3, cost=20, tier="both" if t == 0 else "thorough", max_time=600)
job("I04", I, "vm_reind", 3, 2, cost=5)
job("I04", I, "vm_combine", 2, 1)
job("I04", I, "vm_reind", 4, 2, cost=60, tier="thorough", max_time=800)
bound("I04", "instances with up to 2 constraints of up to 3 literals and up to two objectives over up to 4 variables with gaps, all polarities and assignments; request histories as for I03")
for f in range(1, 7):
    job("I05", I, "obj_hist", 2, 3, 3 + 256 * f, cost=15)
job("I05", I, "obj_hist", 3, 1, 4, cost=40)
job("I05", I, "obj_hist", 1, 30, 3)
job("I05", I, "obj_partial", 1, 30, 3)
job("I05", I, "obj_partial", 2, 3, 7, cost=8)
job("I05", I, "obj_partial", 2, 1, 3, cost=15)
job("I05", I, "obj_big", 0)
job("I05", I, "obj_big", 1)
job("I05", I, "obj_hist", 2, 30, 4, cost=30)
for f in range(1, 7):
    for g in range(1, 7):
        job("I05", I, "obj_hist", 3, 2, 7 + 256 * f + 4096 * g, cost=40, tier="thorough", max_time=600)
bound("I05", "histories of 2 (thorough 3) of six operations (set and increase a soft literal, increase by a signed amount, set and increase a soft clause, set and increase the offset) over 4 literals and 5 clauses (binary, unit and empty) with every weight up to 7 (3), shorter ones with weights up to 2^30; all total (and, with smaller weights, partial) assignments")
assume("I05 I06", "the value and the offset stay within isize")
for c in range(6):
    job("I06", I, "obj_conv", 2, 2, 3, c, cost=10)
    job("I06", I, "obj_conv", 2, 12, 4, c) if c not in (1, 4) else None
    for f in range(1, 7):
        job("I06", I, "obj_conv", 3, 1, 7 + 256 * f, c, cost=20, tier="thorough", max_time=600)
job("I06", I, "obj_norm", 2, 2, 3, 0, cost=5)
job("I06", I, "obj_norm", 2, 2, 3, 1, cost=5)
job("I06", I, "obj_norm", 3, 1, 0, 0, cost=5)
for f in range(1, 7):
    job("I06", I, "obj_norm", 3, 2, 7 + 256 * f, cost=10)
for c in range(1, 9):
    job("I06", I, "obj_norm_cl", 2, 2, c, cost=2)
    job("I06", I, "obj_norm_cl", 3, 1, c, cost=30, tier="thorough")
for c in (0, 1, 2):
    job("I06", I, "opt_conv", 1, c, cost=3)
    job("I06", I, "multi_conv", 1, c, cost=5)
    for w in (1, 2, 3):
        job("I06", I, "opt_conv", 2, c, w, 1, cost=5)
        job("I06", I, "multi_conv", 2, c, w, 1, cost=15, tier="both" if w < 2 or (w == 2 and c < 2) else "thorough")
        job("I06", I, "opt_conv", 2, c, w, 0, cost=15, tier="thorough")
bound("I06", "objectives from histories of 2 operations as for I05 with weights up to 3 (normalize: 3 operations, and two (thorough three) clauses with repeated or opposite literals in any order next to soft literals of both polarities; thorough 3), optimization instances with one constraint and up to two softs, bi-objective ones alike; all assignments to original and new variables")
for t in (1, 2):
    job("I04", I, "reindex", t, 1, 0, 3)
# ------------------------------------------------------------------ file formats
F = "fio"
job("F01", F, "cnf_any", 3, 0, 0, w=(1,), cost=25)
for c in range(8):
    job("F01", F, "cnf_any", 3, c, 2, cost=2, w=(0,))
    job("F01", F, "cnf_any", 5, c, 1, cost=5, w=(0,))
    job("F01", F, "cnf_any", 5, c, 2, tier="thorough", cost=50, max_time=700, w=(0,))
    job("F01", F, "cnf_any", 3, c, 0, tier="thorough", cost=50, max_time=700, w=(0,))
for c in range(3):
    for l in (0, 1, 2, 3, 4, 5, 7, 8):
        job("F01", F, "cnf_num", 2, c, l, w=(0,))
for c in range(8):
    job("F01", F, "cnf_struct", 2, 2, c, cost=15, w=(0,))
    job("F01", F, "cnf_struct", 2, 2, c + 10, tier="thorough", cost=50, max_time=700, w=(0,))
bound("F01", "every text of 3 arbitrary bytes; 5 bytes over the alphabet ' \\n01-cp' (thorough: 5 over ' \\t\\r\\n012-+cpnfx\\v', 3 arbitrary bytes) alone and in 7 contexts within headers, clauses and comments; numbers with 2 free digits behind prefixes up to and beyond the limits of 32 and 64 bits; files of up to 2 clauses with 2 literals with free literals, separators, header numbers and comments")
job("F02", F, "cnf_rt", 1, 1, 1, 99, cost=5)
job("F02", F, "cnf_rt", 1, 2, 1, 999)
job("F02", F, "cnf_rt", 2, 2, 1, 999, cost=25)
job("F02", F, "cnf_rt", 2, 2, 0, 99, cost=75, tier="thorough", max_time=800)
job("F02", F, "cnf_rt", 1, 3, 1, 99, cost=100, tier="thorough", max_time=800)
job("F02", F, "cnf_rt", 3, 1, 1, 99, cost=100, tier="thorough", max_time=800)
bound("F02", "CNFs of up to 2 clauses with up to 2 literals (thorough 3) over variables up to 100 (1000) in both polarities, with variable counts and comment lines")
for c in range(9):
    job("F03", F, "wcnf_any", 4, c, 1, cost=3, w=(0,))
    job("F03", F, "wcnf_any", 3, c, 2, w=(0,))
    job("F03", F, "wcnf_any", 5, c, 1, cost=30, tier="thorough", max_time=700, w=(0,))
    job("F03", F, "wcnf_any", 4, c, 2, cost=30, tier="thorough", max_time=700, w=(0,))
    job("F03", F, "opt_struct", 2, 1, 4, c, cost=8, tier="both" if c < 4 else "thorough", max_time=400, w=(0,))
for c in range(10):
    for l in (0, 3, 4):
        job("F03", F, "wcnf_num", 2, c, l, w=(0,))
for c in range(6):
    job("F03", F, "mcnf_any", 4, c, 4, cost=3, w=(0,))
    job("F03", F, "mcnf_any", 5, c, 4, cost=30, tier="thorough", max_time=700, w=(0,))
for c in range(4):
    for l in (0, 3):
        job("F03", F, "mcnf_num", 2, c, l, w=(0,))
job("F03", F, "wcnf_rt", 0, 2, 2, 3, cost=4)
job("F03", F, "wcnf_rt", 1, 1, 2, 103, cost=2)
job("F03", F, "mcnf_rt", 0, 2, 1, 3, cost=2)
job("F03", F, "mcnf_rt", 1, 1, 1, 103, cost=2)
job("F03", F, "mcnf_rt", 0, 2, 2, 3, cost=30)
job("F03", F, "wcnf_rt", 1, 2, 2, 3, cost=50, tier="thorough", max_time=700)
job("F03", F, "wcnf_rt", 1, 2, 2, 103, cost=50, tier="thorough", max_time=700)
job("F03", F, "mcnf_rt", 1, 2, 2, 3, cost=150, tier="thorough", max_time=1400)
bound("F03", "texts of 4 (thorough 5) bytes over format alphabets in 9 WCNF and 6 MCNF contexts; weights, literals and objective indices with 2 free digits behind prefixes up to and beyond 64 bits; files of two lines with free tokens; instances of up to one hard and two soft clauses with up to two literals, two objectives, weights up to 3 (103)")
assume("F03", "objective indices of MCNF files are at most 20 (the parser allocates that many objectives, so larger ones only cost memory); readers deliver the text in one piece")
for c in range(8):
    for f in range(4):
        job("F04", F, "opb_any", 4, c, 17, f, cost=2, w=(0,))
    job("F04", F, "opb_any", 3, c, 16, 0, cost=4, w=(0,))
    job("F04", F, "opb_any", 5, c, 17, 0, cost=15, tier="thorough", max_time=600, w=(0,))
    job("F04", F, "opb_any", 4, c, 16, 1, cost=70, tier="thorough", max_time=900, w=(0,))
for c in range(7):
    job("F04", F, "opb_constr", 1, 1, c, 0, cost=3, w=(0,))
for f in range(1, 4):
    job("F04", F, "opb_constr", 2, 1, 0, f, cost=18, w=(0,))
for c in range(1, 7):
    job("F04", F, "opb_constr", 2, 1, c, c % 4, cost=50, tier="thorough", max_time=900, w=(0,))
for c in range(14):
    for l in (0, 2, 3):
        job("F04", F, "opb_num", 2, c, l, l, w=(0,))
        job("F04", F, "opb_num", 2, c, l, 0, w=(0,)) if l else None
for l in (0, 1, 2):
    for r in (0, 2, 3):
        job("F04", F, "opb_obj", 1, 1, l, r, w=(0,))
        job("F04", F, "opb_obj", 2, 1, l, r, cost=30, tier="both" if l == 0 else "thorough", max_time=900, w=(0,))
bound("F04", "texts of 4 bytes over ' 01x~-<>;\\n*' and 3 (thorough 4) over all characters of the format in 8 contexts, as satisfiability, optimization and multi-objective instance; numbers with 2 free digits behind prefixes up to and beyond 32 and 64 bits in 14 places; constraints of up to 2 terms with every sign, operator and separator, objectives of up to 2 terms with both directions; both first-variable indices")
assume("F04 F05", "variable index plus first index fits 32 bits; sums of magnitudes beyond i64 may be an error (only the absence of panics is checked there)")
for f in range(4):
    job("F05", F, "opb_rt", 1, 2, 2, f)
    job("F05", F, "opb_rt", 2, 2, 2, f)
    job("F05", F, "opb_rt", 3, 1, 4, f, cost=40)
    job("F05", F, "opb_rt", 3, 2, 2, f, cost=70, tier="both" if f in (1,) else "thorough", max_time=900)
    job("F05", F, "opb_rt_obj", 1, 2, 2, f, cost=8)
for f in range(4, 8):
    job("F05", F, "opb_rt_obj", 2, 1, 2, f, cost=15)
job("F05", F, "opb_rt", 321, 1, 1, 0, cost=150, tier="thorough", max_time=1400)
bound("F05", "one clause, cardinality or pseudo-Boolean constraint (thorough: one of each) of up to 2 literals (thorough also 3), weights and bounds around the reachable range, objectives of up to 2 softs; first variable index 0 and 1, with and without negated literals; all assignments")
for c in range(8):
    job("F06", F, "out_any", 5, c, 20, w=(0,))
    job("F06", F, "out_any", 3, c, 99, w=(0,), cost=40 if c in (3, 4) else 5)
    job("F06", F, "out_any", 7, c, 20, w=(0,), tier="thorough", cost=30, max_time=900)
for k in (1, 2, 3):
    job("F06", F, "out_lines", k, w=(1,) if k == 1 else (1, 2), cost=4)
job("F06", F, "out_lines", 4, tier="thorough", cost=100, max_time=900)
bound("F06", "outputs of up to 3 (thorough 4) lines out of 13 kinds; 3 arbitrary bytes or 5 (thorough 7) over ' sv0-1\\nSATUN' alone and within 7 contexts")
# ------------------------------------------------------------------ solving
S = "solv"


def _ops(*o):
    return sum(x * 8**i for i, x in enumerate(o))


def _strings(n):
    import itertools

    for t in itertools.product("asc", repeat=n):
        if t[-1] == "a" or "aaa" in "".join(t):
            continue
        # additions by value, by reference and through Extend take turns
        adds = iter([1, 2, 5, 1, 2])
        yield "".join(t), _ops(*[next(adds) if c == "a" else 3 if c == "s" else 4 for c in t])


for m in (1, 11):
    job("S01", S, "sim_hist", 3, 2, m, 0, w=(1, 2, 3), cost=15)
for m in (2, 12):
    job("S01", S, "sim_hist", 2, 2, m, 0, w=(1, 2, 3), cost=10)
job("S03", S, "batsat_hist", 3, 2, 1, 0, w=(1, 2, 3), cost=14)
job("S03", S, "batsat_hist", 2, 2, 2, 0, w=(1, 2, 3), cost=16)
for t, o in _strings(4):
    job("S01", S, "sim_hist", 4, 2, 1, o, w=(9,), cost=4)
    job("S03", S, "batsat_hist", 4, 2, 1, o, w=(9,), cost=4)
for t, o in _strings(3):
    job("S01", S, "sim_hist", 3, 2, 102, o, w=(9,), cost=8, tier="both" if "c" in t else "thorough")
    job("S01", S, "sim_hist", 3, 2, 112, o, w=(9,), cost=10, tier="thorough")
    job("S01", S, "sim_hist", 3, 3, 102, o, w=(9,), cost=20, tier="thorough", max_time=600)
    job("S03", S, "batsat_hist", 3, 2, 102, o, w=(9,), cost=8, tier="both" if t in ("cac", "acs") else "thorough")
    job("S03", S, "batsat_hist", 3, 3, 101, o, w=(9,), cost=8, tier="thorough", max_time=600)
for o in (1804, 1809, 2209, 2345):
    job("S01", S, "sim_hist", 4, 2, 112, o, w=(9,), cost=100, tier="thorough", max_time=900)
# re-initialisation after clauses by reference, three assumptions
for o in (_ops(3, 2, 4, 4), _ops(3, 2, 4, 3), _ops(3, 2, 3, 4), _ops(4, 2, 4, 3)):
    job("S01", S, "sim_hist", 4, 2, 1, o, w=(9,), cost=6)
job("S01", S, "sim_hist", 2, 3, 103, _ops(1, 4), w=(9,), cost=76)
job("S03", S, "batsat_hist", 2, 3, 103, _ops(1, 4), w=(9,), cost=400, max_time=850, tier="thorough")
# every way to add clauses, then one query and a full solution
job("S01", S, "sim_ways", 1, 2, 1, 0, w=(9,), cost=4)
job("S01", S, "sim_ways", 1, 3, 2, 3, w=(9,), cost=18)
job("S01", S, "sim_ways", 2, 2, 1, 0, w=(9,), cost=100, tier="thorough", max_time=800)
job("S03", S, "batsat_ways", 1, 2, 1, 0, w=(9,), cost=15)
job("S03", S, "batsat_ways", 1, 3, 2, 3, w=(9,), cost=70)
job("S03", S, "batsat_ways", 1, 3, 1, 0, w=(9,), cost=60, tier="thorough", max_time=800)
bound("S01", "histories of 3 operations (add by value, by reference or through Extend, solve with and without assumptions, look twice) with clauses and assumptions of up to one literal, 2 operations with up to two literals, 4 operations (additions, solving with and without assumptions) with up to one, 3 with exactly two literals; 2 variables (thorough 3); one clause and one solve with three assumptions over 3 variables; one addition in each of the seven ways (unit, binary, ternary, formulas by value and by reference, both forms of Extend), one query and the full solution; all literals symbolic; the wrapped solver is strictly non-incremental and gives any correct answer with any model, or is interrupted or fails")
bound("S03", "histories of 3 operations with clauses and assumptions of up to one literal, 2 operations with up to two, 4 operations with up to one, 3 with exactly two literals; 2 variables (thorough 3); thorough one clause and one solve with three assumptions over 3 variables; one addition in each of the seven ways (unit, binary, ternary, formulas by value and by reference, both forms of Extend), one query and the full solution; literals symbolic; the wrapper and the BatSat library are both executed")
assume("S03", "learnt clauses, restarts and clause database reductions that need larger formulas are outside of the bounds")
job("S02", S, "search", 2, 21, 2, 2, w=(1, 2), cost=9)
job("S02", S, "search", 2, 12, 2, 2, w=(1, 2), cost=5)
job("S02", S, "search", 2, 21, 2, 22, w=(1, 2), cost=12)
job("S02", S, "search", 3, 21, 1, 3, w=(1, 2), cost=8)
job("S02", S, "search", 3, 21, 2, 1, w=(1, 2), cost=20)
job("S02", S, "search", 2, 0, 2, 3, w=(2,), cost=5)
job("S02", S, "search", 2, 22, 2, 2, w=(1, 2), cost=100, tier="thorough", max_time=900)
job("S02", S, "search", 3, 21, 2, 3, w=(1, 2), cost=100, tier="thorough", max_time=900)
job("S02", S, "search", 2, 21, 3, 1, w=(1, 2), cost=12)
job("S02", S, "search", 2, 0, 3, 2, w=(2,))
job("S02", S, "opt_search", 2, 21, 11, 2, w=(1, 2))
job("S02", S, "opt_search", 2, 11, 21, 2, w=(1, 2))
job("S02", S, "opt_search", 2, 11, 12, 2, w=(1, 2))
job("S02", S, "opt_search", 2, 22, 11, 2, w=(1, 2), cost=20)
job("S02", S, "opt_search", 2, 11, 22, 2, w=(1, 2), cost=100, tier="thorough", max_time=600)
job("S02", S, "opt_search", 3, 21, 22, 2, w=(1, 2), cost=100, tier="thorough", max_time=1200)
bound("S02", "up to two hard clauses of one or one hard clause of two symbolic literals over 2 or 3 variables, objectives of up to two weighted or three unit-weight literals including repeated and complementary ones and variables unknown to the solver, weights up to 3; the solver gives any model; generalized totalizer and binary adder; whole instances with up to two soft clauses and an offset of -1 to 1")
assume("S02", "the solver is not interrupted and does not fail (documented panic)")

# ------------------------------------------------------------------ layers over native solvers
N = "glue"


def _ops32(*o):
    return sum(x * 32**i for i, x in enumerate(o))


# (IPASIR and CaDiCaL take integers, the others a structure)
for k in range(6):
    slow = k in (0, 5)
    job("S04", N, "inc", 20 + k, 2, 2 if not slow else 1, 0, w=(1, 2, 3), cost=30 if slow else 15)
    job("S04", N, "inc", 20 + k, 2, 31, 0, w=(1, 3, 4), cost=15 if slow else 2)
    job("S04", N, "inc", 20 + k, 2, 41, 0, w=(1, 3), cost=15 if slow else 3)
    job("S04", N, "inc", 10 + k, 3, 12, 0, w=(4,), cost=4)
    # (1 add, 3 solve, 4 with assumptions)
    for t, q in (((1, 4, 3), True), ((1, 4, 1, 4), True), ((1, 3, 5, 3), False), ((1, 4, 4), False)):
        job("S04", N, "inc", 10 * len(t) + k, 2, 102, _ops32(*t), w=(9,), cost=40 if slow else 4, tier="both" if q and not slow else "thorough", max_time=900)
    job("S04", N, "inc", 30 + k, 3, 102, _ops32(1, 1, 4), w=(9,), cost=60 if slow else 8, tier="thorough", max_time=900)
    for f in range(1, 7):
        job("S04", N, "inc", 30 + k, 2, 1, f, w=(9,), cost=60, tier="thorough", max_time=900)
        job("S04", N, "inc", 30 + k, 2, 71, f, w=(9,), cost=90, tier="thorough", max_time=900)
for k in range(4):
    for f in range(1, 15 if k % 2 else 12):
        job("S04", N, "ext_minisat", 20 + k, 2, 1, f, w=(9,), cost=2)
        job("S04", N, "ext_minisat", 20 + k, 2, 31, f, w=(9,), cost=2, tier="thorough")
        job("S04", N, "ext_minisat", 30 + k, 2, 1, f, w=(9,), cost=40, tier="thorough", max_time=900)
for f in range(1, 18):
    if f != 11:
        job("S04", N, "ext_cadical", 2, 2, 1, f, w=(9,), cost=35 if f in (4, 8) else 6)
    job("S04", N, "ext_cadical", 2, 2, 31, f, w=(9,), cost=35, tier="thorough", max_time=900)
    job("S04", N, "ext_cadical", 3, 2, 1, f, w=(9,), cost=100, tier="thorough", max_time=900)
# (7 simplify, 8 with assumptions, 9 temporary clause, 10 its use, 11 propagate, 13 flip)
for t, q in (((9, 3, 3), True), ((11, 3), True), ((9, 4, 7), True), ((9, 4, 3, 10), True)):
    job("S04", N, "ext_cadical", len(t), 2, 101, _ops32(*t), w=(9,), cost=20)
for t in ((1, 4, 7), (1, 8, 3), (1, 4, 8)):
    job("S04", N, "ext_cadical", 3, 2, 101, _ops32(*t), w=(9,), cost=8)
    job("S04", N, "ext_cadical", 3, 2, 102, _ops32(*t), w=(9,), cost=90, tier="thorough", max_time=900)
job("S04", N, "ext_cadical", 3, 2, 102, _ops32(9, 3, 3), w=(9,), cost=2)
job("S04", N, "ext_cadical", 4, 2, 102, _ops32(1, 9, 4, 3), w=(9,), cost=100, tier="thorough", max_time=900)
job("S04", N, "ext_cadical", 4, 2, 102, _ops32(1, 8, 7, 10), w=(9,), cost=60, tier="thorough", max_time=900)
for f in range(1, 9):
    job("S04", N, "kissat", 3, 2, 1, f, w=(9,), cost=5)
    job("S04", N, "kissat", 4, 2, 1, f, w=(9,), cost=60, tier="thorough", max_time=900)
    job("S04", N, "kissat", 3, 2, 52, f, w=(9,), cost=60, tier="thorough", max_time=900)
job("S04", N, "kissat", 2, 2, 11, 0, w=(1, 4), cost=2)
job("S04", N, "kissat", 2, 2, 41, 0, w=(1,), cost=2)
for k in range(2):
    job("S04", N, "callbacks", k, 3, w=(30,))
    job("S04", N, "callbacks", k, 5, w=(30,), cost=20, tier="thorough")
for k in range(3):
    job("S04", N, "terminate", k, w=(30,))
for k in range(4):
    job("S04", N, "config", k, w=(9,))
for k in range(9):
    job("S04", N, "invalid", k, 0, w=(9,))
    job("S04", N, "invalid", k, 1, w=(9,))
for k in range(17):
    job("S04", N, "tracer", k, 2, 2, w=(9,))
for k in range(6):
    job("S04", N, "interrupter", k, w=(9,))
bound("S04", "two operations of every backend (thorough three, Kissat three and four) over 2 variables with clauses and assumptions of up to one literal, two operations with up to two literals for the Minisat family, fixed orders of three and four operations with exactly two literals (thorough for all backends, also 3 variables); literals and the answers of the native solver symbolic: any model (also partial ones), any sufficient set of failed assumptions, interruptions, exhausted memory; numbers given to limits, options and statistics symbolic over their full range; unexpected return values over all integers; three (thorough five) operations on callbacks; every proof event with up to two literals and two antecedents")
assume("S04", "the native solvers are replaced by stand-ins of their C functions that give any correct answer and insist on the documented contracts of these functions (REQUIRE conditions of CaDiCaL, kissat_require, array bounds of MiniSat and Glucose); that the native code meets its interface is N02")

# ------------------------------------------------------------------ C interface
K = "capi"
for how in range(6):
    job("K01", K, "am1", how, 5, 1, cost=8)
    job("K01", K, "am1", how, 9 if how > 2 else 6, 0, cost=30, tier="both" if how > 2 else "thorough")
    job("K01", K, "am1", how, 7, 1, cost=60, tier="thorough")
job("K01", K, "literal", 0, w=(1, 2))
job("K01", K, "literal", 1, w=(1, 2))
job("K01", K, "tot", 2, 2, 0, 1, cost=15)
job("K01", K, "tot", 3, 2, 0, 2, cost=20)
job("K01", K, "tot", 5, 1, 0, 10, cost=20)
for op in range(1, 5):
    job("K01", K, "tot", 1, 3, 256 * op, 2, cost=30, tier="both" if op in (1, 2) else "thorough")
    job("K01", K, "tot", 0, 4, 256 * op, 2, cost=600, tier="thorough", max_time=800)
    job("K01", K, "adder", 1, 3, 1 + 256 * op, 1, cost=80, tier="thorough")
    if op < 4:
        job("K01", K, "gte", 1, 3, 1 + 256 * op, 1, cost=25, tier="thorough")
        job("K01", K, "dpw", 2, 3, 1 + 256 * op, 1, cost=80, tier="thorough")
for e in ("gte", "adder", "dpw"):
    job("K01", K, e, 3, 1, 3, 2, cost=40)
    job("K01", K, e, 1, 2, 2, 1, cost=25)
    job("K01", K, e, 3, 1, 5, 5, cost=100, tier="thorough")
    job("K01", K, e, 2, 2, 2, 1, cost=100, tier="thorough")
job("K01", K, "prec", 2, 3, 1, cost=8)
job("K01", K, "prec", 2, 4, 2, cost=10)
job("K01", K, "prec", 3, 3, 1, cost=30)
job("K01", K, "prec", 3, 4, 2, cost=60, tier="thorough")
job("K01", K, "limit", 3, 3, cost=12)
job("K01", K, "limit", 4, 3, cost=60, tier="thorough")
bound("K01", "call histories new, (add, reserve, encode_ub, encode_lb) in any order, then enforcing every bound up to sum + 1 and SIZE_MAX, drop: quick 2 calls after up to 3 initial literals, thorough 3-4 calls; weights up to 3 (quick) / 5; polarities fixed per history; every input assignment symbolic")
bound("K01", "at-most-one encodings: up to 9 literals, up to 6 (quick 4) distinct variables plus one repeated literal, encoding again after adding the last two literals")
bound("K01", "literals given to *_add: every int except INT_MIN (not a negatable IPASIR literal) for pairwise and totalizer, zero and the input literals for the others")
bound("K01", "watchdog precision: 2-3 weights up to 4, all divisors up to twice the current one; range limits over all ranges")
assume("K01", "the functions are called from Rust through their extern \"C\" signatures with pointers obtained from the matching *_new; the header rustsat.h and the C compiler are not part of the check")

# ---------------------------------------------------------------- E14
for a in ((1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 1, 0), (5, 1, 0), (2, 1, 1), (3, 1, 1), (1, 2, 0), (2, 2, 0), (3, 2, 0), (2, 2, 1), (0, 3, 0), (1, 3, 0)):
    job("E14", "card", "strict", *a, 0, cost=3)
for a in ((6, 1, 0), (2, 3, 0), (4, 2, 0), (4, 1, 1), (3, 2, 1)):
    job("E14", "card", "strict", *a, 0, cost=60, tier="thorough", max_time=600)
for a in ((1, 2, 1, 0), (2, 2, 1, 0), (3, 2, 1, 2), (3, 3, 1, 0), (4, 2, 1, 5), (258, 2, 1, 0), (515, 2, 1, 0), (1, 2, 2, 0), (2, 2, 2, 1), (1, 2, 3, 0)):
    job("E14", "pb", "strict", *a, cost=4)
for a in ((4, 3, 1, 0), (3, 2, 2, 0), (2, 2, 3, 0), (2, 4, 2, 0), (5, 2, 1, 0)):
    job("E14", "pb", "strict", *a, cost=60, tier="thorough", max_time=600)
bound("E14", "totalizer: one operation over up to 5 (thorough 6) literals of any polarity, two over up to 3 (4) at the start, three over 1 (2), up to one repeated literal; generalized totalizer: one operation over up to 4 (5) literals with weights up to 2 or 3, two over 2 (3), three over 1 (2); all single bounds, whole and empty ranges; all values of all inputs")
assume("E14", "after reserve or an addition, a generalized totalizer may refuse bounds encoded earlier (documented), so bounds are only enforced after an encoding operation")

# ------------------------------------------------------------------ certified encodings
R = "cert"
for a in ((2, 0, 0, 0), (2, 0, 0, 1), (2, 0, 0, 2), (2, 1, 0, 0), (2, 1, 0, 1), (2, 1, 0, 2), (2, 2, 0, 0), (2, 2, 0, 1), (2, 3, 0, 0), (2, 3, 0, 1), (2, 3, 0, 2),
          (3, 0, 2, 0), (3, 0, 2, 1), (3, 0, 2, 2), (4, 0, 5, 2), (3, 1, 5, 2), (3, 3, 5, 2), (3, 2, 5, 1), (3, 1, 16, 0), (3, 1, 32, 1), (3, 0, 32, 2),
          (1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 0, 1), (1, 1, 0, 2), (3, 4, 1, 0), (3, 4, 1, 1), (3, 4, 1, 2)):
    job("E13", R, "card", *a, cost=4)
for a in ((5, 0, 9, 0), (5, 0, 9, 1), (5, 3, 3, 2), (4, 4, 2, 2), (5, 2, 6, 0), (6, 0, 3, 0)):
    job("E13", R, "card", *a, cost=60, tier="thorough")
for a in ((1, 0, 3, 0), (1, 0, 3, 1), (1, 1, 3, 0), (1, 1, 3, 1), (2, 0, 2, 0), (2, 0, 2, 1), (2, 0, 2, 2), (2, 1, 2, 0), (2, 1, 2, 1), (2, 2, 2, 0), (2, 2, 2, 1), (2, 2, 2, 2),
          (2, 0, 2, 4), (2, 0, 2, 5), (2, 0, 2, 6), (3, 0, 3, 0), (3, 0, 3, 1), (3, 1, 3, 0), (3, 1, 3, 1), (3, 2, 2, 0), (3, 2, 2, 1), (3, 2, 2, 2), (3, 3, 2, 2),
          (3, 0, 258, 0), (3, 0, 258, 1), (3, 0, 514, 1), (3, 0, 514, 2)):
    job("E13", R, "pb", *a, cost=10)
for a in ((4, 0, 3, 0), (4, 1, 2, 1), (3, 0, 5, 0), (3, 0, 5, 2), (3, 0, 3, 5), (4, 3, 2, 0)):
    job("E13", R, "pb", *a, cost=100, tier="thorough")
for a, c in (((19, 0, 2, 5), 10), ((19, 0, 2, 10), 10), ((19, 0, 2, 0), 10), ((35, 0, 2, 0), 15), ((35, 1, 2, 0), 20), ((35, 2, 2, 0), 35), ((35, 0, 2, 9), 20), ((35, 0, 2, 6), 20),
             ((51, 0, 2, 12), 10), ((51, 0, 2, 13), 10), ((51, 0, 2, 14), 10)):
    job("E13", R, "card_hist", *a, cost=c)
for a in ((36, 0, 5, 0), (36, 0, 5, 5), (52, 0, 5, 13), (52, 2, 5, 9)):
    job("E13", R, "card_hist", *a, cost=150, tier="thorough")
for a, c in (((34, 0, 3, 13), 5), ((18, 0, 2, 5), 18), ((18, 1, 2, 10), 15), ((18, 2, 2, 0), 36), ((18, 3, 2, 0), 87), ((51, 0, 2, 13), 15), ((51, 1, 2, 14), 17), ((51, 2, 2, 12), 36)):
    job("E13", R, "pb_hist", *a, cost=c)
for a in ((35, 0, 2, 5), (51, 0, 3, 13), (18, 0, 3, 5), (18, 2, 2, 9)):
    job("E13", R, "pb_hist", *a, cost=300, tier="thorough")
for a, c in (((18, 0, 0, 1), 1), ((35, 1, 0, 1), 5), ((35, 17, 0, 1), 5), ((36, 33, 0, 1), 7), ((36, 32, 0, 1), 7), ((36, 18, 0, 1), 6), ((36, 2, 0, 1), 6), ((18, 1, 3, 1), 3),
             ((19, 0, 3, 1), 27), ((37, 34, 0, 1), 14), ((53, 3, 0, 17), 26)):
    job("E13", R, "db", *a, cost=c)
for a, c in (((19, 2, 3, 1), 41), ((37, 49, 0, 1), 27), ((35, 17, 0, 2), 57), ((35, 1, 0, 2), 90), ((35, 33, 0, 82), 91), ((35, 1, 2, 2), 132)):
    job("E13", R, "db", *a, cost=c, tier="thorough")
bound("E13", "whole cardinality and pseudo-Boolean constraints of up to 4 (thorough 6) / 3 (4) input literals, weights up to 3 (5), every bound value including trivial and unsatisfiable ones, repeated and negated inputs, all simulators that have certified variants")
bound("E13", "incremental histories: two bound-encoding steps (upper / lower / both) with all bound ranges, inputs added between them for the totalizers; up to 3 (4) inputs of weight up to 2 (3)")
bound("E13", "totalizer database nodes: defining 1 (thorough 2) outputs of a node over up to 2+3 (3+5) leaves with offsets and leaf limits, weighted leaves up to 3; deleting the semantics afterwards")
assume("E13", "the proof is read back and every step is checked by a checker written for the harness (VeriPB semantics of pol, rup with hints, red with witness, del and e); all variables of the proof are symbolic, the checker's arithmetic is part of the trusted base")
assume("E13", "Dummy nodes (`passthrough`) are unimplemented (todo!) in the certified path and left out")

# ------------------------------------------------------------------ proof steps
G = "pig"
for a in ((0, 2, 2, 9), (1, 0, 0, 9), (2, 1, 2, 9), (3, 1, 1, 9), (4, 2, 0, 9), (5, 1, 1, 9), (6, 1, 1, 9), (7, 1, 0, 9), (8, 0, 2, 9), (9, 2, 0, 9), (11, 0, 2, 9), (12, 0, 1, 9),
          (13, 0, 3, 9), (15, 0, 2, 9), (16, 0, 3, 9), (17, 0, 2, 9), (18, 2, 0, 9), (19, 1, 0, 9), (20, 1, 0, 9), (21, 0, 0, 9), (22, 0, 0, 9), (23, 0, 0, 9), (24, 0, 0, 9), (24, 0, 3, 9),
          (25, 0, 3, 9), (26, 0, 0, 9), (8, 0, 1, 120)):
    job("G01", G, "step", *a, cost=4)
job("G01", G, "step", 0, 1, 1, 120, cost=33)
job("G01", G, "step", 18, 1, 0, 120, cost=14)
for a, c in (((0, 1, 0, 0), 1), ((2, 1, 0, 1), 1), ((3, 2, 2, 0), 2), ((2, 2, 2, 0), 5), ((1, 21, 0, 1), 12), ((3, 22, 1, 0), 34)):
    job("G01", G, "subproof", *a, cost=c)
for a, c in (((0, 12, 2, 2), 61), ((0, 2, 3, 0), 72), ((0, 22, 0, 0), 130), ((1, 22, 1, 1), 195)):
    job("G01", G, "subproof", *a, cost=c, tier="thorough")
for k in (0, 1):
    for s in (0, 1, 2):
        for e in (0, 1, 2):
            job("G01", G, "ranges", k, s, e, 20, w=(0,))
for a, c in (((2, 9900, 0, 0), 18), ((2, 9904, 1, 0), 3), ((2, 9901, 2, 0), 22), ((2, 9906, 2, 0), 12), ((2, 3, 2, 0), 33), ((1, 9, 0, 1), 1), ((3, 907, 0, 0), 3), ((3, 907, 2, 0), 4), ((3, 9, 0, 0), 22)):
    job("G01", G, "ops", *a, cost=c)
for a, c in (((2, 9909, 0, 1), 57), ((3, 304, 0, 0), 47), ((2, 9908, 1, 1), 161), ((2, 9902, 0, 0), 60), ((2, 9903, 2, 0), 60), ((2, 9905, 1, 0), 60), ((2, 9907, 2, 0), 60)):
    job("G01", G, "ops", *a, cost=c, tier="thorough")
for a, c in (((0, 3, 9), 1), ((1, 3, 9), 1), ((2, 3, 9), 1), ((3, 3, 9), 1), ((2, 4, 9), 1), ((6, 1, 9), 1), ((4, 3, 3), 13), ((5, 3, 3), 17), ((4, 2, 9), 4), ((5, 2, 9), 4)):
    job("G01", G, "constr", *a, cost=c)
for a, c in (((0, 2, 3, 0), 1), ((1, 2, 3, 1), 3), ((2, 2, 3, 1), 3), ((0, 3, 9, 0), 5), ((0, 2, 9, 1), 17)):
    job("G01", G, "object", *a, cost=c)
job("G01", G, "object", 0, 3, 3, 1, cost=40, tier="thorough")
for a, c in (((1, 1, 1, 1), 1), ((2, 1, 1, 1), 2), ((1, 2, 1, 0), 3), ((3, 1, 0, 1), 4), ((2, 2, 3, 0), 7)):
    job("G01", G, "order", *a, cost=c)
job("G01", G, "order", 1, 2, 2, 1, cost=96, tier="thorough")
_e = [(0, 0, 0, 3), (1, 0, 2, 2), (2, 0, 1, 4), (3, 0, 3, 7), (0, 1, 0, 0), (1, 2, 2, 5), (2, 3, 1, 0), (1, 4, 0, 1), (3, 2, 1, 4), (3, 3, 2, 1)]
for a in _e:
    job("G01", G, "ending", *a, cost=3)
for con in range(4):
    for how in range(5):
        for o, g in ((0, 5), (3, 6)):
            if (con, how, o, g) not in _e:
                job("G01", G, "ending", con, how, o, g, cost=20, tier="thorough")
bound("G01", "every kind of step after a symbolic number of formula constraints, the identifiers handed out before and after it compared; 1-2 terms and references per step with coefficients, bounds, identifiers and variable indices below 10 (all one-digit values), selected steps up to 120; up to 3 operations per derivation; nested subproofs of up to 2 goals with up to 3 derivations; orders of up to 3 variables; deletion ranges with every kind of end")
assume("G01", "the text is read back by a reader written for the harness from the VeriPB proof format; the weakening step without variable (`w`) is pinned by an existing test and left out; equality constraints panic by design")

# ------------------------------------------------------------------ tools
X = "tools"
for a, c in (((3, 0, 4), 1), ((3, 1, 4), 1), ((3, 0, 5), 1), ((3, 1, 5), 1), ((2, 0, 5), 1), ((2, 1, 5), 1)):
    job("X01", X, "clustering", *a, cost=c)
for i in range(1, 6):
    for j in range(1, 6):
        job("X01", X, "clustering", 4, (i + j) % 2, 4, i + 8 * j, cost=30, tier="thorough")
job("X01", X, "map")
for f in range(3):
    for a in ((1, 2), (2, 1), (2, 2), (3, 1)):
        job("X01", X, "knap_pb", *a, f)
    job("X01", X, "knap_pb", 3, 2, f, cost=6)
    job("X01", X, "knap_cnf", 2, 1, f, 3, cost=3)
    job("X01", X, "knap_cnf", 2, 2, f, 3, cost=12, tier="both" if f == 2 else "thorough")
    job("X01", X, "knap_cnf", 3, 1, f, 2, cost=9)
    job("X01", X, "knap_cnf", 3, 1, f, 3, cost=60, tier="thorough")
for l in (0, 1):
    for a, c in (((1, 2), 1), ((2, 1), 1), ((2, 2), 2), ((3, 1), 5)):
        job("X01", X, "assign", *a, l, cost=c)
for k in range(3):
    for a in ((1, 1), (2, 1), (1, 2), (2, 2)):
        job("X01", X, "assign_bad", *a, k)
for a, c in (((1, 1, 0), 1), ((1, 2, 1), 2), ((2, 1, 1), 1), ((2, 1, 0), 1), ((1, 3, 0), 30), ((2, 2, 0), 45)):
    job("X01", X, "facility", *a, cost=c, tier="both" if c < 40 else "thorough")
for k in range(5):
    job("X01", X, "junk", k, 4, 0, w=(1,))
    job("X01", X, "junk", k, 6, 1, w=(1,), cost=3)
bound("X01", "clustering: 2 and 3 points (thorough 4) with every combination of similarity, dissimilarity, must-link, cannot-link and missing pairs, in plain and reordered files, compared over all clusterings and all values of the soft literals; similarity values over all integers; knapsack: up to 3 items and 2 objectives with all one-digit values, weights and capacities (CNF encoding: weights up to 3), in both file formats; assignment: up to 3 tasks, 2 objectives, one-digit costs; facility location: up to 2 customers and 3 facilities, one-digit costs; selections symbolic; arbitrary texts of up to 6 bytes over the alphabet `[],1 #x` and newline after the head for robustness")
assume("X01", "similarity texts are concrete small integers as floating-point numbers cannot be symbolic; the command line around the generators is not executed")
X = "gbmo"
for alg in range(3):
    for a, c in (((2, 8, 0), 1), ((3, 6, 0), 1), ((3, 6, 1), 1), ((3, 6, 2), 1), ((3, 4, 3), 1), ((4, 5, 0), 5)):
        job("X02", X, "split", a[0], alg, a[1], a[2], cost=c)
    for w in range(1, 6):
        job("X02", X, "split", 4, alg, 12, 8 * w, cost=20)
        job("X02", X, "split", 5, alg, 9, 8 * w, cost=200, tier="thorough", max_time=900)
bound("X02", "3 soft clauses of any weights up to 6, 4 with weights up to 12 where one weight is up to 5 (thorough 5 with weights up to 9), units and clauses of two literals, all three algorithms; pairs of assignments symbolic; also with an exhausted limit on weight combinations")
assume("X02", "reading and writing files is F03-F06; the offset is zero (which objective receives it is not specified)")
for k in range(7):
    job("X03", X, "ilp", 2, k, 2, 0, cost=1)
    job("X03", X, "ilp", 2, 10 + k, 2, k % 4, cost=4)
    job("X03", X, "ilp", 2, 20 + k, 1, (k + 1) % 4, cost=8)
    job("X03", X, "ilp", 3, 10 + k, 1, (k + 2) % 4, cost=4)
    job("X03", X, "ilp", 3, 10 + k, 2, (k + 3) % 4, cost=200, tier="thorough", max_time=900)
    job("X03", X, "ilp", 2, 20 + k, 2, k % 4, cost=200, tier="thorough", max_time=900)
for a, c in (((1, 0, 1, 0), 1), ((1, 1, 1, 1), 1), ((2, 0, 1, 0), 1), ((2, 0, 2, 0), 1), ((2, 1, 1, 0), 2), ((2, 1, 1, 1), 30), ((2, 0, 2, 1), 30)):
    job("X03", X, "enumerate", *a, cost=c)
job("X03", X, "enumerate", 2, 1, 2, 0, cost=100, tier="thorough", max_time=900)
job("X03", X, "enumerate", 2, 1, 2, 1, cost=300, tier="thorough", max_time=900)
bound("X03", "mo2ilp: one constraint of every kind over 2 and 3 variables (any polarities and bounds, weights up to 2), up to 2 objectives with up to 3 soft clauses, weights up to 2 and offsets -1 to 1, both output formats, assignments symbolic; enumerator: formulas of up to two clauses of two symbolic literals over 2 variables and one variable that is not enumerated, any models of a correct solver, also partial ones")
assume("X03", "the native solver is replaced by a stand-in that finds any model; the command line around the functions (file formats, unused variables) is not executed")

# deeper jobs that turned out to be cheap enough for every change
_cheap = {l.strip() for l in open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "promote.txt"))}
for _p in ("C01", "C02", "C03", "C04", "E02", "E05", "E08", "E09", "T02", "T03"):
    for _j in _J[_p]:
        if _j["tier"] == "thorough" and " ".join(str(x) for x in [_j["bin"], _j["entry"], *_j["args"]]) in _cheap:
            _j["tier"] = "both"
