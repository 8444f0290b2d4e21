#!/usr/bin/env python3
"""Writes DESIGN.md (python3 meta/design.py): the text below plus bounds, assumptions, findings and planted bugs from their sources."""
import json, glob, os, re, sys
sys.path.insert(0, "/verif/meta")
import jobs as J
import manifest_na as NA
props = [json.loads(l) for l in open("/verif/properties.jsonl")]

HEAD = open("/verif/meta/design_head.md").read()

# how each property is decided: (harness binary, what is executed, oracle)
HOW = {
 "T01": "`types`: constructors, conversions and operators on symbolic 32-bit values; oracle: bit-level arithmetic on the index and sign. Panics are permitted only for documented arguments.",
 "T02": "`types/asg_*`: operation sequences chosen by forking, variables and values symbolic; a shadow array of ternary values is the oracle; iteration order and completeness are compared with it.",
 "T03": "`types/vline_*`: the text is symbolic bytes; oracle: a tokenizer written for the harness from the format description.",
 "C01": "`types/cl_*`: clauses with every literal symbolic, partial assignments symbolic, all methods compared with the disjunction over the literals; order and duplicates of normalised clauses checked directly.",
 "C02": "`types/card_*`: the number of true and unassigned literals decides all completions; 64-bit bounds symbolic.",
 "C03": "`types/pb_*`: wide (128-bit) sums over signed coefficients are the oracle for construction, evaluation and classification.",
 "C04": "`types/*_conv, pb_norm, pb_card`: for a symbolic total assignment, converted and original constraint must agree; errors are permitted only where the target form cannot express the constraint.",
 "E01": "`atomics/imp*`: the clauses are evaluated under a symbolic assignment and compared with the implication; reified constraints are compared with the constraint's wide-arithmetic value.",
 "E02": "`atomics/am1*`: n and polarities forked, the emitted CNF is handed to the solver as formula F(inputs, aux): `F => at most one` and `at most one => exists aux. F` (the quantifier is decided by SAT over the CNF, see *CNF queries*). Statistics and freshness are compared with the collector.",
 "E03": "`card/bound`: n, polarity, range forms and bounds are forked or symbolic; for every bound in the range, CNF + assumptions is equivalent (with existential aux variables) to the count of true inputs meeting it; referenced totalizers through `referenced`.",
 "E04": "`card/hist`, `both_hist`: operation sequences are forked; after each step all encoded bounds are checked as for E03 over the inputs present, the clauses alone must stay extendable for every input.",
 "E05": "`card/constr*`: as E03 with one-shot encoders, bounds outside 0..n, repeated literals.",
 "E06": "`pb/bound` (generalized totalizer and simulators): weights are forked over all values in the range because the structure depends on them; bounds forked; input and auxiliary assignments symbolic.",
 "E07": "`pb/bound, prec, limit, referenced`: as E06 for the watchdog; the weighted sum at the current precision is the oracle; `coarse_ub` against its contract.",
 "E08": "`pb/bound` for the binary adder, including all orders of upper and lower bounds.",
 "E09": "`pb/constr*`: as E06 with one-shot encoders, coefficients of both signs; wide-arithmetic sum is the oracle.",
 "E10": "`pb/hist`: forked operation sequences for the three incremental encoders; checked after every step like E06.",
 "E11": "all encoders, run together with E03-E10: every literal of every collected clause is an input or was handed out by the manager during encoding; counts equal those of the collector and the manager.",
 "E12": "all encoders: `enforce_*` on every bound (also SIZE_MAX), compared with the ranges encoded so far and the achievable sums; `next_higher`/`next_lower` against the set of subset sums.",
 "E14": "`card/strict`, `pb/strict`: encoding histories of the totalizer and the generalized totalizer, then `strictly_extend_assignment` on an assignment with symbolic values; every emitted clause, the coverage of the auxiliary variables and the enforcing literals of every encoded bound are compared with the sum.",
 "E13": "`cert`: the real encoders write their proof into memory; the harness parses every line and checks every step as VeriPB does (pol arithmetic, rup with hints by unit propagation to a conflict, red with witness, del, e). Clauses returned are compared with the constraint of their identifier and the final CNF is compared with the constraint as for E03/E06.",
 "G01": "`pig`: every public step of `pigeons` is called with symbolic numbers; a reader for the proof format parses the line back into the terms, and the identifiers are counted independently.",
 "I01": "`inst/cnf_*`: a shadow list of clauses is the oracle for the value under every partial assignment.",
 "I02": "`inst/inst_*`: models of the converted instance, projected to the original variables, against the conjunction of the original constraints (CNF queries).",
 "I03": "`inst/vm_*`: one symbolic witness variable stands for any variable in use; no request may return it.",
 "I04": "`inst/vm_reind, reindex`: maps compared with a shadow map; instances evaluated under the transported assignment.",
 "I05": "`inst/obj_hist`: shadow table of weights per soft literal and clause.",
 "I06": "`inst/obj_conv, obj_norm, opt_conv, multi_conv`: the minimum over relaxation variables is decided by enumerating the (few) relaxation values inside one query.",
 "F01": "`fio/cnf_*`: symbolic bytes; oracle: a reference reader written for the harness from the DIMACS description that classifies a text as well-formed with a meaning, ill-formed, or unspecified.",
 "F02": "`fio/cnf_rt`: symbolic clauses are written and read back by the real code, the clauses compared.",
 "F03": "`fio/wcnf_*, mcnf_*, opt_struct`: as F01/F02.",
 "F04": "`fio/opb_*`: as F01; the meaning of a parsed constraint is compared under a symbolic assignment with that of the text.",
 "F05": "`fio/opb_rt*`: written and read back; values under symbolic assignments compared; the offset comment is read by the harness.",
 "F06": "`fio/out_*`: as F01 for solver logs.",
 "S01": "`solv/sim_hist`: the wrapped solver is a stand-in that keeps the clauses, panics if it is used incrementally, and answers correctly with *any* model (symbolic) or is interrupted; the truth is kept as the set of satisfying assignments, a symbolic bit vector.",
 "S02": "`solv/search, opt_search`: the solver is an oracle that returns any model of the real clauses (symbolic); the result is compared with the minimum over all assignments. The encodings inside are the real ones.",
 "S03": "`solv/batsat_hist`: wrapper *and* the BatSat library are executed; literals symbolic; truth as for S01.",
 "S04": "`glue`: the Rust wrappers of the native solvers are executed against stand-ins for the C functions that record every call and answer arbitrarily (symbolic).",
 "X01": "`tools` (crate `harness-tools`): problem files are built from symbolic digits, read and encoded by the tools library, and the emitted constraints and objectives are compared with the problem.",
 "X02": "`gbmo` (crate `harness-tools`): the functions of the binary (its source is included) split objectives of all weights; the orders of two symbolic assignments are compared.",
 "X03": "`gbmo` (crate `harness-tools`): the text written by mo2ilp is read back and evaluated for symbolic assignments; the enumerator runs on a stand-in solver that returns any model.",
 "K01": "`capi`: the `extern \"C\"` functions are called as from C with recording callbacks; the collected clauses are checked as in E03/E06.",
}

def table():
    out = []
    for p in props:
        i = p["id"]
        if not J.jobs(i, "quick"):
            continue
        q, t = J.jobs(i, "quick"), J.jobs(i, "thorough")
        out.append(f"### {i} {p['title']}\n")
        out.append(HOW.get(i, ""))
        out.append("")
        for b in J.bounds(i):
            out.append(f"* Bounds: {b}")
        for a in J.assumptions(i):
            out.append(f"* Assumed: {a}")
        out.append(f"* Jobs: {len(q)} quick, {len(t)} thorough (each one symbolic execution of a harness entry with fixed size parameters)")
        out.append(f"* Why tests cannot settle it: {p['why_tests_cant']}")
        out.append("")
    return "\n".join(out)

def findings():
    out = ["| property | commit | what failed |", "|---|---|---|"]
    kn = []
    for l in open("/verif/known-findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m:
            out.append("| %s | %s | %s |" % m.groups())
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m:
            kn.append("* **%s, %s**: %s" % m.groups())
    return "\n".join(out), "\n".join(kn)

def planted():
    res = {}
    f = "/verif/meta/planted.txt"
    if os.path.exists(f):
        for l in open(f):
            k, _, v = l.strip().partition(" ")
            if k:
                res[k] = v
    out = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
    for d in sorted(glob.glob("/verif/seeded/*")):
        m = json.load(open(d + "/meta.json"))
        n = os.path.basename(d)
        out.append(f"| {n} | {m['property']} | {m['needs']} | {res.get(n, 'caught by ' + m['property'])} |")
    return "\n".join(out)

fx, kn = findings()
na = "\n".join(f"* **{k}** {[p['title'] for p in props if p['id'] == k][0]}: {v}" for k, v in NA.NA.items())
s = HEAD.replace("@TABLE@", table()).replace("@FIXED@", fx).replace("@KNOWN@", kn).replace("@PLANTED@", planted()).replace("@NA@", na)
open("/verif/DESIGN.md", "w").write(s)
