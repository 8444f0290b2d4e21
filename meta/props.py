#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 meta/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

T="src/types/mod.rs"; C="src/types/constraints.rs"
p("T01","Literals and variables convert without loss",
  "For every valid variable index and polarity, a literal reports exactly the index and polarity it was built from, double negation is the identity, a literal and its negation share their variable, and the conversions to and from 0-based indices, IPASIR/DIMACS integers and (external) i32/isize forms are inverse to each other. Conversions reject exactly the integers that denote no literal (zero or out of range) and never panic on them. Literal and variable order, equality and index arithmetic agree with the underlying indices.",
  ["inputs"],"all 32-bit indices, all polarities, all 32-bit signed integers (full width)",
  "the tests sample a handful of small indices; the interesting values sit at the ends of the 31-bit range",
  [T],[("Lit::new/positive/negative/vidx/is_neg/from_ipasir/to_ipasir, Var::new and operators",T)],
  observe=["return values and panics of the public methods of Lit and Var"])
p("T02","Assignments store and report exactly what was assigned",
  "After any sequence of assigning literals, setting, flipping to don't-care, truncating and replacing don't-cares on an assignment, looking up a variable or literal yields the last value written (negated for a negative literal) and don't-care where nothing was written. Iterating an assignment yields exactly the assigned literals, and building an assignment from literals, from ternary values or from booleans gives those values back.",
  ["histories","inputs"],"all operation sequences up to the stated length over the stated number of variables",
  "the tests use fixed assignments and never mix growth, truncation and overwriting",
  [T],[("Assignment::{assign_lit,assign_var,var_value,lit_value,truncate,replace_dont_care,iter,max_var}, TernaryVal ops",T)],
  observe=["Assignment::var_value / lit_value / iter"])
p("T03","Solution lines are parsed exactly and never crash",
  "Parsing a solver solution line (SAT competition 'v' line) never panics, whatever the text is, and either returns an error or an assignment that holds exactly the literals listed (zeros are terminators and assign nothing). Lines that assign a variable both ways, contain a token that is not a literal, or do not start with the v marker are rejected.",
  ["inputs"],"all byte strings up to the stated length over the stated alphabet that are valid UTF-8",
  "tests contain a few well-formed lines; arbitrary solver output is unbounded text",
  [T],[("Assignment::from_vline / extend_from_vline / from_solver_output_path",T)],
  observe=["Assignment::from_vline, extend_from_vline"])
p("C01","Clause operations agree with disjunction semantics",
  "Evaluating a clause under a (partial) assignment gives true iff some literal is true, false iff all literals are false, and don't-care otherwise. Normalising or sanitising a clause keeps its truth value under every assignment, is reported as a tautology exactly if the clause contains complementary literals, and normalised clauses are sorted and duplicate-free; adding, removing and the (non-)tautology, unit and binary queries act on exactly the literals in the clause.",
  ["inputs"],"all clauses up to the stated length over the stated variables, all partial assignments",
  "tests enumerate a few literal clauses",
  [T,C],[("Clause::{normalize,sanitize,normalize_in_place,add,remove,remove_thorough,is_tautology,is_unit,is_binary}, Cl::evaluate",C)],
  observe=["return values of Clause methods"])
p("C02","Cardinality constraints evaluate and classify correctly",
  "A cardinality constraint (at most, at least, exactly k of n literals) evaluates to true under a partial assignment only if every completion satisfies it, to false only if no completion does, and to don't-care otherwise. The tautology, unsatisfiability, clause and fixed-assignment queries on the constraint are answered 'yes' only when the constraint has that meaning.",
  ["inputs"],"all constraints up to the stated number of literals, all 64-bit bounds, all partial assignments",
  "tests use total assignments and small bounds; boundary relations between bound and number of literals are not sampled",
  [C],[("CardConstraint::{evaluate,is_tautology,is_unsat,is_positive_assignment,is_negative_assignment,is_clause}",C)],
  observe=["CardConstraint::evaluate and predicates"])
p("C03","Pseudo-Boolean constraints evaluate and classify correctly",
  "A pseudo-Boolean constraint built from arbitrary signed coefficients and bound evaluates to true under a partial assignment only if every completion satisfies the constraint as written, to false only if no completion does, and to don't-care otherwise. The tautology, unsatisfiability, cardinality, clause and fixed-assignment queries are answered 'yes' only when the constraint has that meaning.",
  ["inputs"],"all constraints up to the stated number of literals with signed coefficients in the stated range, all bounds and partial assignments",
  "tests use a handful of small positive weights; sign changes, zero weights and boundary sums are unbounded inputs",
  [C],[("PbConstraint::{new_ub,new_lb,new_eq,new_ub_unsigned,..,evaluate,is_tautology,is_unsat,is_card,is_clause,..}",C)],
  observe=["PbConstraint::evaluate and predicates"])
p("C04","Constraint conversions preserve meaning",
  "Converting between clause, cardinality and pseudo-Boolean form, changing upper bounds to lower bounds and back, splitting an equality into two bounds, inverting, adding to or changing the bound, and normalising a constraint all yield constraints satisfied by exactly the assignments that satisfy the original (or, for add, the extended) constraint. A conversion that cannot represent the constraint reports an error instead of a different constraint.",
  ["inputs"],"all constraints up to the stated size, weights and bounds in the stated ranges, all total assignments",
  "tests check single examples of each conversion",
  [C],[("CardConstraint/PbConstraint conversions: invert, split, into_ubs/into_lbs, extend_to_card_constr, into_clause, into_card_constr, normalize, From<Clause>, From<CardConstraint>, add, change_bound",C)],
  observe=["evaluate of converted constraints"])
at="src/encodings/atomics.rs"
p("E01","Implication builders encode exactly the implication named",
  "Every helper that builds clauses for 'literal, clause or cube implies literal, clause or cube' produces clauses that are satisfied by exactly the assignments satisfying that implication. This holds for the free functions and for the helpers on formulas and instances, including those that reify a cardinality or pseudo-Boolean constraint with a literal.",
  ["inputs"],"all literal choices (including repeated and complementary ones) up to the stated sizes and all assignments",
  "the tests check syntactic output for one choice of literals",
  [at,"src/instances/sat.rs"],[("lit_impl_*, cube_impl_*, clause_impl_*",at),("Cnf/SatInstance::add_*_impl_*; add_lit_impl_card, add_card_impl_lit, add_lit_impl_pb, add_pb_impl_lit","src/instances/sat.rs")])
p("E02","At-most-one encodings allow exactly at most one true literal",
  "For every number of input literals, each at-most-one encoding (pairwise, ladder, bitwise, commander, bimander, two-product) adds clauses such that an assignment to the inputs can be extended to the auxiliary variables iff at most one input literal is true. Auxiliary variables are fresh, and the reported numbers of clauses and variables match what was added.",
  ["inputs"],"n up to the stated bound, all input assignments and all auxiliary assignments",
  "the tests solve a few instances of one size with one solver",
  ["src/encodings/am1/mod.rs","src/encodings/am1/pairwise.rs","src/encodings/am1/ladder.rs","src/encodings/am1/bitwise.rs","src/encodings/am1/commander.rs","src/encodings/am1/bimander.rs","src/encodings/am1/twoproduct.rs"],
  [("am1::Encode::encode of all six encodings","src/encodings/am1")])
tot="src/encodings/card/totalizer/mod.rs"
p("E03","Cardinality encodings enforce exactly the requested bound",
  "After encoding a range of bounds with a cardinality encoding (totalizer and its inverted and doubled forms), enforcing any bound in that range as upper bound, lower bound or equality leaves an input assignment extendable to the auxiliary variables iff it meets the bound, also when further bounds outside the range are never enforced. Without any enforced bound every input assignment stays extendable.",
  ["inputs","configurations"],"n, encoded ranges and bounds up to the stated sizes; all input and auxiliary assignments",
  "tests check single bounds of a fixed 5-literal example",
  [tot,"src/encodings/card/mod.rs","src/encodings/card/simulators.rs","src/encodings/totdb/mod.rs"],
  [("Totalizer encode_ub/encode_lb/encode_both/enforce_*",tot),("Inverted, Double",  "src/encodings/card/simulators.rs"),("prepare_*_range, enforce_eq","src/encodings/card/mod.rs")])
p("E04","Incremental cardinality encoding equals encoding from scratch",
  "For any history of adding input literals, encoding further bound ranges and reserving variables, the clauses collected so far together with an enforced, encoded bound over the literals present at that time are satisfiable for exactly the input assignments meeting that bound. Clauses collected earlier in the history never exclude an input assignment by themselves.",
  ["histories"],"all histories up to the stated number of steps, ranges and literals",
  "tests follow two fixed histories",
  [tot,"src/encodings/card/mod.rs","src/encodings/totdb/mod.rs"],[("encode_ub_change/encode_lb_change/extend/reserve",tot)])
p("E05","Cardinality constraints encode to equivalent CNF",
  "Encoding any cardinality constraint with the default encoder or through the one-shot constraint encoders (upper, lower, equality) yields a CNF that an input assignment can be extended to satisfy iff the constraint holds, including trivially true and unsatisfiable constraints. The encoder never panics.",
  ["inputs"],"all kinds, n and bounds up to the stated sizes (bounds also outside 0..n), literal multisets with repetitions",
  "tests only cover a few constraints of one size",
  ["src/encodings/card/mod.rs","src/types/constraints.rs"],[("default_encode_cardinality_constraint, encode_cardinality_constraint, encode_*_constr","src/encodings/card/mod.rs")])
p("E06","Generalized totalizer encodings enforce exactly the weighted bound",
  "After encoding a range of bounds with the generalized totalizer (or its inverted and doubled forms, or a cardinality encoding over repeated literals), enforcing a bound in that range leaves an input assignment extendable to the auxiliary variables iff the weighted sum meets the bound; without an enforced bound every input assignment stays extendable.",
  ["inputs","configurations"],"all weights in the stated range, n, ranges and bounds up to the stated sizes; all input and auxiliary assignments",
  "tests use one weight vector; the set of partial sums, and with it the encoding's structure, depends on the weights",
  ["src/encodings/pb/gte/mod.rs","src/encodings/pb/mod.rs","src/encodings/pb/simulators.rs","src/encodings/totdb/mod.rs","src/encodings/nodedb.rs"],
  [("GeneralizedTotalizer","src/encodings/pb/gte/mod.rs"),("Inverted, Double, Card","src/encodings/pb/simulators.rs")])
p("E07","Dynamic polynomial watchdog enforces exactly the weighted bound",
  "After encoding with the dynamic polynomial watchdog, enforcing an encoded upper bound leaves an input assignment extendable to the auxiliary variables iff the weighted sum is at most that bound, where at a reduced precision every weight is divided by the precision's divisor and rounded down. Increasing the precision step by step keeps this, the coarse bound reported for a bound is never above it, and limiting the encoding to a range of values excludes no assignment whose weighted sum is in the range.",
  ["inputs","configurations"],"all weights in the stated range, n and bounds up to the stated sizes, all input and auxiliary assignments",
  "tests use one weight vector",
  ["src/encodings/pb/dpw/mod.rs","src/encodings/pb/dpw/referenced.rs","src/encodings/totdb/mod.rs"],[("DynamicPolyWatchdog encode_ub/enforce_ub/coarse_ub/set_precision","src/encodings/pb/dpw/mod.rs")])
p("E08","Binary adder encoding enforces exactly the weighted bound",
  "After encoding with the binary adder, enforcing any bound in the encoded range as upper bound, lower bound or equality leaves an input assignment extendable to the auxiliary variables iff the weighted sum meets the bound, whatever order upper and lower bounds are encoded in.",
  ["inputs","configurations","histories"],"all weights in the stated range, n, ranges and bounds up to the stated sizes; all encode orders; all input and auxiliary assignments",
  "tests use one weight vector and encode one bound kind at a time",
  ["src/encodings/pb/adder.rs"],[("BinaryAdder encode_*/enforce_*","src/encodings/pb/adder.rs")])
p("E09","Pseudo-Boolean constraints encode to equivalent CNF",
  "Encoding any pseudo-Boolean constraint (any sign of coefficients, repeated literals, zero weights, any bound, <=, >=, =) with the default encoder or the one-shot constraint encoders yields a CNF that an input assignment can be extended to satisfy iff the constraint holds. The encoder never panics.",
  ["inputs"],"all constraints up to the stated number of terms, coefficient and bound range; all input and auxiliary assignments",
  "tests cover a few constraints with distinct positive weights",
  ["src/encodings/pb/mod.rs","src/types/constraints.rs"],[("default_encode_pb_constraint, encode_pb_constraint, encode_*_constr","src/encodings/pb/mod.rs")])
p("E10","Incremental pseudo-Boolean encoding equals encoding from scratch",
  "For any history of adding weighted literals and encoding further bound ranges with the generalized totalizer, the dynamic polynomial watchdog or the binary adder (as far as each supports it), the collected clauses with an enforced, encoded bound are satisfiable for exactly the input assignments meeting that bound, and the collected clauses alone exclude no input assignment. Bounds of the last operation's range can be enforced; the generalized totalizer may refuse those of earlier operations.",
  ["histories","inputs"],"all histories up to the stated number of steps, weights and ranges",
  "tests follow one fixed history each",
  ["src/encodings/pb/gte/mod.rs","src/encodings/pb/dpw/mod.rs","src/encodings/pb/adder.rs"],[("encode_ub_change, extend, reserve, limit_range","src/encodings/pb")])
p("E11","Encoders only use fresh variables and report honest statistics",
  "Every encoder draws auxiliary variables only from the variable manager it was given, so that clauses mention only input literals and variables handed out during encoding, never variables in use before. The clause and variable counts an encoder reports equal the clauses added to the collector and the variables taken.",
  ["inputs","configurations"],"all encoders, sizes, weights, and next-free-variable offsets within the stated bounds",
  "tests compare counts for a few fixed examples",
  ["src/encodings/mod.rs","src/encodings/card/totalizer/mod.rs","src/encodings/pb/gte/mod.rs","src/encodings/pb/dpw/mod.rs","src/encodings/pb/adder.rs"],
  [("EncodeStats::n_clauses/n_vars, ManageVars","src/encodings/mod.rs")])
p("E12","Bounds that were not encoded are refused, never mis-enforced",
  "Asking an encoder to enforce a bound returns assumption literals only if that bound was encoded for the current inputs or is trivially met; otherwise it reports 'not encoded' or 'unsatisfiable', the latter only if no input assignment meets the bound. For weighted encoders, the next-higher and next-lower value queries never skip an achievable sum, and asking never panics.",
  ["inputs","histories"],"all bounds, ranges, weights and histories within the stated sizes",
  "tests query only bounds they encoded",
  ["src/encodings/card/mod.rs","src/encodings/pb/mod.rs","src/encodings/card/totalizer/mod.rs","src/encodings/pb/gte/mod.rs","src/encodings/pb/dpw/mod.rs","src/encodings/pb/adder.rs"],
  [("enforce_ub/enforce_lb/enforce_eq, next_higher/next_lower","src/encodings")])
p("E13","Certified encodings log derivations that a checker accepts",
  "The proof written while encoding a cardinality or pseudo-Boolean constraint with proof logging derives every constraint it claims: each step follows from the axioms and earlier steps by the rule it names, each emitted clause is the constraint derived under the identifier it is returned with, and the emitted clauses enforce the constraint exactly.",
  ["inputs","configurations"],"constraints, weights and bound ranges within the stated sizes",
  "the tests need an external proof checker and cover a few fixed examples",
  ["src/encodings/card/cert.rs","src/encodings/card/simulators.rs","src/encodings/card/totalizer/mod.rs","src/encodings/pb/cert.rs","src/encodings/pb/simulators.rs","src/encodings/pb/gte/mod.rs","src/encodings/totdb/cert.rs","pigeons/src/lib.rs"],
  [("encode_*_cert, define_unweighted_cert / define_weighted_cert","src/encodings/totdb/cert.rs")])
p("E14","Extended input assignments satisfy the totalizer encodings",
  "Strictly extending a full assignment of the input literals through a totalizer or generalized totalizer assigns every auxiliary variable of the encoding exactly once, satisfies every clause emitted so far, and makes the literals that enforce an encoded bound true iff the sum of the true inputs meets that bound, after any history of encoding, reserving and adding literals.",
  ["inputs","histories"],"all full input assignments, bounds, ranges and histories within the stated sizes",
  "there is no test of it outside of the proof logging",
  ["src/encodings/totdb/mod.rs","src/encodings/card/totalizer/mod.rs","src/encodings/pb/gte/mod.rs"],
  [("strictly_extend_assignment, AssignIter, ValueIter","src/encodings/totdb/mod.rs")])
sat="src/instances/sat.rs"
p("I01","CNF container operations keep exactly the added clauses",
  "A CNF formula evaluates under every partial assignment as the conjunction of the clauses that were added, whichever of its building, joining, extending and collecting operations added them. Normalising and sanitising preserve the truth value under every total assignment.",
  ["histories","inputs"],"all operation sequences, clauses and assignments within the stated sizes",
  "tests use fixed formulas",
  [sat],[("Cnf::{add_clause,add_unit,..,join,extend,extend_clauses,normalize,sanitize,evaluate}",sat)])
p("I02","Instances keep their meaning under conversion to CNF or PB",
  "Converting a satisfiability instance with clauses, cardinality and pseudo-Boolean constraints to CNF yields a formula whose models, restricted to the original variables, are exactly the instance's models; converting to pseudo-Boolean constraints and sanitising keep the models exactly. Extending an instance by another yields the conjunction of both, and the instance's evaluation and violated-constraint queries agree with its constraints.",
  ["inputs"],"all instances within the stated sizes and all assignments",
  "tests convert a few instances and compare syntactically",
  [sat],[("SatInstance::{into_cnf,convert_to_cnf,into_pbs,sanitize,extend,evaluate,unsat_constraint}",sat)])
im="src/instances/mod.rs"
p("I03","Variable managers never hand out a variable twice",
  "For every history of requesting variables, marking variables used, forgetting, and combining managers, a newly handed-out variable differs from every variable that is in use (handed out or marked and not forgotten), and the reported maximum and count match. Object-keyed managers return the same variable for equal objects and different variables for different objects.",
  ["histories"],"all operation sequences up to the stated length with arbitrary variable indices",
  "tests follow two fixed short sequences",
  [im],[("BasicVarManager, ObjectVarManager, ReindexingVarManager: ManageVars",im)])
p("I04","Re-indexing is a bijection that preserves instances",
  "Re-indexing variables maps distinct variables to distinct variables, the reverse query maps each re-indexed variable back to its origin, polarity is kept, and a re-indexed instance is satisfied by an assignment iff the original is satisfied by the corresponding assignment. Ordered re-indexing keeps the order of variables.",
  ["inputs","histories"],"all instances and request sequences within the stated sizes",
  "tests re-index a few fixed instances",
  [im,sat,"src/instances/opt.rs"],[("ReindexVars::{reindex,reindex_lit,reverse,reverse_lit}",im),("Instance::reindex / reindex_ordered",sat)])
op="src/instances/opt.rs"
p("I05","Objectives accumulate weights faithfully",
  "For every history of setting, increasing (also by negative amounts) and removing soft literals and soft clauses and changing the offset, evaluating the objective equals the offset plus the weights of satisfied soft literals and falsified soft clauses as accumulated by that history. Weight queries (single, sum, minimum, maximum, counts) agree with that accumulated state, whether or not the objective is internally weighted.",
  ["histories","inputs"],"all histories up to the stated length over the stated literals and weights; all assignments",
  "tests build a few objectives; switching between unit-weight and weighted representation with repetitions is not covered",
  [op],[("Objective::{add_soft_lit,increase_soft_lit,increase_soft_lit_int,add_soft_clause,increase_soft_clause,evaluate,lit_weight,..}",op)])
p("I06","Objective conversions preserve cost",
  "Converting an objective to (unweighted) soft clauses or soft literals, normalising, or re-indexing it preserves its value: for every assignment to the original variables the value is unchanged, and for conversions introducing relaxation variables the minimum over extensions satisfying the added hard clauses equals the original value. Relaxation variables never collide with variables of the instance, its constraints or any of its objectives, for single- and multi-objective instances alike.",
  ["inputs"],"all objectives within the stated sizes and weights; all assignments",
  "tests convert one or two objectives",
  [op,"src/instances/multiopt.rs"],[("into_soft_cls, into_unweighted_soft_cls, convert_to_soft_lits, into_soft_lits, into_unweighted_soft_lits, normalize, into_hard_cls_soft_lits",op)])
di="src/instances/fio/dimacs.rs"
p("F01","DIMACS CNF parsing is total and exact",
  "Parsing arbitrary text as DIMACS CNF never panics: it returns an error or an instance. On text that is a well-formed DIMACS file the instance holds exactly the clauses in the file, in order, and knows at least the variables of the header and the clauses.",
  ["inputs"],"all byte strings up to the stated lengths (arbitrary bytes, and structured files with symbolic numbers and separators)",
  "tests parse well-formed snippets and a few data files",
  [di,sat],[("Parser<CnfHeader>, Parser<CnfBody>, SatInstance::from_dimacs",di)])
p("F02","CNF instances survive writing and reading",
  "Writing a CNF (or a clausal instance) in DIMACS format and parsing the output returns the same clauses with literals in the same order and a variable count at least as large.",
  ["inputs"],"all CNFs within the stated sizes with arbitrary literals in the stated index range",
  "tests round-trip single formulas",
  [di],[("write_cnf_annotated, write_cnf, from_dimacs",di)])
p("F03","WCNF and MCNF files are parsed exactly and survive a round trip",
  "Parsing WCNF (both formats) or multi-objective MCNF text never panics, and returns an error or exactly the hard clauses, soft clauses, weights and objective indices in the file. Writing an optimization instance and reading it back preserves hard clauses and, up to the offset the format cannot carry, every objective's value.",
  ["inputs"],"all texts and instances within the stated sizes",
  "tests parse well-formed snippets",
  [di,op,"src/instances/multiopt.rs"],[("Parser<WcnfHeader|WcnfPre22Body|WcnfPost22|Mcnf>, write_wcnf_annotated, write_mcnf_annotated",di)])
ob="src/instances/fio/opb.rs"
p("F04","OPB parsing is total and exact",
  "Parsing arbitrary text as OPB never panics, and parsed constraints and objectives mean what the file says: every relational operator (<=, >=, <, >, =), sign, coefficient, negation marker, first-variable-index option, and minimise or maximise keyword is interpreted exactly.",
  ["inputs"],"all byte strings up to the stated length, and structured files with symbolic numbers, operators, signs and separators",
  "tests cover non-strict operators and small numbers",
  [ob],[("opb::Parser, constraint, objective, literal, from_opb",ob)])
p("F05","Instances survive writing to and reading from OPB",
  "Writing a satisfiability or optimization instance to OPB and reading it back, with any first variable index and with or without negated literals, gives constraints with the same models and objectives with the same value up to the offset noted as a comment.",
  ["inputs","configurations"],"all instances within the stated sizes, all options, all assignments",
  "tests round-trip one constraint of each kind",
  [ob],[("write_sat, write_opt, write_multi_opt, write_clause, write_card, write_pb, write_objective",ob)])
p("F06","Solver output is interpreted soundly",
  "Interpreting the textual output of a SAT solver never panics and reports satisfiable only if a satisfiable status line and value lines are present, with exactly the values listed; it reports unsatisfiable or unknown only if the corresponding status line is present, and an error otherwise.",
  ["inputs"],"all outputs built from up to the stated number of arbitrary lines and bytes",
  "tests parse recorded logs",
  ["src/instances/fio/mod.rs"],[("parse_sat_solver_output","src/instances/fio/mod.rs")])
p("S01","Simulated incremental solving equals solving from scratch",
  "Wrapping a non-incremental solver for incremental use answers, for every history of adding clauses and solving with or without assumptions, as a fresh solver given all clauses added so far and the assumptions would; assumptions do not leak into later calls, a reported core only contains negated assumptions and is only available after an unsatisfiable answer, and the statistics count the calls of the wrapped solver, the clauses and the highest variable.",
  ["histories"],"all histories up to the stated length over the stated variables, with the wrapped solver an arbitrary correct solver",
  "tests follow a fixed history with one solver",
  ["src/solvers/simulators.rs","src/solvers/mod.rs"],[("simulators::Incremental","src/solvers/simulators.rs")])
p("S02","MaxSAT search returns an optimal solution",
  "The solution-improving search returns a solution that satisfies all hard clauses and whose reported cost is its true cost and minimal, or no solution iff the hard clauses are unsatisfiable, for every instance and every correct solver it is run with. Solving an optimization instance through the high-level interface gives the same guarantee including soft clauses and the offset.",
  ["inputs","schedules"],"all instances within the stated sizes; every order in which a correct solver may return models",
  "tests solve a few files with one solver, whose model order is fixed",
  ["src/algs/maxsat.rs",op],[("SolutionImprovingSearch::solve, OptInstance::solve_maxsat","src/algs/maxsat.rs")])
p("S03","The BatSat backend answers correctly",
  "For every CNF and assumptions, the BatSat backend answers satisfiable with a model of all clauses and assumptions, or unsatisfiable only if there is none, with a core that is a subset of the negated assumptions and is implied by the clauses; answers stay correct when clauses are added between calls.",
  ["inputs","histories"],"all CNFs and assumption sets within the stated sizes",
  "tests solve a few files",
  ["batsat/src/lib.rs"],[("BasicSolver Solve/SolveIncremental","batsat/src/lib.rs")])
p("S04","The Rust layers over native solvers are faithful",
  "For every sequence of operations on the CaDiCaL, Kissat, MiniSat, Glucose and IPASIR backends, the answers, models, cores, values, statistics, limits, options, phases, frozen variables, propagations and proof events a user sees are those of the native solver for the clauses and assumptions given: clauses, assumptions and callbacks reach the native solver unchanged, answers are not reported for other queries (earlier assumptions, temporary clauses), values are those of the last model and of the literal asked for, failures (interruption, exhausted memory, unexpected return values) are reported as such, functions of the native solver are only called as its interface allows (no unknown variables, no value without a model, no second query of a non-incremental solver), and callbacks and tracers live exactly as long as they are attached.",
  ["histories","inputs","fault_sequences"],"all operation sequences within the stated lengths and sizes, all answers that a correct native solver may give",
  "tests solve a few fixed instances with each backend",
  ["cadical/src/lib.rs","cadical/src/prooftracer.rs","kissat/src/lib.rs","minisat/src","glucose/src","ipasir/src/lib.rs"],[("Solve, SolveIncremental, Propagate, Terminate, Learn, FreezeVar, FlipLit, PhaseLit implementations","cadical/src/lib.rs"),("Minisat, Glucose","minisat/src/core.rs"),("Kissat","kissat/src/lib.rs"),("IpasirSolver","ipasir/src/lib.rs")])
p("K01","The C interface mirrors the Rust encodings",
  "Driving an encoder through the C interface delivers to the clause and assumption callbacks exactly the literals of a correct encoding: enforcing a bound through the C functions leaves an input assignment extendable iff it meets the bound, return codes report un-encoded and unsatisfiable bounds, and only fresh variables are used.",
  ["inputs","histories"],"all call sequences, literals and bounds within the stated sizes",
  "tests run one fixed C program per encoder",
  ["capi/src/encodings/mod.rs","capi/src/encodings/card.rs","capi/src/encodings/am1.rs","capi/src/encodings/pb.rs","capi/src/encodings/dpw.rs"],[("tot_*, am1 *, gte_*, bin_adder_*, dpw_*","capi/src/encodings")])
p("G01","Proof steps are written faithfully",
  "Every proof step writes a line that states exactly the constraint, coefficients, literals and constraint references it was given, and constraint identifiers handed out increase by one for each constraint the proof format assigns an identifier to, so that later references point to the constraint they were returned for.",
  ["histories","inputs"],"all step sequences up to the stated length with symbolic coefficients and bounds in the stated range",
  "tests compare a few snapshots",
  ["pigeons/src/lib.rs","pigeons/src/types.rs","pigeons/src/ops.rs"],[("Proof::{reverse_unit_prop,operations,redundant,delete_ids,..}","pigeons/src/lib.rs")])
# claimed by nobody: outside the reach of the technique
p("X01","Problem generators encode the problems they read",
  "The generators of the tools (clustering, knapsack, assignment, facility location) read every well-formed problem file in their formats and emit exactly that problem: feasible selections are the assignments satisfying the emitted constraints and costs equal the emitted objectives; similarities are mapped by the thresholds; other files are refused without panics or endless loops.",
  ["inputs"],"all problem files within the stated sizes, all selections",
  "tests parse one file per format and check nothing about the result",
  ["tools/src/encodings"],[("from_file","tools/src/encodings/knapsack.rs"),("parse_moolib","tools/src/encodings/assignment.rs"),("parse_voptlib","tools/src/encodings/facilitylocation.rs"),("Encoding","tools/src/encodings/cnf/clustering.rs"),("Encoding","tools/src/encodings/pb/assignment.rs"),("Encoding","tools/src/encodings/pb/knapsack.rs"),("Encoding","tools/src/encodings/cnf/knapsack.rs"),("Encoding","tools/src/encodings/pb/facilitylocation.rs")])
p("X02","Splitting an objective preserves its order",
  "gbmosplit splits an objective exactly where the criterion of the chosen algorithm (BMO, GBMO with the GCD criterion, full GBMO) holds; the original objective is the sum of the split objectives times their multipliers and orders any two assignments as the split objectives do lexicographically; the constraints are unchanged.",
  ["inputs"],"all weights within the stated sizes, all pairs of assignments",
  "tests split one fixed objective",
  ["tools/src/bin/gbmosplit.rs"],[("split, split_bmo, split_gbmo, check_split_thorough_gbmo, perform_split","tools/src/bin/gbmosplit.rs")])
p("X03","Converting to integer programs and enumerating solutions is faithful",
  "The integer program written by mo2ilp has the feasible points and costs of the instance (with added variables chosen optimally) and well-formed dimensions; the enumerator lists every solution, projected to the variables of the instance, exactly once and stops.",
  ["inputs","histories"],"all instances within the stated sizes, all models a correct solver may return",
  "tests do not run these tools",
  ["tools/src/bin/mo2ilp.rs","tools/src/bin/enumerator.rs"],[("write_instance, write_objective, write_constraint","tools/src/bin/mo2ilp.rs"),("Enumerator::next","tools/src/bin/enumerator.rs")])
p("N01","External solver processes are driven and cleaned up correctly",
  "Running an external solver executable passes it exactly the instance, interprets its output or exit code, and removes temporary files, whatever the process does.",
  ["fault_sequences","inputs"],"all behaviours of the child process",
  "tests run one real solver",
  ["src/solvers/external.rs"],[("external::Solver, call_external","src/solvers/external.rs")])
p("N02","Native solvers answer correctly",
  "The C and C++ code of CaDiCaL, Kissat, MiniSat and Glucose that is compiled into the backends answers satisfiable and unsatisfiable correctly.",
  ["histories","inputs"],"all call sequences",
  "tests run a shared suite on a few files",
  ["cadical/vendor","kissat/vendor","minisat/vendor","glucose/vendor"],[("native solvers","cadical/vendor")])
p("N03","Python bindings mirror the Rust API",
  "Encodings and types used from Python behave as their Rust counterparts.",
  ["inputs"],"all call sequences from Python","tests cover a few examples",
  ["pyapi/src/lib.rs"],[("PyO3 wrappers","pyapi/src/lib.rs")])
p("N04","Compressed instance files are read and written losslessly",
  "Reading and writing instance files with gz, bz2 or xz compression yields the same content as without compression.",
  ["inputs"],"all files","tests read a few files",
  ["src/instances/fio/mod.rs"],[("open_compressed_uncompressed_read/write","src/instances/fio/mod.rs")])
for x in P: print(json.dumps(x))
