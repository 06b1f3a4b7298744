#!/usr/bin/env python3
# Source of properties.jsonl (one JSON object per line). Run: python3 tools/mkprops.py
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

T="src/types/mod.rs"; C="src/types/constraints.rs"; O="src/types/operators.rs"
p("P01","Literal and variable representations convert without loss",
 "For every variable index up to the maximum and either sign, building a literal and reading back its variable, index and sign gives what was put in; negation flips exactly the sign and is an involution, and offsetting a literal or variable by n moves the index by n and keeps the sign. Converting a literal to the IPASIR/DIMACS integer and back is the identity whenever it is representable as a C int, and anything that is not a valid variable, literal or integer is rejected by an error or documented panic and never silently mapped to another literal.",
 ["inputs"],"all u32 indices, both signs, all i32 IPASIR integers, all offsets",
 "Unit tests use a handful of small indices; the faults live at the ends of the 31-bit range and in the bit packing of particular values.",
 [T],[("Lit::represent and the Lit/Var constructors",T),("Lit::to_ipasir, from_ipasir, *_with_error",T),("Not/Neg/Add/Sub operators on Lit and Var",O)])
p("P02","An assignment behaves as a partial map from variables to truth values",
 "After any sequence of updates, looking up a variable gives the last value assigned to it, and any variable never assigned (or beyond the stored range) is unassigned; updating one variable changes no other. Looking up a literal gives the variable's value with the literal's sign applied; truncating, defaulting unassigned entries, asking for the largest variable, and iterating over the assigned literals or collecting them from literals or booleans all agree with that map.",
 ["inputs","histories"],"all assignments, variables, literals, and update sequences",
 "Tests look at a few fixed short assignments; growth past the end, frame conditions on untouched variables and partial assignments are not enumerated.",
 [T],[("Assignment::var_value / lit_value",T),("Assignment::assign_var / assign_lit",T),("Assignment::truncate / replace_dont_care / max_var / iter",T)])
p("P03","Solver value lines are read as exactly the assignment they state",
 "Reading a SAT-competition or PB-competition style value line (white-space separated literals; in the latter a variable is negated by `-` or `~`) succeeds exactly when every listed literal is well formed and no variable is listed with both signs, and then each listed literal is true, previously known values that are consistent are kept, and no other variable is touched. Listing the same literal again is not an error; listing the opposite of an already true literal always is. A MaxSAT-evaluation style 0/1 string of a fresh assignment is read position by position.",
 ["inputs"],"all value lines (token sequences), all prior assignments",
 "The tests contain a few sample lines, none of which repeats a literal or contradicts itself in both orders.",
 [T],[("Assignment::extend_from_vline and its per-format readers",T)])
p("P04","Clause operations preserve the clause's meaning",
 "Evaluating a clause under a partial assignment gives true iff some literal is true, false iff all are false, otherwise undetermined, and a clause is reported a tautology iff it contains some literal and its negation. Normalising or sanitising a clause returns nothing only for tautologies and otherwise a clause with exactly the same set of literals, without duplicates (and sorted, when normalising). Removing a literal removes one (or, thoroughly, every) occurrence of it, nothing else, and reports whether there was one.",
 ["inputs"],"all clauses of any length, including duplicate and opposite literals; all partial assignments",
 "Tests check one or two example clauses per operation; clause length and the placement of duplicates/opposites are unbounded.",
 [C,O],[("Cl::evaluate, Cl::is_tautology",C),("Clause::normalize, sanitize, remove, remove_thorough",C)])
p("P05","Cardinality constraints keep their meaning under every transformation",
 "A cardinality constraint is satisfied by a total assignment exactly when the number of its true literals meets the bound, and under a partial assignment it evaluates to true (false) only if all (no) extensions satisfy it and to undetermined only if the outcome is genuinely open (each occurrence of a literal counted independently). Its classification as tautology, unsatisfiable, assignment or clause is correct with respect to that meaning. Normalising to the lower-bound forms, splitting an equality, adding or re-bounding, and converting to clauses, from clauses, or to and from the pseudo-Boolean form yields constraints satisfied by exactly the same assignments, or reports that this is impossible.",
 ["inputs"],"all literal lists (duplicates allowed), all bounds, all partial assignments",
 "Tests use a few 3- to 4-literal constraints with total assignments; degenerate bounds (0, n, >n) and partial assignments are not covered.",
 [C],[("CardConstraint and its Ub/Lb/Eq variants",C),("CardConstraint::evaluate / invert / split / into_clause",C)])
p("P06","Pseudo-Boolean constraints keep their meaning under every transformation",
 "A pseudo-Boolean constraint built from integer weights and an integer bound is satisfied by a total assignment exactly when the weighted sum of true literals meets the given bound, although it is stored with positive weights only; under a partial assignment it evaluates to true (false) only if all (no) extensions satisfy it and is otherwise undetermined only if genuinely open (each occurrence of a literal counted independently). Its classification as tautology, unsatisfiable, assignment, clause or cardinality constraint (an equality only if its common weight divides the bound) is correct with respect to that meaning. Adding, re-bounding, inverting, splitting and converting to cardinality constraints or clauses preserves the set of satisfying assignments, or reports that the conversion is impossible.",
 ["inputs"],"all weighted literal lists with integer weights of either sign or zero, all bounds, all partial assignments, as long as sums fit the machine integer",
 "Tests use a few fixed constraints; sign normalisation, zero weights, and extreme bounds have far more cases than the samples.",
 [C],[("PbConstraint::new_* normalisation",C),("PbConstraint::evaluate / split / into_card_constr / into_clause",C)])
A="src/encodings/atomics.rs"
p("P07","Implication helpers generate clauses equivalent to the stated implication",
 "For literals, clauses and cubes of any length (including empty), the clauses generated for 'a implies b' are satisfied by exactly the total assignments under which a is false or b is true. They mention no variable beyond those given. Reifying a cardinality or pseudo-Boolean constraint with a literal in one direction produces a constraint satisfied by exactly the assignments that satisfy that implication.",
 ["inputs"],"all literals and all literal lists of any length on both sides; all constraints and bounds",
 "Doc examples show one instance per helper; lists of arbitrary length on both sides and empty lists are not covered.",
 [A,"src/instances/sat.rs"],[("lit_impl_*, cube_impl_*, clause_impl_*",A),("card_impl_lit, pb_impl_lit and converses",A)])
p("P08","At-most-one encodings admit exactly the at-most-one assignments",
 "For every set of distinct input literals of any size and every at-most-one encoding offered, an assignment of the inputs extends to a model of the generated clauses iff at most one input is true. The clauses mention, besides the inputs, only variables newly requested from the variable manager, and the numbers of clauses and variables reported after the first encoding of a fresh encoder are those actually added.",
 ["inputs","configurations"],"all numbers of input literals and signs, all encodings and their size parameters",
 "The tests encode a few fixed sizes; the encodings have different corner cases at sizes around powers, squares and multiples of their parameter.",
 ["src/encodings/am1/pairwise.rs","src/encodings/am1/ladder.rs","src/encodings/am1/bitwise.rs","src/encodings/am1/commander.rs","src/encodings/am1/bimander.rs","src/encodings/am1/twoproduct.rs","src/encodings/am1/mod.rs"],
 [("Encode::encode of each encoding","src/encodings/am1/")])
p("P09","Cardinality encodings bound the number of true inputs exactly",
 "For a totalizer or a simulated cardinality encoding over any inputs, after encoding a range of bounds, assuming the literals returned for an upper (lower) bound in the range admits exactly the input assignments with at most (at least) that many true inputs, and without assumptions the clauses exclude no input assignment. This also holds when the range is extended or inputs are added between incremental calls, as long as the range is encoded again (incrementally) after adding inputs. Encoding a whole cardinality constraint admits exactly its satisfying assignments, and a bound that was not encoded or cannot be met is reported as an error rather than enforced wrongly.",
 ["inputs","histories","configurations"],"all input sets, all ranges and bounds, all sequences of extend/encode/enforce calls, all encoding types",
 "Tests check a few fixed sizes (up to about 7 inputs) with a few ranges and call orders each.",
 ["src/encodings/card/mod.rs","src/encodings/card/simulators.rs","src/encodings/totdb/mod.rs","src/encodings/nodedb.rs","src/encodings/card/totalizer/mod.rs"],
 [("totalizer node database and clause generation","src/encodings/totdb/mod.rs"),("simulators by negating or doubling literals","src/encodings/card/simulators.rs"),("encode_cardinality_constraint dispatch","src/encodings/card/mod.rs")])
p("P10","Pseudo-Boolean encodings bound the weighted sum exactly",
 "For a generalized totalizer, binary adder, dynamic polynomial watchdog or simulated pseudo-Boolean encoding over any positively weighted inputs, after encoding a range of bounds, assuming the literals returned for a bound in the range admits exactly the input assignments whose weighted sum meets that bound (for encodings that only promise this for returned rounded bounds, the rounded bound; for a polynomial watchdog at reduced precision, the sum of the weights divided by the precision divisor and rounded down), and without assumptions no input assignment is excluded. This also holds across incremental extension of inputs and ranges (encoded again incrementally after adding inputs) and whether upper, lower or both kinds of bounds are encoded. Encoding a whole pseudo-Boolean constraint admits exactly its satisfying assignments, and bounds that were not encoded or cannot be met are reported as errors rather than enforced wrongly.",
 ["inputs","histories","configurations"],"all weighted input sets, ranges, bounds, call orders and encoding types",
 "Tests check a few fixed weight vectors; carries, gcd divisions and non-power-of-two weights span far more cases.",
 ["src/encodings/pb/mod.rs","src/encodings/pb/adder.rs","src/encodings/pb/gte/mod.rs","src/encodings/pb/dpw/mod.rs","src/encodings/pb/simulators.rs","src/encodings/totdb/mod.rs","src/encodings/nodedb.rs"],
 [("weight mapping at node connections","src/encodings/nodedb.rs"),("adder network and comparators","src/encodings/pb/adder.rs"),("encode_pb_constraint dispatch","src/encodings/pb/mod.rs")])
p("P12","Variable managers hand out fresh variables and re-index invertibly",
 "A variable handed out as new has never been handed out before and lies above every variable marked as used or inherited from a combined manager, unless it was explicitly forgotten; the reported number of used variables and largest variable agree with this. Asking an object-keyed manager for the same object returns the same variable and for different objects different ones. A re-indexing manager maps equal variables to equal ones, different variables to different ones, and reversing gives back the original, also after variables were requested, reserved or forgotten in between. Images of re-indexing count as used (for a random re-indexing manager: of the variables it was made for). Combining two managers keeps freshness; it keeps their maps unless they contradict each other. All this as long as fewer than 2^31-1 variables are in use.",
 ["inputs","histories"],"all sequences of manager operations with all arguments",
 "Tests call four operations in one order; the guarantees are invariants over arbitrary operation histories.",
 ["src/instances/mod.rs"],[("ManageVars / ReindexVars implementations","src/instances/mod.rs")])
p("P13","Instance transformations preserve the set of solutions",
 "A satisfiability instance evaluates to true (false) under an assignment exactly when all (some) of its clauses and constraints do, and otherwise to undetermined. Sanitising, normalising, joining or extending with another instance, converting to CNF or to pseudo-Boolean constraints, and re-indexing variables yield an instance whose solutions, restricted (respectively mapped) to the original variables, are exactly those of the original (of both, when combining). The variable manager of an instance always covers every variable occurring in it.",
 ["inputs"],"all instances over clauses, cardinality and pseudo-Boolean constraints; all assignments",
 "Tests compare a few sample instances; mixes of constraint kinds and degenerate constraints are not enumerated.",
 ["src/instances/sat.rs"],[("SatInstance::evaluate, sanitize, convert_to_cnf, into_pbs, extend, reindex","src/instances/sat.rs"),("Cnf::evaluate, normalize, sanitize","src/instances/sat.rs")])
p("P14","Objectives always assign each solution its exact cost",
 "The cost of a complete assignment under an objective is its offset plus the total weight of its true soft literals and falsified soft clauses, where the weights are those given by the sequence of add and increase operations, in whichever internal representation they are stored. Queries for the weight of a soft literal or clause and for weight sums agree with that. Weights and their sums fit the machine integer. Converting between weighted and unweighted form, to soft clauses or to soft literals with added hard clauses, re-indexing, and round-tripping preserves the cost of every assignment (minimised over the added variables).",
 ["inputs","histories"],"all sequences of soft-literal/soft-clause operations, weights, offsets and assignments",
 "Tests evaluate a couple of fixed objectives; switches of the internal representation in the middle of an operation sequence are hardly covered.",
 ["src/instances/opt.rs"],[("Objective add_/increase_ operations and conversions","src/instances/opt.rs")])
p("P15","Solution-improving search returns a minimum-cost solution",
 "Given a correct incremental SAT solver holding the constraints whose solutions assign every variable of the objective and a correct upper-bounding encoding, solution-improving search returns no solution exactly when the constraints are unsatisfiable, and otherwise a solution of the constraints together with its cost under the objective such that no solution of the constraints has a lower cost. It terminates for every objective.",
 ["inputs","histories"],"all solver contents and objectives over the solver's variables, all correct solver answers",
 "The tests run a few instances with one solver; which model a solver returns determines the number and bounds of the iterations.",
 ["src/algs/maxsat.rs"],[("SolutionImprovingSearch::solve and objective_value","src/algs/maxsat.rs")])
p("P20","Writing and re-reading an instance file preserves the instance",
 "Writing a CNF, WCNF, MCNF or OPB file from an instance and parsing it again yields an instance with the same constraints, objectives and offsets. Malformed input is rejected with an error and never read as a different instance.",
 ["inputs"],"all instances and all input byte sequences",
 "Tests parse a set of sample files.",
 ["src/instances/fio/dimacs.rs","src/instances/fio/opb.rs"],[("winnow based parsers and fmt based writers","src/instances/fio/")])
p("P21","Solver interfaces follow the IPASIR state discipline and return true models",
 "A solver interface answers queries only in the states that allow them, a returned model satisfies all added clauses and assumptions, and a returned core is a subset of the assumptions that is unsatisfiable with the clauses.",
 ["inputs","histories"],"all sequences of calls on every bundled solver",
 "Tests run a handful of call sequences.",
 ["cadical/src/lib.rs","minisat/src/core.rs","glucose/src/core.rs","kissat/src/lib.rs","batsat/src/lib.rs","ipasir/src/lib.rs","src/solvers/mod.rs"],[("state machine around the foreign solver","cadical/src/lib.rs")])
p("P22","Certified encodings produce proofs that a checker accepts",
 "The proof lines logged while encoding derive every generated clause so that an independent proof checker accepts the proof for every input.",
 ["inputs","histories"],"all inputs and call orders of the certified encodings",
 "Tests check a few proofs with the external checker where it is installed.",
 ["src/encodings/totdb/cert.rs","src/encodings/card/cert.rs","src/encodings/pb/cert.rs","pigeons/src/lib.rs"],[("cert module of the totalizer database","src/encodings/totdb/cert.rs")])
p("P23","The C API mirrors the Rust encodings",
 "Every function of the C interface has the effect and return value of the Rust operation it wraps, and passes each generated clause and fresh variable to the caller's callbacks exactly once.",
 ["inputs","histories"],"all call sequences over the C interface",
 "A few C test programs cover one call order per encoding.",
 ["capi/src/encodings/mod.rs"],[("extern C wrappers","capi/src/encodings/")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
