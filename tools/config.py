TRUST_NOTES = [
    "Verus 0.2026.09.13 and Z3: soundness of the verifier, of vstd and of its model of Rust",
    "vx: the mechanical extraction and desugaring of the listed functions (rewrites listed under extraction_rewrites)",
    "rustc: the compiled code has the semantics of the source",
]
PROPS = {
    "P01": dict(
        kani=["p01", "reject_lit", "reject_var"],
        technique="Kani full-domain loop-free proof harnesses on the compiled functions, bounded contract execution for replays",
        level_note="All obligations hold for all 2^32 bit patterns (loop-free, full-domain CBMC proofs on the compiled crate). Trusted: Kani/CBMC. Panics on invalid input are proved to be unavoidable (unreachable cover points).",
        bounded="lit_* suites: edge and random indices",
    ),
    "P02": dict(
        verus=["P02"],
        technique="Verus contracts on mechanically extracted Assignment functions, bounded contract execution for replays",
        level_note="Every listed function verified for all inputs against a partial-map view; iteration/collection traits are bounded only.",
        bounded="assign_* suites",
    ),
    "P03": dict(
        verus=["P03"],
        technique="Verus contracts on the mechanically extracted value-line readers (acceptance, conflicts and resulting assignment for every token sequence and prior assignment), bounded contract execution for replays",
        level_note="extend_from_vline, the three per-format readers, from_vline, assign_lit/assign_var and Lit::from_ipasir verified for all texts and prior assignments. Trusted: the standard library's splitting into lines and white-space separated tokens, trim, decimal i32 parsing; the one-literal OPB parser is named, not verified (bounded suites run the real one).",
        bounded="vline_* suites (all three formats, tabs, several lines, malformed tokens)",
        assumptions=["indexing a text after its ASCII tag removes exactly the tag", "the format of a text (contains x; single word of zeroes and ones; otherwise) is as documented"],
    ),
    "P05": dict(
        verus=["P05"],
        technique="Verus contracts on the mechanically extracted cardinality-constraint functions (satisfaction as a counting sum), bounded contract execution for replays",
        level_note="All cardinality constraint functions verified for all inputs, any number of literals, every total and partial assignment. Trusted: the standard library's sort (permutes and sorts); generic literal iterators are instantiated with Vec<Lit>.",
        bounded="cons_card suites (also change_bound and the derived traits)",
        assumptions=["completeness of the classification (not tautology => falsifiable, not unsat => satisfiable) and of the undetermined verdict is stated for pairwise distinct variables; otherwise every literal occurrence counts independently"],
    ),
    "P06": dict(
        verus=["P06"],
        technique="Verus contracts on the mechanically extracted pseudo-Boolean constraint functions (satisfaction as a weighted sum, unbounded integers), bounded contract execution for replays",
        level_note="All pseudo-Boolean constraint functions verified for all inputs within the stated ranges: constructors from signed weights, normalization, classification, conversion to cardinality constraints and clauses, partial evaluation. Trusted: sort, try_from, unsigned_abs, Ordering predicates, map_or/is_some_and, last_mut, element copies of Vec::clone; generic literal iterators are instantiated with Vec.",
        bounded="cons_pb suites",
        assumptions=["64-bit target (usize is 64 bits)", "total absolute weight at most isize::MAX and the shifted bound fits isize (beyond that the functions overflow)", "the cached weight sum is the sum of the weights (established by every constructor; weights changed through iter_mut are outside)", "completeness of classification and of undetermined verdicts for pairwise distinct variables"],
    ),
    "P07": dict(
        verus=["P07", "P07R"],
        technique="Verus contracts on the mechanically extracted implication encodings and reifications, bounded contract execution for replays",
        level_note="All atomic implications: truth-functional equivalence and literals used, any number of literals. Reification of cardinality and pseudo-Boolean constraints: the produced constraint holds exactly when the implication holds. Trusted: derived Clone of PbConstraint, try_from/expect; returned lazy iterators are identified with the sequence they yield.",
        bounded="atomics suites",
        assumptions=["64-bit target", "2 * weight sum (pb_impl_lit) resp. bound + weight sum (lit_impl_pb) within isize", "the implied constraint is not unsatisfiable (documented panic)"],
    ),
    "P04": dict(
        verus=["P04"],
        technique="Verus contracts on mechanically extracted clause operations (all clauses of any length), bounded contract execution for replays",
        level_note="evaluate, is_tautology, normalize(_in_place), sanitize, remove, remove_thorough, sort, add, |, construction: all verified for all clauses and partial assignments. Trusted: the standard library's sort_unstable permutes and sorts, dedup removes equal neighbours, HashSet and Vec models of vstd.",
        bounded="clause suites on the real code",
        assumptions=["the unsized slice wrapper Cl is identified with Clause", "Literal comparison/hash derive the order of the packed integer"],
    ),
    "P08": dict(
        verus=["P08"],
        technique="Verus contracts on all six mechanically extracted at-most-one encodings (soundness, conservativity, fresh variables, statistics), any number of inputs, bounded contract execution for replays",
        level_note="Pairwise, Ladder, Bitwise, Commander, Bimander and TwoProduct (the latter three for every sub-encoding meeting the same contract): clauses exclude exactly the assignments with two true inputs up to fresh variables; only inputs and newly requested variables occur; reported counts are those added. Trusted: collectors append what they are given and count it, variable managers hand out consecutive variables (proved under P12), usize::div_ceil, ilog-free digit count proved.",
        bounded="am1 suites",
        assumptions=["at most u32::MAX inputs, all below the next free variable; fewer than 2^31-1 variables (running out panics)", "split size N > 0", "statistics: first encoding of a fresh encoder, no collector error", "lazily passed clause iterators are identified with the sequence they yield"],
    ),
    "P15": dict(
        verus=["P15"],
        technique="Verus: SolutionImprovingSearch::solve, objective_value and the solver trait's default solution() verified against contracts of a correct incremental solver and a correct upper-bounding encoding; optimality and termination for all formulas and objectives",
        level_note="Proved for every solver and encoding meeting the stated trait contracts (sound and complete answers, total solutions; conservative, monotone re-encodable upper bounds). That concrete solvers and encodings meet them is not part of this check (encodings: P07, P10; solvers: foreign code).",
        bounded="sis suite: the real search over small formulas with an exhaustive solver",
        assumptions=["the solver answers correctly, is never interrupted, and its solutions assign every variable up to the requested one", "the encoding is a correct incremental upper bound (trait contract VxEnc)", "weights of the objective sum to at most usize::MAX; fewer than 2^31-1 variables", "errors of the solver panic, as documented"],
    ),
    "P09": dict(
        verus=["P09", "P09C"],
        technique="Verus contracts on the mechanically extracted totalizer and its node database (tree building, output definition by recursion over tree and range, reset, enforce, encode both directions, incremental change, statistics) against a value semantics of nodes, any number of inputs and any history of calls; bounded contract execution for replays",
        level_note="Totalizer: every encode call adds only clauses whose literals are inputs or outputs, consistent with counting (each input assignment extends over the fresh outputs and satisfies them), and makes every bound of the range enforceable; enforce_ub/lb's cube then implies, and is implied under counting by, the bound; earlier bounds survive re-encoding and input extension; counts exact. Stood in for: RangeBounds by an equivalent own trait, the default impl of the database. Weighted nodes of the shared database are proved unreachable from the cardinality totalizer. The simulators (inverted, double) are verified against a trait contract for every base encoding meeting it, and the totalizer meets it; so are the provided encode_*_constr methods and encode_cardinality_constraint. Bounded only: reserve.",
        bounded="card_enc suites (all encodings, simulators, histories)",
        assumptions=["inputs lie below the next free variable and are not outputs of the encoding itself", "n_vars and n_clauses count at most what manager and collector hold", "fewer than 2^31-1 variables, vectors shorter than isize::MAX", "an encoding call that returns OutOfMemory promises nothing"],
    ),
    "P10": dict(
        verus=["P10"],
        level="exploration",
        technique="Verus contracts on the mechanically extracted provided encoders of whole pseudo-Boolean constraints (encode_ub/lb/eq_constr, encode_constr, encode_pb_constraint with its clause, assignment and cardinality shortcuts) and on the simulators Inverted, Double and Card, for every base encoding meeting a stated encoding contract; Card over the totalizer proved of P09 is a concrete instance; enumeration against brute force for the generalized totalizer, polynomial watchdog and adder",
        level_note="Mixed, so claimed at the weaker level. Proved for all weighted literals, ranges and histories of encode/extend/enforce, relative to the stated contract of the base encoding (trait PbEnc): simulated encodings again meet that contract, and every provided constraint encoder adds clauses over the constraint's variables and fresh variables whose projections are exactly the solutions; Unsat is reported only for unsatisfiable constraints. Card meets the contract for every cardinality encoding meeting the cardinality contract (proved for Totalizer, Inverted, Double in P09). NOT proved, bounded only (pb_enc suites): that GeneralizedTotalizer, DynamicPolyWatchdog and BinaryAdder themselves are correct, and default_encode_pb_constraint, which instantiates the provided encoder with the generalized totalizer.",
        bounded="pb_enc, pb_redo, dpw_prec suites (all encodings, simulators, histories, precisions; deciding for GTE, DPW and BinaryAdder)",
        assumptions=["base encodings meet the stated trait contract (GTE, DPW, BinaryAdder: bounded only)", "weight sums below usize::MAX", "constraints are well formed (weight sum equals the sum of weights)", "input variables lie below the next free variable and are not outputs of the encoding itself", "hash map operations clone, into_iter and entry +=, and Vec::resize are trusted models"],
    ),
    "P12": dict(
        verus=["P12"],
        opts={"P12": {"shards": 1}},
        technique="Verus contracts on mechanically extracted variable managers against ghost map views, bounded contract execution for replays",
        level_note="All managers verified for all inputs: freshness against next(), re-indexing maps mutually inverse, object map injective. Trusted: HashMap model of vstd plus retain/extend/consuming iteration, shuffle is a permutation, Box<dyn VarKey> compares by (type, value). Combining re-indexing or object managers: map consistency only if the two maps do not contradict each other.",
        bounded="vm_* suites (all managers, random operation sequences)",
        assumptions=["fewer than 2^31-1 variables are handed out", "keys `Box<dyn VarKey>` replaced by an abstract key per (type, value)", "RandReindVarManager::combine: only freshness"],
    ),
    "P13": dict(
        verus=["P13"],
        technique="Verus: every transformation of src/instances/sat.rs (building, combining, evaluate, sanitize, into_pbs, conversion to CNF with any correct encoders, re-indexing) verified on mechanically extracted code against the set of satisfying assignments, for all instances; bounded contract execution for replays",
        level_note="Proved for all instances, every variable manager, re-indexing manager and encoder meeting the stated trait contracts. Conversion is proved for any pair of encoders that are correct in the sense of P09/P10/P07 (projection onto the original variables); that the default encoders are is P07/P09/P10's matter. Trusted: sort_unstable/dedup/drain/retain of std, iteration over a BTreeSet, shuffle. Not under contract: readers and writers, FromIterator over parser lines, CollectClauses::extend_clauses of an instance (lazy inspect; bounded suite).",
        bounded="inst_* suites (random instances over few variables, all assignments)",
        assumptions=["number of constraints and weight sums at most isize::MAX for into_pbs", "pseudo-Boolean constraints are well formed (weight sum equals the sum of weights; guaranteed by the constructors, P06)", "fewer than 2^31-1 variables (running out panics)", "re-indexing managers meet the trait contract proved under P12 (a random re-indexing manager: made for at least the instance's variables)"],
    ),
    "P14": dict(
        verus=["P14"],
        technique="Verus: every operation, query, conversion and re-indexing of Objective and of the optimization instance verified on mechanically extracted code against the exact cost function of its assignments, in all four internal representations; bounded contract execution for replays",
        level_note="Proved for all objectives, all operation sequences (each operation is proved to have exactly its stated effect on the represented soft literals, soft clauses and offset, whatever the representation), all assignments. Conversions to soft literals are proved to give hard clauses whose extensions reach exactly the original minimum. Trusted: HashMap/Vec iteration order and consumption helpers, derived equality/hash of Clause. Not under contract (bounded suite only): normalize and the combined conversions built on it, iterators, into_hard_cls_*, shuffle.",
        bounded="obj_* suites (random operation sequences, all assignments, normalize, combined conversions)",
        assumptions=["weights positive where added; sum of weights and offset within isize/usize", "fewer than 2^31-1 variables", "re-indexing managers meet the trait contract proved under P12; the map is injective on the objective's variables as the contract states"],
    ),
}
INTERIM = "Bounded only so far: the contracts are executed on the real code on generated inputs, nothing is counted as proved yet."
for _p in ("P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P12", "P13", "P14", "P15"):
    PROPS.setdefault(_p, dict(technique="bounded contract execution on the real code (stand-in)", level="exploration", level_note=INTERIM, bounded="all suites of " + _p))
NOT_APPLICABLE = {
    "P20": "text formats: the readers are winnow parser combinators and the writers are fmt machinery (closures returning impl Parser, dyn io); no contract within reach of the installed verifiers can express or decide them",
    "P21": "the behaviour is produced by foreign C/C++ solvers behind FFI; a contract on the Rust wrapper can only assume what the solver answers",
    "P22": "acceptance by an external proof checker is a property of a whole printed text and a second program, not of any function contract",
    "P23": "extern C wrappers with raw pointers and caller callbacks in a separate crate: unsafe pointer provenance and foreign callbacks are outside both verifiers",
}
