"""What decides each property: obligations modules, build configurations, and what the evidence says about them."""
REPO_CRATES = ["poseidon-base", "poseidon-circuit"]
TRUSTED = [
    "rustc nightly: type checking, trait resolution, MIR construction and const evaluation",
    "polymir (/verif/polymir): abstract semantics of MIR and of the compiler's intrinsics",
    "the field axioms for the field types of halo2curves/ff (their arithmetic is taken as exact and not re-verified)",
    "random interpretation: polynomial equalities too large to expand are decided by evaluation at points of a 254-bit field (one-sided error below degree/2^254 per equality; counted in equalities_by_random_interpretation)",
]
HOW = ("abstract interpretation of the compiler's MIR of /repo together with the obligations: field elements are polynomial value "
       "numbers over symbolic inputs, integers constants or unknowns, unknown branches are joined at post-dominators; "
       "an obligation compares what the library computes with an independent definition for all inputs at once; anything undecided counts as a violation")
BASE = "obligations"
SHORT = {"crate": BASE, "config": "default", "args": []}
LEGACY = {"crate": BASE, "config": "legacy", "args": ["--features", "legacy"], "env": ["legacy=1"]}
LONG = {"crate": BASE, "config": "long", "args": ["--no-default-features"]}

def base(module, extra=True):
    r = [dict(SHORT, module=module)]
    for c in (LEGACY, LONG):
        x = dict(c, module=module)
        if not extra:
            x["thorough_only"] = True
        r.append(x)
    return r

CIRCUIT = "obligations-circuit"
CPAR = {"crate": CIRCUIT, "config": "cpar", "args": ["--features", "parallel_syn,pasta"], "prepare": "shadow.py"}
CDEF = {"crate": CIRCUIT, "config": "cdef", "args": [], "prepare": "shadow.py"}
CLEGACY = {"crate": CIRCUIT, "config": "clegacy", "args": ["--features", "parallel_syn,base-legacy"], "env": ["legacy=1"], "prepare": "shadow.py"}
CLONG = {"crate": CIRCUIT, "config": "clong", "args": ["--no-default-features", "--features", "parallel_syn"], "prepare": "shadow.py"}

def circuit(module, quick=(CPAR,), thorough=(CDEF, CLEGACY, CLONG)):
    return [dict(c, module=module) for c in quick] + [dict(c, module=module, thorough_only=True) for c in thorough if c not in quick]

STUB = ["halo2-stub (/verif/halo2-stub): the recorder that stands in for halo2_proofs has its API and the documented meaning of columns, gates, lookups, selectors, regions, copies and tables; the proof system itself is not analysed"]
SOUND = ("abstract interpretation of the compiler's MIR of /repo: configure and synthesize run on a recorder in place of halo2_proofs, then everything the recorded "
         "constraints determine is propagated (affine steps and elimination over polynomial value numbers) from the cells a user reads; what the constraints leave "
         "undetermined, or determine to anything but the specification, is a violation. All other cells are adversarial unknowns")
HONEST = ("abstract interpretation of the compiler's MIR of /repo: configure and synthesize run on a recorder in place of halo2_proofs with symbolic field elements; every gate, lookup and copy "
          "is then evaluated as a polynomial of the symbols and must vanish identically")
PROPS = {
    "P01": dict(level="proof", runs=base("p01"), rule="one obligation per specification, field and entry point; the input state is symbolic",
                explanation=HOW + ". User specifications are covered for the widths, round counts and (opaque) S-box listed in the obligations; for the shipped ones the statement is decided in full."),
    "P02": dict(level="proof", runs=base("p02"), rule="one obligation per entry point and kind of domain argument; both inputs and the domain are symbolic", explanation=HOW),
    "P03": dict(level="other", runs=base("p03"), rule="one obligation per family of lengths; elements and capacity are symbolic",
                explanation=HOW + ". Message length is a loop bound: it is decided for every length up to a bound and for the lengths around every integer constant that occurs in the analysed code and, when the code holds values of narrow integer types, beyond their range; other lengths are not covered by an induction."),
    "P04": dict(level="other", runs=base("p04"), rule="one obligation per family of lengths and kind of capacity", explanation=HOW + ". Lengths as for P03; the explicit capacity is a symbolic 128-bit integer."),
    "P05": dict(level="other", runs=base("p05"), rule="one obligation per layout, width, rate and range of lengths; elements are symbolic",
                explanation=HOW + ". The length is a const parameter, so it is decided for the instantiations listed in the obligations, which include lengths around the integer constants of the code."),
    "P06": dict(level="other", runs=base("p06"), rule="one obligation per kind of history before a hash; plus an effect analysis of every static the hashing code can reach",
                explanation=HOW + ". Independence of other threads is decided by the effect analysis: the only statics reached are once-initialised and hold constants."),
    "P07": dict(level="other", runs=base("p07"), rule="one obligation per family of public calls; every panic edge (assert, bounds, overflow, unwrap) that the abstract state reaches is a violation", explanation=HOW + ". Lengths as for P03."),
    "P08": dict(level="proof", runs=base("p08"), rule="one obligation per parameter source and field, element by element against the published tables and against each other", explanation=HOW + ". The parameters are compile-time data, so constant propagation decides them exactly."),
    "P09": dict(level="other", runs=base("p09"), rule="one obligation per shape of table; round constants and matrix are symbolic", explanation=HOW + ". Decided for the numbers of full and partial rounds listed in the obligations with every table entry symbolic, and for the shipped tables."),
    "P10": dict(level="other", runs=base("p10", False), rule="one obligation per width and selection; sampled points are symbolic, collision patterns enumerated",
                explanation=HOW + ". Widths 2..9. Distinct symbolic points are in generic position (two different symbols are unequal), collisions are introduced explicitly by the draw pattern."),
    "P11": dict(level="other", runs=base("p11", False), rule="one obligation per group of instances (field size, width, rounds, selection)",
                explanation=HOW + ". The instance parameters are compile-time constants: constant propagation through the generator is compared, value by value, with an independent definition of the Grain stream for the listed instances; a general statement over all instances is out of reach."),
    "P12": dict(level="other", script="witness", technique="compile-fail witnesses: type, privacy, trait and borrow analysis by the compiler",
                rule="one obligation per program: every claim file of witness/claims is a program that must compile and, for each marked line, the same program with a forbidden line, which must be rejected at that very line",
                explanation="type-level witnesses: the compiler's type, privacy, trait-resolution and borrow analysis of the current /repo decides each program; nothing is run. Programs are those of witness/claims, representative of each way to break a rule; a rule enforced by a signature (ownership, array length, sealed trait, auto trait) then holds in every program that uses that signature"),
    "C01": dict(level="proof", runs=circuit("c01"), trusted=STUB, rule="one obligation per number of permutations and batch split; input states are symbolic, all other cells unknown",
                explanation=SOUND + ". Decided in full for one block; for blocks in a batch, for the batch sizes and numbers of workers listed."),
    "C02": dict(level="proof", runs=circuit("c02"), trusted=STUB, rule="one obligation per specification and width; input states are symbolic, all other cells unknown",
                explanation=SOUND + ". Decided in full for the shipped specifications; for users' specifications, for the widths and numbers of rounds listed."),
    "C03": dict(level="other", runs=circuit("c03") + circuit("c03b", (CPAR,), (CDEF,)), trusted=STUB, rule="one obligation per pattern of header marks, chip and strategy; inputs, controls and domains are symbolic, all other cells unknown",
                explanation=SOUND + ". Tables of up to five rows and of twenty, messages of up to three rows; the step from a row to the next is decided at each row of the small tables and at the rows around chunk boundaries of the large ones. Tables of up to 257 rows are compared with the small ones: every row is tied to a permutation of its own in the same way, and fixed cells and selectors repeat."),
    "C04": dict(level="other", runs=circuit("c04", (CPAR, CLEGACY), (CDEF, CLONG)), trusted=STUB, rule="one obligation per step, capacity and strategy, for each row: mark symbolic, 0 and 1; controls symbolic",
                explanation=SOUND + ". Steps 1, 32, 62 and 200 and capacities 1 to 5 and 20; every row of these tables."),
    "C05": dict(level="other", runs=circuit("c05", (CPAR, CLEGACY, CDEF), (CLONG,)) + circuit("c05b", (CPAR,), (CDEF,)), trusted=STUB, rule="one obligation per shape of table, chip and strategy; field elements and domains are symbolic",
                explanation=HONEST + ". The shapes of tables (rows, controls, capacity) are those listed in the obligations, with up to 25 entries and messages of up to 17 rows."),
    "C06": dict(level="other", runs=circuit("c06") + circuit("c06b", (CPAR,), (CDEF,)), trusted=STUB, rule="one obligation per shape of table and set of worker numbers; field elements and domains are symbolic, the recordings of both strategies are compared cell by cell",
                explanation="abstract interpretation of the compiler's MIR of /repo: both strategies are run on a recorder in place of halo2_proofs and their recordings compared: fixed cells, selectors, copy classes, advice values as polynomials. Shapes and worker numbers are those listed; interleavings do not matter because sub-regions own disjoint rows (checked by the recorder)"),
    "C07": dict(level="other", runs=circuit("c07") + circuit("c07b", (CPAR,), (CDEF,)), trusted=STUB, rule="one obligation per strategy, chip and family of tables; each is compared with the recording at key generation",
                explanation="abstract interpretation of the compiler's MIR of /repo: synthesis is recorded for tables of symbolic and of special values, with and without witness, and fixed cells, selectors, copy classes and rows are compared with those of the empty table without witness. Capacities and tables are those listed; for field elements the statement covers all values, because a branch on an unknown one would be reported"),
    "C08": dict(level="other", runs=circuit("c08", (CPAR,), (CDEF,)), rule="one obligation per family of call sequences; all sequences of up to three of eight calls, elements, domains and digests symbolic",
                explanation="abstract interpretation of the compiler's MIR of /repo: after each call of a sequence the table is compared with the rows the calls describe. All sequences of up to three of eight representative calls, some longer ones, and every starting control up to four steps for several steps; longer sequences are not covered by an induction"),
    "C09": dict(level="other", runs=circuit("c09", (CPAR, CLONG), (CDEF, CLEGACY)) + [dict(SHORT, module="c09b"), dict(LONG, module="c09b")], trusted=STUB,
                rule="one obligation per way of loading and family of table sizes; block size, estimate and recorded rows are compared",
                explanation="abstract interpretation of the compiler's MIR of /repo: the rows the chip of the configuration uses are recorded and compared with the estimate, in the configurations with and without `short`; sizes are those listed"),
    "C10": dict(level="other", runs=circuit("c10"), trusted=STUB, rule="one obligation per width, rate and set of lengths; message elements are symbolic, all other cells unknown",
                explanation=SOUND + "; the assigned witness is evaluated as well. Lengths 1 to 9, 32, 33 and some up to 64, and widths 2 to 5"),
}
