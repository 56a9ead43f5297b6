#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
B = "poseidon-base/src/"
C = "poseidon-circuit/src/"
P = []
def p(id, title, statement, over, text, why, files, mechanism, **kw):
    a = {"files": files, "mechanism": mechanism}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "The permutation is Poseidon, for every state and every entry point",
  "For every input state, the public permutation, instantiated with either shipped specification and that specification's own constants, and the permutation offered by a hasher object, replace the state by the result of R_F/2 full rounds, then R_P partial rounds, then R_F/2 full rounds of Poseidon (add round constants, x^5 S-box on all lanes or on lane 0 only, multiply by the MDS matrix), with round i using round constant i. "
  "Plain and compact specification and all entry points give identical results on every state, and for a user-defined specification of another width, round count or S-box the same round structure is followed.",
  ["inputs", "configurations"], "every state in F^T; both shipped specifications; user specifications of other widths, round counts and S-boxes",
  "The tests compare the two specifications on one hard-coded state of the BN254 field and two states of the Pasta field; a fault that needs a particular state value, lane or round count is not seen.",
  [B+"primitives.rs", B+"primitives/p128pow5t3.rs", B+"primitives/p128pow5t3_compact.rs"],
  "permute() drives r_f/2 + r_p + r_f/2 rounds through chained iterators zipped with the round constants; Spec::sbox and Spec::constants are overridden per specification.")

p("P02", "Two-to-one hashing is the first lane of the permuted [domain, a, b]",
  "For every pair of field elements and every domain element, the two-to-one hash equals lane 0 of the Poseidon permutation of the state [domain, a, b]. "
  "The variant without a domain argument equals the same hash with domain zero, and a hasher object obtained from the API (fresh or cached) gives the same digest.",
  ["inputs"], "every (a, b, domain) in F^3, every way to obtain the hasher",
  "No stable test of the base crate checks a digest of the domain-separated two-to-one hash at all; known-answer vectors would still sample three or four points.",
  [B+"hash.rs", B+"primitives.rs"],
  "Hashable::hash_with_domain builds ConstantLengthIden3<2> on a Sponge with layout = width - rate, adds the domain with update_capacity and squeezes one element.")

p("P03", "Variable-length hashing is the zero-padded Poseidon sponge",
  "For every non-empty message of field elements and every capacity value, the variable-length hash equals the sponge computed from the definition: the state starts as [capacity, 0, 0], the message is zero-padded to a multiple of the rate 2, each block is added into lanes 1 and 2 and the state permuted once per block, and the digest is lane 0 after the last block.",
  ["inputs"], "every message length >= 1 and all message contents; every capacity",
  "The tests of the base crate never hash a variable-length message; block boundaries, padding and long messages are not reached.",
  [B+"hash.rs", B+"primitives.rs"],
  "Hash::<.., VariableLengthIden3, ..>::hash_with_cap absorbs message and padding one element at a time; Sponge::absorb permutes when the rate slots are full, finish_absorbing runs the last permutation.")

p("P04", "Message length is bound into the digest unless a capacity is given",
  "When no capacity is supplied, a message of n elements is hashed with capacity n * 2^64 (n in legacy mode), so messages that differ only in trailing zero elements are hashed from different initial states. "
  "When a capacity is supplied, exactly that 128-bit value is used as the capacity lane, whatever the length and whatever its upper or lower half is.",
  ["inputs", "configurations"], "every length n, every explicit 128-bit capacity, both legacy settings",
  "No stable test observes the capacity of a variable-length hash; both feature settings and the 128-bit range are out of reach for examples.",
  [B+"hash.rs", B+"primitives.rs"],
  "MessageHashable::hash_msg computes cap.unwrap_or(len * HASHABLE_DOMAIN_SPEC); hash_with_cap converts it with from_u128 and adds it to the capacity lane.")

p("P05", "Constant-length hashing follows both published layouts for every length",
  "For every constant length L, the zcash-style hasher equals the sponge that puts inputs in lanes 0.. and capacity L * 2^64 in the last lane, and the iden3-style hasher equals the sponge with the domain in lane 0 and inputs in the lanes after it; both zero-pad the message to a multiple of the rate, permute once per block and return lane 0. "
  "This also holds for user specifications of other widths and rates.",
  ["inputs", "configurations"], "every L >= 1 and message in F^L, every domain, both layouts, several (width, rate)",
  "The tests only hash two elements (one block, no padding) with the zcash layout; multi-block and padded messages, the iden3 layout and other widths are never run.",
  [B+"primitives.rs"],
  "Domain::{initial_capacity_element, padding, layout} per domain, Sponge::{new, update_capacity, absorb, finish_absorbing, squeeze}, poseidon_sponge.")

p("P06", "Digests depend only on the arguments: no state leaks between hashes",
  "Hashing is a pure function of its arguments: the digest or permutation obtained from a hasher does not depend on what was hashed or permuted before, on how many hashers were created, cloned or cached, on whether lazily initialised parameters were already initialised, or on other threads. "
  "Permuting a state through a hasher does not change that hasher.",
  ["histories", "schedules", "inputs"], "every history of earlier calls and every interleaving of threads",
  "Tests run each operation once or twice from a fresh process; a stateful cache or counter that corrupts the n-th or a concurrent call is not reached.",
  [B+"hash.rs", B+"params.rs", B+"primitives.rs", B+"primitives/bn256/fp.rs"],
  "Cached hashers in OnceCell statics are cloned per use; parameter tables are lazy_static; Hash::hash consumes the hasher.")

p("P07", "Valid hashing calls always terminate normally",
  "No hashing or permutation call of the public API panics, overflows, indexes out of bounds or fails an assertion for any field elements, any domain or capacity value, any non-empty message length or any constant length.",
  ["inputs"], "all field elements, capacities, non-empty message lengths and constant lengths",
  "Tests see a handful of inputs; a panic that needs a particular length or capacity is not reached.",
  [B+"hash.rs", B+"primitives.rs", B+"params.rs"],
  "assert!(layout_offset <= T - RATE), expect(\"padded input\"), assert_eq!(input_len, L), slice indexing, u128 multiplication in hash_msg.")

p("P08", "All parameter sources agree, and the inverse matrix is the inverse",
  "The round constants, the MDS matrix and its inverse that a user obtains from a specification, from the field's constants trait, from the cached accessors and from the free parameter functions are mutually consistent for the plain and the compact form: same number of rounds as the specification announces, same values, and MDS times inverse is the identity. "
  "The BN254 tables equal the published Poseidon parameters (254-bit field, width 3, 8 full and 57 partial rounds).",
  ["configurations", "inputs"], "every accessor, every entry of every table",
  "Tests compare some accessors with each other on one configuration and spot-check four entries; the cached accessors and the free functions are never compared with the specification.",
  [B+"params.rs", B+"primitives/bn256/mod.rs", B+"primitives/bn256/fp.rs", B+"primitives/p128pow5t3.rs", B+"primitives/p128pow5t3_compact.rs"],
  "Spec::constants, P128Pow5T3Constants::{round_constants, mds, mds_inv}, CachedConstants/CachedSpec accessors over a lazy_static, params::{round_constant, mds}.")

p("P09", "Compact constants are equivalent to the plain ones for every parameter table",
  "For every field with arbitrary round constants, MDS matrix and number of partial rounds, the compact specification's rewritten constants are zero in lanes 1 and 2 of every partial round, leave all other data (MDS, inverse, full-round constants before the partial rounds) unchanged, and make the compact permutation equal to the plain permutation on every state.",
  ["inputs", "configurations"], "every constants table, MDS matrix, partial-round count and state",
  "The test checks equality for the one BN254 table on one state.",
  [B+"primitives/p128pow5t3_compact.rs"],
  "P128Pow5T3Compact::constants moves the lane-1/2 constants of each partial round through the MDS matrix into the next round (vec_remove_tail, mat_mul, vec_accumulate).")

p("P10", "Generated MDS matrices are the selected Cauchy matrix with a true inverse",
  "For every width and every sampled set of distinct points, parameter generation returns the Cauchy matrix 1/(x_i + y_j) of the selected sample (skipping exactly the requested number of earlier samples, and resampling when points collide) together with a matrix that is its inverse.",
  ["inputs", "configurations"], "every stream of sampled points, width and selection index",
  "The test inverts one width-3 matrix over one field with selection index 0.",
  [B+"primitives/mds.rs", B+"primitives.rs"],
  "mds::generate_mds: rejection loop on duplicates, `select` counter, Cauchy entries, Lagrange-polynomial inverse.")

p("P11", "The Grain generator produces the reference parameter stream",
  "For every field size, width and round counts, generated round constants are the reference Grain LFSR stream: the 80-bit state is seeded from the instance parameters, 160 bits are discarded, output bits are self-shrunk, field elements are read most significant bit first and out-of-range values are rejected.",
  ["configurations", "inputs"], "every LFSR state and every instance description",
  "The tests compare the stream with two committed tables (BN254 and Pasta, width 3).",
  [B+"primitives/grain.rs", B+"primitives.rs"],
  "Grain::{new, load_next_8_bits, get_next_bit, next_field_element, next_field_element_without_rejection}.")

p("P12", "Misuse of hashers, sponges and chips is rejected at compile time",
  "A fixed-length hasher accepts exactly a message array of its length and field, and every hasher is consumed by hashing and hashes from a shared reference only through a clone; the state inside a hasher can neither be read nor replaced; width, rate, field and specification of a hasher must fit each other; the sponge mode trait cannot be implemented outside the crate. The in-circuit sponge is typed the same way (absorb, then squeeze; gadget consumed, message of its length), and a table cannot change while a chip built for it is in use. Hashers, modes, configurations and tables can be cloned and handed to other threads. Programs that violate these rules do not compile, programs that keep them do.",
  ["programs"], "every client program",
  "Tests only contain programs that compile.",
  [B+"primitives.rs", B+"hash.rs", C+"poseidon.rs", C+"hash.rs"],
  "Hash::hash(self, [F; L]), sealed SpongeMode, auto traits of Hash; Sponge<Absorbing>/Sponge<Squeezing> and PoseidonHashTable borrowed by the chip in the circuit crate.")

# ---------------- circuit crate
p("C01", "Septidon gates force the output state to be the permutation of the input",
  "Any assignment of one 8-row block of the compact (septidon) permutation chip that satisfies all its constraints, with input and output cells bound as the chip exposes them, has output equal to the Poseidon permutation of its input: no other output is accepted for any input state, at any position in a region or batch.",
  ["inputs"], "every witness assignment (honest or not) of the block, every input state, every block offset",
  "Tests only run the honest prover; an under-constrained gate accepts all honest witnesses.",
  [C+"poseidon/septidon/"+f for f in ("septidon_chip.rs","control.rs","full_round.rs","loop_chip.rs","septuple_round.rs","transition_round.rs","state.rs","util.rs","params.rs")],
  "SeptidonChip::configure wires ControlChip selectors, FullRoundChip loops, SeptupleRoundChip and TransitionRoundChip gates over 8 rows.")

p("C02", "Pow5 gates force the output state to be the permutation of the input",
  "Any assignment of one permutation region of the pow5 chip that satisfies its full-round, partial-round and pad-and-add constraints, with its fixed round constants as laid out by the chip, has output equal to the Poseidon permutation of the (padded) input.",
  ["inputs"], "every witness assignment of the region, every input state",
  "Tests only run the honest prover.",
  [C+"poseidon/pow5.rs"],
  "Pow5Chip::configure full round / partial rounds / pad-and-add gates; Pow5State::{load, full_round, partial_round} lays out round constants and selectors.")

p("C03", "Hash-table rows are constrained to hash their inputs",
  "In the hash table circuit, the rows of every message that is closed (the row after its last row is the header row of the next message or of the padding) are constrained so that the digest column of each of its rows holds the sponge digest of exactly the data in its rows: on the header row the permutation starts from [control + domain, first input, second input], on each continuation row the previous output state is chained in with the row's domain and inputs added, and the digest is lane 0 after the last row. "
  "For fixed inputs, controls, domains and header marks no constraint-satisfying assignment shows another digest.",
  ["inputs"], "every assignment (honest or not) of all columns that satisfies the gates, lookups and copies; both permutation chips and both assignment strategies",
  "Proving tests run one honest table; missing or weakened gates and copies accept it too.",
  [C+"hash.rs"],
  "SpongeConfig::configure_sub gates `input constrain`, `hash index constrain`, and the copies from table rows into the permutation chip and back in SpongeChip::load.")

p("C04", "Control flags delimit messages: a message may not end early, late or unmarked",
  "In every constraint-satisfying assignment of the hash table each enabled row is marked as header (1) or continuation (0). A continuation row has a non-zero control, and the control of the row before it is exactly one step (step times the domain factor) larger; the row before a header row has a control that is one of the step + 1 multiples 0..step of the domain factor. "
  "The first row is a header, and the last row is a header with zero inputs and zero control.",
  ["inputs"], "every assignment of all columns, every row, several steps and capacities",
  "Proving tests run only well-formed tables.",
  [C+"hash.rs"],
  "gates `custom row`, `control constrain`, `control step`, lookup `control range check`, range table and selector placement in SpongeChip::load.")

p("C05", "Loading a table yields a witness that satisfies every constraint",
  "For every table made with the recommended builder calls (two-to-one entries, streamed messages whose control fits their rows) that leaves at least one padding row within the capacity, with any step and either assignment strategy, loading succeeds, the assigned cells satisfy all gates, lookups and copies of the configured circuit, and the table columns show, for every row of every entry, the native digest of the entry, its inputs, its control (times the domain factor), its domain and its header mark; rows beyond the entries show the digest of two zeros.",
  ["inputs", "configurations"], "all field elements, domains and controls of tables of several shapes; both strategies, both chips, both legacy settings",
  "The proving tests use a few fixed tables and never compare the table's digest column with the native hash.",
  [C+"hash.rs", C+"poseidon/septidon/instruction.rs", C+"poseidon/septidon/septidon_chip.rs", C+"poseidon/pow5.rs"],
  "SpongeChip::load / fill_hash_tbl_custom / fill_hash_tbl_body / fill_hash_tbl_body_partial, permute, permute_batch.")

p("C06", "Sequential and parallel table assignment produce the same circuit",
  "For every table, capacity and number of worker threads, and whatever the assignment-type variable says, the parallel assignment strategy uses the same rows and assigns the same fixed cells, selectors, copy constraints and advice values as the sequential one; and both reject the same tables (more rows than the capacity, an expected digest that does not match).",
  ["inputs", "configurations", "schedules"], "every table content, capacity and thread count",
  "Tests compare neither strategy with the other and run at one thread count.",
  [C+"hash.rs", C+"poseidon/septidon/instruction.rs"],
  "SpongeChip::load chooses by CIRCUIT_ASSIGNMENT_TYPE; the parallel path splits rows at message borders into per-thread regions of fill_hash_tbl_body_partial; SeptidonChip::permute_batch splits the permutations into chunks.")

p("C07", "Circuit shape never depends on the witness",
  "The fixed columns, selectors, copy constraints and row offsets produced when loading a hash table depend only on the configured capacity and step, never on the contents of the table, nor on whether witness values are known: keys generated from an empty table without witness match every later proof.",
  ["inputs"], "every pair of tables of equal capacity and step, with and without witness",
  "Tests generate keys and proofs from the same table.",
  [C+"hash.rs", C+"poseidon/septidon/septidon_chip.rs", C+"poseidon/pow5.rs"],
  "enable, assign_fixed and constrain_equal calls in SpongeChip::load and the permutation chips.")

p("C08", "Table builders keep inputs, controls, domains and digests aligned",
  "Whatever sequence of builder calls (two-to-one entries with domain and optional expected digest; streamed messages with or without expected digest) fills a table, row k of the table holds the k-th input pair in the order given, with its own control, domain and expected digest: entries get control 0, their domain and their digest; the rows of a streamed message get the starting control reduced by one step per row, no domain, and the expected digest on the last row only. "
  "The reported table size is the number of rows. A message without rows, or with more rows than its starting control allows, is refused.",
  ["histories", "inputs"], "every sequence of builder calls, message lengths, starting controls and steps",
  "No stable test calls a builder at all.",
  [C+"hash.rs"],
  "PoseidonHashTable::{fixed_inputs, stream_inputs, stream_inputs_with_check, constant_inputs, constant_inputs_with_check, table_size}: four vectors kept aligned by resize and push.")

p("C09", "The row budget estimate covers what the chip assigns, in every configuration",
  "In every feature configuration, the minimum row requirement a non-empty table reports is at least the number of rows its permutations occupy (number of table rows times the rows of one permutation of the chip in use) and at least the number of rows loading it at that capacity uses; the block size a hashable field announces holds the rows of one permutation of the chip of that configuration. "
  "With `short` the chip in use takes 8 rows per permutation, without it 38.",
  ["configurations", "inputs"], "feature sets with and without short, parallel_syn and legacy; all table sizes",
  "Tests run one feature configuration and never compare the estimate with a layout.",
  [B+"hash.rs", C+"hash.rs"],
  "Hashable::hash_block_size, PoseidonHashTable::minimum_row_require, chip selection by feature `short`.")

p("C10", "The in-circuit sponge gadget computes the native constant-length hash",
  "For every constant length and message, the hash gadget (sponge over a permutation chip) assigns its output cell the digest the native constant-length hasher computes, satisfies its constraints with that assignment, and its constraints allow no other output for the same message cells. The sponge gadget used directly squeezes the elements the native sponge definition gives.",
  ["inputs"], "every message, several lengths",
  "Tests use a few random messages with the honest prover.",
  [C+"poseidon.rs", C+"poseidon/pow5.rs"],
  "poseidon::{Sponge, Hash}, PoseidonSpongeInstructions::{initial_state, add_input, get_output}.")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
