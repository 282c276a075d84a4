p("C01", "Amount arithmetic is exact or refused",
  "Every operation on coin amounts, unsigned and signed, gives the exact mathematical result whenever that result fits the type, and reports failure otherwise; it never wraps, never rounds except by truncation in division, and never panics. Conversions between the signed and unsigned forms keep the value or refuse. Comparison of amounts is comparison of the numbers.",
  ["inputs"], "all pairs of amounts (2^128 values each), all divisors and multipliers",
  "The tests try a few sums and products near the maximum; the claim is over 2^256 pairs, and overflow defects sit at isolated values.",
  [A + "amount/mod.rs", A + "amount/signed.rs"],
  [("checked arithmetic of Amount", A + "amount/mod.rs"), ("checked arithmetic of SignedAmount and conversions", A + "amount/signed.rs")],
  V + "; " + K, "proof", "Proved for all inputs by Verus on the extracted functions, and again on the compiled functions by Kani where SAT can; sums and iterators of amounts are bounded native.")

p("C02", "Decimal amounts denote exactly the number written",
  "Reading a decimal amount from text accepts exactly the documented grammar, never panics, and yields the number that the text denotes; writing an amount and reading it back gives the same amount. Changing the number of decimals, trimming padding, converting to and from atoms, and subtracting keep the exact number or refuse, and refuse only if the result cannot be represented.",
  ["inputs"], "all mantissas, all numbers of decimals 0..255 on both sides, all strings",
  "The tests sample a few dozen texts and decimals; the refusal conditions depend on 10^k overflow at particular combinations of mantissa, padding and decimals.",
  [A + "amount/decimal.rs", A + "amount/mod.rs"],
  [("with_decimals / without_padding / to_amount", A + "amount/decimal.rs"), ("FromStr and Display of DecimalAmount", A + "amount/decimal.rs")],
  V + "; bounded native cases for the text functions", "proof", "The numeric functions are proved (exact value and exact refusal condition) by Verus; parsing and printing, which use str APIs outside Verus's reach, are bounded native cases against an independent grammar.")

p("C03", "Wide unsigned integers are the natural numbers below 2^BITS",
  "For the 128, 256 and 512 bit integers, checked addition, subtraction, multiplication, division and remainder give the exact result or none, wrapping operations give the result modulo 2^BITS, comparison is numeric, and conversions between widths keep the number or refuse. No operation panics for a value in its domain.",
  ["inputs"], "all operands of 128, 256 and 512 bits",
  "The tests use a handful of constants and random operands; carries and normalisation errors in multi-word multiplication and division show up for sparse operand patterns only.",
  ["common/src/uint/impls.rs", "common/src/uint/internal_macros.rs", "common/src/uint/endian.rs"],
  [("construct_uint! arithmetic", "common/src/uint/impls.rs"), ("width conversions", "common/src/uint/impls.rs")],
  V + " for every arithmetic operation of the three widths, including widening multiplication and long division; " + K + " for conversions", "proof", "The impl blocks of Uint128, Uint256 and Uint512 (macro expanded from the current source) are verified by Verus against the number their words denote; conversions between widths and the addition chain are proved by Kani on the compiled code; native cases against num-bigint look for a failing input.")

p("C04", "Wide integers: bits, shifts and byte strings agree with the number",
  "Shifting a wide integer multiplies or divides it by a power of two (and clears it when the shift reaches its width); bitwise operators, single bits, bit ranges, masks, bit length and trailing zeros are those of the number's binary form. Byte strings in either byte order are the base-256 form of the number, reading one back gives the number, and a string of the wrong length is refused.",
  ["inputs"], "all values of 128, 256 and 512 bits, all shift amounts and bit positions, all byte strings",
  "The tests check a few constants; the word-boundary shift cases and bit ranges form a space of 2^512 values times hundreds of positions.",
  ["common/src/uint/impls.rs", "common/src/uint/internal_macros.rs", "common/src/uint/endian.rs"],
  [("Shl, Shr, bit_slice, mask, bits", "common/src/uint/impls.rs"), ("to/from bytes", "common/src/uint/impls.rs"), ("BitArray", "common/src/uint/internal_macros.rs")],
  K + "; " + V + " for shifts, bit length and complement", "proof", "Proved for all inputs by Kani with unwinding assertions (complete for the fixed widths); shifts and bit length of 512 bits are proved by Verus against the number; bit ranges of 512 bits are in the thorough Kani tier (the same macro body is proved at 128 and 256 in quick).")

p("C05", "Compact target encoding is exact, minimal and range checked",
  "Decoding a compact target gives mantissa times 256^(size-3) or an error, with an error exactly for negative or overlong encodings. Encoding a target is minimal, never negative, and denotes the target with everything below its leading bytes cleared, so encoding a decoded canonical target reproduces it.",
  ["inputs"], "all 2^32 compact values, all 256-bit targets",
  "The tests cover a table of known Bitcoin vectors; a mistake at one size byte or sign carry would pass them and split consensus.",
  [A + "compact.rs", "common/src/uint/impls.rs"], [("Compact <-> Uint256", A + "compact.rs")],
  K, "proof", "Proved for all inputs by Kani on the compiled functions; an independent big-integer oracle runs natively besides.")

p("C06", "Rational comparison is the order of the numbers",
  "Comparing two fractions with non-zero denominators gives the order of the rational numbers they denote, for all supported integer widths: fractions that denote the same number compare as equal, and widening a fraction does not change the result.",
  ["inputs"], "all numerators and non-zero denominators of 64, 128 and 256 bits",
  "The tests draw uniformly random 128-bit values, which never hit equal, zero or extreme numerators and denominators.",
  [A + "rational.rs", "common/src/uint/impls.rs"], [("Ord for Rational", A + "rational.rs")],
  V + "; " + K + " for small values", "proof", "Comparison verified by Verus for every width over the contracts of Uint512 (proved under C03), with totality and transitivity as lemmas; fractions of small values also by Kani on the compiled code; native cases against big integers look for a failing input.")

p("C07", "Heights, distances, counts and times: arithmetic is exact or refused",
  "Arithmetic on block heights, block distances, block counts and timestamps gives the exact result or reports failure when it leaves the type's range, apart from the documented panic when a height passes the maximum. Height ranges yield every height in order exactly once, and conversions between time representations are inverse where defined.",
  ["inputs"], "all pairs of 64-bit heights, distances and counts; all times with nanoseconds",
  "The tests cover a few values around zero and the maximum.",
  [A + "height.rs", A + "time.rs"], [("BlockHeight, BlockDistance, BlockCount", A + "height.rs"), ("Time", A + "time.rs")],
  V + "; " + K, "proof", "Verus proves the arithmetic and conversions of every function; Kani proves them again on the compiled code (ranges: for up to three elements); calendar conversions bounded native.")

p("C08", "Per-thousand values and versions are range checked and round trip",
  "A per-thousand value is only ever in 0..=1000, whatever way it is created, and its percentage and decimal texts read back as the same value and denote the right number. A software version prints as major.minor.patch, reads back as itself, rejects other texts, and is ordered by major, then minor, then patch.",
  ["inputs"], "all 16-bit values, all version triples, all texts",
  "The tests list some valid and invalid texts.",
  [A + "per_thousand.rs", A + "semver.rs"], [("PerThousand", A + "per_thousand.rs"), ("SemVer", A + "semver.rs")],
  K + "; bounded native cases for texts", "proof", "Range and order proved by Kani; texts bounded native (exhaustive over the 1001 per-thousand values in practice).")

p("C09", "Accounting data deltas compose, and every merge can be undone",
  "Merging a delta into a collection succeeds exactly when the delta starts from the data its predecessor leaves; the merged delta has the effect of applying the two in turn, merging is associative, and a refused merge leaves the collection as it was. Undoing a merge with what it returned restores the earlier effect, for single elements and whole collections, in any number of nested steps.",
  ["inputs", "histories"], "all data values, keys, collections and sequences of merges and undos",
  "The tests enumerate a few delta pairs; composition and undo must hold for every history, since the PoS, token and order states are stacks of such deltas that are flushed and rolled back in reorganisations.",
  ["accounting/src/delta/combine.rs", "accounting/src/delta/delta_data_collection/mod.rs", "accounting/src/delta/delta_data_collection/undo.rs"],
  [("combine_delta_data, merge_delta_data_element and undo", "accounting/src/delta/delta_data_collection/mod.rs"), ("combine_data_with_delta", "accounting/src/delta/combine.rs")],
  V + "; native contract cases", "proof", "Element merges and undos, merges and undos of whole collections, and the algebra (composition, associativity, undo) are proved by Verus for all values and collections of a generic key; native cases against a map model look for a failing input.")

p("C10", "Accounting amount deltas add up exactly and undo exactly",
  "Applying a signed delta to an amount gives the exact sum or is refused if that is negative or out of range. A collection of signed deltas holds for every key the exact sum of what was merged into it, keeps no zero entries, refuses a sum out of range without changing the entry, and merging the negated deltas restores it.",
  ["inputs", "histories"], "all amounts, deltas, keys and sequences of merges",
  "The tests merge a few small deltas; sums near the limits of the signed type and cancellations to zero over arbitrary histories are not sampled.",
  ["accounting/src/delta/combine.rs", "accounting/src/delta/delta_amount_collection.rs"],
  [("combine_amount_delta", "accounting/src/delta/combine.rs"), ("DeltaAmountCollection", "accounting/src/delta/delta_amount_collection.rs")],
  V + "; native contract cases", "proof", "Proved by Verus on the extracted functions, single and whole collections, for a generic key; native cases against a map model look for a failing input.")

p("C12", "Scripts: numbers, instructions and text forms are exact and consistent",
  "A number written into a script is the shortest form of that number and reads back as it; reading refuses numbers that are too long. The bytes of a script split into instructions in exactly one way, truncated or (where asked) non-minimal pushes are errors and end the iteration. What the builder writes reads back as the same instructions, each opcode has its one class and name, the standard templates are recognised exactly, and the text and hex forms show the true content; nothing panics.",
  ["inputs"], "all numbers, all opcodes, all byte strings as scripts",
  "The tests list known scripts; boundary numbers, truncations at every position and push-length boundaries are a space that lists do not cover.",
  ["script/src/script.rs", "script/src/opcodes.rs"],
  [("build_scriptint, read_scriptint_size", "script/src/script.rs"), ("Instructions iterator, Builder", "script/src/script.rs"), ("opcode classes", "script/src/opcodes.rs")],
  V + "; " + K, "proof", "Number writing, explicit lengths and the instruction iterator proved by Verus for all inputs and lengths; number reading and opcode classes by Kani for all inputs; the builder, templates, names and text forms are bounded native cases.")

p("C13", "Script execution follows the language's semantics",
  "Running a script gives the result that the language defines: every opcode transforms the stack as specified or fails with the specified error, branches not taken have no effect, sizes and counts over the limits are refused, signature checks use the script from the last executed separator, and a lock is satisfied exactly if one true element remains. Nothing panics for any script and stack.",
  ["inputs"], "all scripts, initial stacks and contexts",
  "The tests run selected scripts; nesting of conditionals, stack depths at the limit and operand values combine without bound.",
  ["script/src/interpreter.rs", "script/src/script.rs"],
  [("run_script, run_pushdata, verify_witness_lock", "script/src/interpreter.rs"), ("Stack, ExecStack", "script/src/interpreter.rs")],
  V + " (stacks); bounded native cases of the interpreter against an independent one", "exploration", "The conditional nesting and the stack accessors are proved by Verus; the interpreter loop itself, which is generic over iterators of slices and hash functions, is compared with an independent interpreter on random and structured scripts (bounded, not counted as proved).")

C = "crypto/src/"
p("C14", "Hierarchical keys: child numbers, paths and derivation",
  "A child number is a 31-bit index with a hardened mark; its number, text and byte forms denote it, read back as it, and other texts are refused; a derivation path holds at most 255 child numbers and likewise round trips. Deriving a child key hashes the right key and number under the parent's chain code, extends the path by that number, refuses hardened children of public keys and paths over the limit, and for normal children the public key's child is the public key of the private key's child. Deriving an absolute path succeeds exactly for proper extensions of the key's path and equals deriving the numbers one by one.",
  ["inputs"], "all 2^32 child numbers, all paths and texts, all seeds and keys",
  "The tests check published vectors; boundary indices, mixed hardened paths, the length limit and texts near the grammar are not sampled.",
  [C + "key/hdkd", C + "key/secp256k1/extended_keys.rs", C + "key/extended.rs", C + "util/mod.rs", C + "vrf/mod.rs"],
  [("U31, ChildNumber", C + "key/hdkd/child_number.rs"), ("DerivationPath", C + "key/hdkd/derivation_path.rs"), ("derive_child", C + "key/secp256k1/extended_keys.rs"), ("derive_absolute_path", C + "key/hdkd/derivable.rs")],
  V + "; Kani for child numbers; bounded native cases for texts and whole derivations", "proof", "Number arithmetic, path limits and key derivation (over an uninterpreted keyed hash and curve) are proved by Verus; texts, byte forms and absolute paths are bounded native cases against an own BIP32.")

p("C15", "Signatures verify exactly for the message and key they were made for",
  "Signing a message with a key produces the signature of the message's hash with that key and the given auxiliary data; verification succeeds for the signer's public key and that message, and fails for another key, another message or an altered signature. The byte forms of keys and signatures round trip, and malformed bytes are refused.",
  ["inputs"], "all keys, messages and signatures",
  "The tests sign random messages; that verification binds the whole message, key and signature is a statement about all of them.",
  [C + "key/mod.rs", C + "key/secp256k1/mod.rs", C + "key/signature/mod.rs"],
  [("sign_message, verify_message", C + "key/secp256k1/mod.rs"), ("Signature", C + "key/signature/mod.rs")],
  V + " over an uninterpreted hash and signature scheme; bounded native cases with the real library", "proof", "What is hashed, signed and checked is proved by Verus; that a forged signature does not verify rests on the library's scheme (assumed); byte forms are bounded native cases.")

p("C16", "Hashes of a message are the same whole or in pieces",
  "Each hash function, and each stream hasher after any sequence of writes, resets and finalizations, gives the named digest, of the declared length, of exactly the bytes written since the stream was made, reset or finalized.",
  ["inputs", "histories"], "all messages, all ways to cut them, all sequences of writes, resets and finalizations",
  "The tests hash a few strings in one or two pieces.",
  [C + "hash/mod.rs", C + "hash/internal.rs"],
  [("Hasher, StreamHasher implementations", C + "hash/mod.rs"), ("InternalStreamHasher", C + "hash/internal.rs")],
  V + " over uninterpreted library digests; bounded native cases against other implementations", "proof", "The streams and one-shot hashes are proved by Verus over the digests of the libraries; that each names the right library function is also checked natively.")

p("C17", "Encrypted data come back only with the right key and data",
  "Encrypting and decrypting with the same key and associated data gives the message back; a changed key, nonce, text, tag or associated data, or a text too short, is refused without panicking. Passwords verify exactly if they and all parameters are those of the stored hash, stored hashes can be recomputed from their challenge, and the timing-resistant comparison of byte strings is equality.",
  ["inputs"], "all keys, messages, associated data, corruptions and lengths; all pairs of byte strings",
  "The tests round trip a few messages; the comparison's handling of differing lengths and zero bytes, and single-bit corruptions, are a large space.",
  [C + "symkey", C + "ephemeral_e2e/mod.rs", C + "kdf", C + "util/eq.rs"],
  [("encrypt, decrypt", C + "symkey/chacha20poly1305/mod.rs"), ("SharedSecret", C + "ephemeral_e2e/mod.rs"), ("timing_resistant_equal", C + "util/eq.rs"), ("verify_password", C + "kdf/mod.rs")],
  V + " over an uninterpreted cipher; Kani and bounded native cases with the real libraries", "proof", "The layout of encrypted texts, the refusals and the comparison are proved by Verus; the cipher is assumed to authenticate; passwords are bounded native cases.")

p("C18", "VRF outputs are fixed by key and message and verified as such",
  "A VRF proof made with a key for a transcript is accepted for that public key and transcript and for no other; the output depends only on the key and the transcript. Everything attached to a transcript is bound, with its label and order. Byte forms of keys and outputs round trip and malformed ones are refused; children of extended VRF keys follow the private derivation.",
  ["inputs"], "all keys, transcripts, outputs and derivation paths",
  "The tests verify a handful of random outputs.",
  [C + "vrf/mod.rs", C + "vrf/schnorrkel", C + "vrf/transcript"],
  [("produce_vrf_data, verify_vrf_data", C + "vrf/schnorrkel/mod.rs"), ("calculate_vrf_output", C + "vrf/schnorrkel/data.rs"), ("attach_*", C + "vrf/transcript/no_rng.rs")],
  V + " over an uninterpreted scheme; bounded native cases with the real library", "proof", "What is passed to and returned from the library is proved by Verus; the scheme itself is assumed; byte forms and transcripts with an own source of randomness are bounded native cases.")

p("C19", "A storage transaction is applied whole on commit and not at all otherwise",
  "In a storage transaction, reads, prefix reads and reads from a key on see the committed state with the transaction's own changes made, entries in the order of their keys. A successful commit makes the committed state exactly what the transaction saw; a transaction that is dropped changes nothing; read transactions see the committed state. A file database that is reopened, also after being closed in the middle of a transaction, holds exactly what was committed, for each map on its own.",
  ["inputs", "histories"], "all stores, all sequences of writes, deletions, reads, commits and drops; all keys and prefixes",
  "The tests run a few fixed scripts; overwritten and deleted keys under prefixes, keys at the end of the order, and mixes of commit and drop form an unbounded space of histories.",
  ["storage/core/src", "storage/inmemory/src/lib.rs", "storage/sqlite/src", "storage/src"],
  [("TxRw::update, get, put, del, commit", "storage/core/src/adaptor/locking.rs"), ("MapPrefixIter", "storage/core/src/util.rs"), ("StorageMaps", "storage/inmemory/src/lib.rs"), ("DbTx", "storage/sqlite/src/lib.rs"), ("TransactionRw, MapMut", "storage/src/database")],
  V + " on the transactions over a plain store; bounded native cases on the in-memory and the sqlite stores through the typed interface", "proof", "Commit, single reads and writes of the in-memory store and prefix reads are proved by Verus; BTreeMap and the lock are assumed to meet their documentation; merged iteration, sqlite and the typed layer are bounded native cases.")

p("C20", "Orders pay what they ask for, never more than they hold, and can be undone",
  "Filling an order with an amount pays out floor(give * fill / ask), by the original balances (or by the remaining ones under the old rules), asks less by exactly the fill and gives less by exactly the payout. Fills over the remaining ask, fills of a frozen order and, by the current rules, fills that would pay nothing are refused, and a refused operation changes nothing; an order never gives more than it was created with. Creating, filling, freezing and concluding change just that order; undoing any of them with what it returned restores the earlier state, and flushing a cache into its parent gives the parent the cache's view.",
  ["inputs", "histories"], "all orders, balances and fills, all stacks of caches, all operations and undos",
  "The tests fill a few orders with small numbers; rounding over sequences of partial fills, amounts near the limits and undo through nested caches are spaces that they do not sample.",
  ["orders-accounting/src/cache.rs", "orders-accounting/src/price_calculation.rs", "orders-accounting/src/data.rs"],
  [("OrdersAccountingCache operations and undo", "orders-accounting/src/cache.rs"), ("calculate_filled_amount, calculate_fill_order", "orders-accounting/src/price_calculation.rs")],
  V + "; native contract cases", "proof", "Proved by Verus on the extracted functions for all states and amounts over the contracts of amounts and deltas (C01, C09, C10); native cases against an own model look for a failing input.")

p("C21", "Pools and delegations hold exactly what was put in and not taken out",
  "Creating and decommissioning a pool, adding staker rewards, creating, funding, spending from and deleting a delegation change just that pool and delegation, by exactly the amounts given; what is not allowed is refused. While a pool exists its balance is its staker's pledge and rewards plus the shares of its delegations, and a delegation's balance is its share; taking more than a delegation holds is caught by the operation, the next look or the write. Undoing an operation with what it returned restores the earlier state; flushing a delta into its parent or merging it gives the parent the delta's view, and undoing a merge or a write to the store restores what was there, without leaving empty balances.",
  ["inputs", "histories"], "all pools, delegations and amounts, all sequences of operations, all stacks of deltas and writes",
  "The tests run fixed scripts; the mix of decommissioning, delegations that outlive their pool, undo and nested deltas over stored state is a space of histories.",
  ["pos-accounting/src/pool", "pos-accounting/src/data.rs", "pos-accounting/src/storage"],
  [("PoSAccountingDelta operations and undo", "pos-accounting/src/pool/delta/operator_impls.rs"), ("PoSAccountingView for PoSAccountingDelta", "pos-accounting/src/pool/delta/view_impl.rs"), ("PoolData", "pos-accounting/src/pool/pool_data.rs"), ("PoSAccountingDB", "pos-accounting/src/pool/storage")],
  V + "; native contract cases", "proof", "Operations, views, undo and flush are proved by Verus on the extracted functions over the contracts of amounts and deltas (C01, C09, C10); the store's merge and its undo, which are generic over closures, and the listing of all shares are bounded native cases against an own model.")

p("C22", "Tokens are minted, locked and frozen as their issuer laid down",
  "Issuing, minting, unminting, locking, freezing, unfreezing, changing the authority and changing the metadata URI change just that token and exactly what they say. A supply never exceeds a fixed limit, never falls below zero and no longer moves once it is locked; only a lockable supply can be locked, only a freezable token frozen and only an unfreezable one unfrozen, and a frozen token takes no change but unfreezing. What is not allowed is refused; undoing an operation with what it returned restores the earlier state; flushing a cache into its parent, or the store, gives it the cache's view, without leaving empty supplies.",
  ["inputs", "histories"], "all tokens, amounts and states, all sequences of operations and undos, all stacks of caches",
  "The tests take single steps with small amounts; limits met exactly, supplies near the limits of the amounts, and undo across caches are not sampled.",
  ["tokens-accounting/src/cache.rs", "tokens-accounting/src/data.rs", "tokens-accounting/src/storage/db.rs"],
  [("TokensAccountingCache operations and undo", "tokens-accounting/src/cache.rs"), ("FungibleTokenData", "tokens-accounting/src/data.rs"), ("TokensAccountingDB::merge_with_delta", "tokens-accounting/src/storage/db.rs")],
  V + "; native contract cases", "proof", "Operations, views, undo, flush and the write to the store are proved by Verus on the extracted functions over the contracts of amounts and deltas (C01, C09, C10); native cases against an own model look for a failing input.")

p("C24", "The weight of a stake follows the formula, and a hash wins by it exactly",
  "The balance that counts for staking is the documented function of pledge, pool balance and supply, exactly in integers, at most the pool's balance and at most a thousandth of the supply; it is refused for a pledge over the balance, a balance not below the supply or a supply under 1000. A hash is low enough exactly when it is at most the target times the balance (by the first rules) or times the balance that counts (by the second), without loss in the product; other versions are refused.",
  ["inputs"], "all pledges, balances, supplies, hashes and targets",
  "The tests compare a few points and tendencies; a rounding step or a cap in the wrong place changes who may stake at isolated values and splits the chain.",
  ["consensus/src/pos/effective_pool_balance.rs", "consensus/src/pos/hash_check.rs"],
  [("effective_pool_balance", "consensus/src/pos/effective_pool_balance.rs"), ("check_pos_hash", "consensus/src/pos/hash_check.rs")],
  V + "; native contract cases", "proof", "Proved for all inputs by Verus over the contracts of amounts and wide integers (C01, C03, C04), bounds included; native cases against big integers look for a failing input.")

p("C25", "The next target is the one the rules require",
  "By proof of stake the next target is the previous one times average over wanted block time, moved by no more than the configured share and capped by the limit; the average runs from the configured number of blocks back, or genesis, and a chain that runs backwards is refused. By proof of work it changes at every 2016th block only, by the last interval's timespan within a quarter to four times two weeks, capped by the limit; the special rules apply only where configured. Upgrades set the target they name; a hash meets a target exactly when it is not above it, and mining stops at the first nonce that does.",
  ["inputs", "histories"], "all targets, times, heights and configurations; every history, by what the ancestor query answers",
  "The tests replay a few chains; clamps, truncation, heights at the ends of an interval and timestamps out of order are isolated points of a large space.",
  ["consensus/src/pos/target.rs", "consensus/src/pow"],
  [("calculate_target_required_from_block_index", "consensus/src/pos/target.rs"), ("calculate_work_required, check_proof_of_work", "consensus/src/pow/work.rs"), ("calculate_new_target", "consensus/src/pow/helpers.rs")],
  V + "; native contract cases", "proof", "Proved for all inputs by Verus over the contracts of wide integers, heights and compact targets (C03 to C05, C07); the error enums and the block index are stand-ins. Mining is a bounded native case.")

p("C23", "Transactions create no money, and what is left is the fee",
  "What a transaction's inputs bring of each currency is what they say (a coin or token output's value, a pool's balance locked until it matures, a minted amount, an order's balances, a fill's share, less the fees for what is done) and accounts and orders together give no more than they hold. A transaction is accepted only if its outputs take no more than that; coins that are locked can only go to outputs locked for as long or longer. Nothing is made or lost: what inputs bring is what outputs take plus the fee, and the block's fee is the free coins plus those that mature by then.",
  ["inputs", "histories"], "all inputs, outputs, amounts and lock times, of any number",
  "The tests take one or two inputs and outputs; which constraint pays for which output, amounts near the limits and repeated use of one account are a combinatorial space.",
  ["chainstate/constraints-value-accumulator/src"],
  [("from_inputs, from_outputs, satisfy_with", "chainstate/constraints-value-accumulator/src/constraints_accumulator.rs"), ("combine, map_into_block_fees", "chainstate/constraints-value-accumulator/src/accumulated_fee.rs")],
  V + "; native contract cases", "proof", "Every function of the two files is proved by Verus over the contracts of amounts (C01) and of the pool, token and order operations (C20 to C22, assumed here as trait contracts); std's maps and their iterators are assumed. Native cases against an own model look for a failing input.")

p("C26", "There are exactly as many coins as the emission schedule says",
  "The supply at a height is the initial supply plus, for every block up to it, the subsidy of the last period that starts below that block's height; a block's subsidy is the difference its height makes, exactly the period's. The final supply is the supply that no later height exceeds, and there is none exactly if the last subsidy is not zero. The text form of a schedule reads back as the same schedule, and malformed text is refused; Mainnet starts with 400 million coins and ends at 599990800.",
  ["inputs"], "all schedules whose supply fits an amount, and all heights",
  "The tests check a few heights of mainnet; the boundary between two periods, one block late or early, moves the supply for good.",
  ["common/src/chain/config/emission_schedule.rs", "common/src/chain/coin_unit.rs"],
  [("EmissionScheduleTabular::schedule, final_supply, tail_emission", "common/src/chain/config/emission_schedule.rs"), ("EmissionSchedule::amount_at, subsidy", "common/src/chain/config/emission_schedule.rs"), ("CoinUnit", "common/src/chain/coin_unit.rs")],
  V + "; native contract cases", "proof", "Proved by Verus for all tables and heights: schedule() (loop invariant over the periods, its closure as a function of its own), amount_at, subsidy, final_supply, tail_emission, over the contracts of amounts (C01) and an assumed contract of BTreeMap's range and iteration. Text form and the mainnet table are bounded native cases.")

p("C29", "At every height the rules of the latest upgrade not above it are in force",
  "A table of upgrades is taken in any order and refused if empty or without rules for genesis; at each height exactly the upgrade with the greatest height not above it is in force, and a version's range runs from its height up to the next upgrade's. The first block under new consensus rules takes the target its upgrade names, the later ones compute theirs. Checkpoints include genesis, and the checkpoint below a height is the nearest one not above it; Mainnet and testnet ignore consensus at genesis only.",
  ["inputs"], "all tables of upgrades and checkpoints, all heights",
  "The tests take one table of three upgrades; off-by-one at an upgrade height forks the chain.",
  ["common/src/chain/upgrades/netupgrade.rs", "common/src/chain/upgrades/consensus_upgrade.rs", "common/src/chain/config/checkpoints.rs"],
  [("NetUpgrades::initialize, version_at_height, height_range", "common/src/chain/upgrades/netupgrade.rs"), ("consensus_status", "common/src/chain/upgrades/consensus_upgrade.rs"), ("Checkpoints", "common/src/chain/config/checkpoints.rs")],
  V + "; native contract cases", "proof", "Every function of NetUpgrades and consensus_status is proved by Verus for all tables and heights (iterator searches turned into loops; the sort assumed to give a sorted permutation). Checkpoints and the networks' own tables are bounded native cases.")

p("C28", "What is locked is not spent before its time",
  "A lock until a height or a time opens exactly from that height or time on, and a lock for a number of blocks or seconds exactly that many after the output was made; it then stays open. A lock whose end cannot be reckoned, or that counts from a block that is not known, never opens, and the check never panics. The outputs of decommissioned pools and emptied delegations must be locked for at least the configured number of blocks, no other kind of lock will do.",
  ["inputs"], "all locks, heights, times and distances of 64 bits",
  "The tests take locks of a few blocks or seconds around the boundary; distances near the limits of the arithmetic, and which of height and time is compared to which, are isolated points.",
  ["mintscript/src/checker/timelock.rs", "chainstate/tx-verifier/src/transaction_verifier/timelock_check.rs"],
  [("StandardTimelockChecker::check_timelock", "mintscript/src/checker/timelock.rs"), ("check_timelock, check_output_maturity_setting", "chainstate/tx-verifier/src/transaction_verifier/timelock_check.rs")],
  V + "; native contract cases", "proof", "Proved for all inputs by Verus with the exact verdict and error; that an open lock stays open is a lemma. Native cases look for a failing input.")

p("C30", "An input is spent only with everything its output demands",
  "What an input must satisfy is exactly what it spends demands: the owner's signature, with the time lock if there is one; for a stake its decommissioner in a transaction and its staker in a block; for a hash time locked contract the secret and the spender's signature, or the lock's end and the refunder's; for accounts, tokens and orders the signature of who is on record. What cannot be spent, or has nobody on record, never passes. A script passes only if every threshold in it is met by exactly as many satisfied parts as it requires and every one of them is met; each input has exactly one witness, and another number of them is refused, never a panic.",
  ["inputs"], "all outputs, commands, witnesses and scripts of any size and depth, for any judge of signatures, locks and hashes",
  "The tests list one or two scripts and inputs of each kind; a part that is skipped in one combination (a lock not checked with a refund, a nested threshold not looked into) spends somebody's money.",
  ["mintscript/src/script", "mintscript/src/checker", "mintscript/src/translate.rs"],
  [("WitnessScript::verify, Threshold::collect_satisfied", "mintscript/src/script"), ("ScriptChecker and its checkers", "mintscript/src/checker"), ("TranslateInput", "mintscript/src/translate.rs")],
  V + "; native contract cases", "proof", "Every function is proved by Verus: the evaluation of a script on its stack against the recursive meaning (loop invariant, termination by size), the three checkers as trait contracts, and each translation against the list of demands. Hash functions, the signature check and serialization are uninterpreted here. Native cases look for a failing input.")

p("C31", "The node follows the valid chain with most trust, and its view is consistent",
  "A block that was checked becomes the tip exactly if its chain has more trust than the current one (among equals the first stays) and every block on the way connects; otherwise the tip stays; the way from the old tip to the new one goes back to their last common ancestor and no further. At all times the block at each height is the tip's ancestor there, a block is in the chain exactly if it is such an ancestor, and ancestors and last common ancestors are the true ones; the index of a block has its parent, height and trust one step further. No branch is taken that starts below the configured depth or goes against a checkpoint; the state at a tip is a function of its chain: the same whatever other blocks came, in whatever order, after restarts and failed writes.",
  ["inputs", "histories", "crash_points"], "all trees of blocks, all orders of arrival, failure of any block or write",
  "The tests play a few forks; which block is followed after ties, failures on a branch, invalidations and repeated reorganizations is a matter of histories.",
  ["chainstate/src/detail/chainstateref/mod.rs", "chainstate/src/detail/mod.rs", "chainstate/types/src/ancestor.rs", "chainstate/src/detail/block_invalidation"],
  [("activate_best_chain, reorganize, connect_tip, disconnect_tip", "chainstate/src/detail/chainstateref/mod.rs"), ("get_ancestor, last_common_ancestor", "chainstate/types/src/ancestor.rs, chainstate/src/detail/chainstateref/mod.rs"), ("attempt_to_process_block, with_rw_tx", "chainstate/src/detail/mod.rs"), ("BlockInvalidator", "chainstate/src/detail/block_invalidation")],
  V + "; native contract cases", "proof", "The functions of ChainstateRef that choose, connect and answer are proved by Verus over a well-formedness invariant of the stored index (blocks by height, parents, trust), for all trees; what checking and connecting one block does and the storage are trait contracts. That the state is a function of the chain, retries after failed writes, and invalidation are native cases on the whole chainstate with random transactions.")

p("C11", "Addresses read back as what they stand for, on their own chain only",
  "A Bech32m text is read exactly if it is one by BIP-350 with a valid checksum (Bech32's is not), and what is written reads back as the same prefix and bytes. An address is the text of its object's bytes under the prefix the chain has for that kind of object: it reads back as that object, and is refused on another chain, as another type, with other bytes or in capitals; no two kinds or chains share a prefix. Wrapped objects in JSON read back, and each is replaced by its address, the rest of the text left alone.",
  ["inputs"], "all texts, prefixes and byte strings, all kinds of object on all four chains",
  "The tests write and read one address each way; which texts must be refused (another chain's, another checksum's, trailing bytes) is what keeps money from going astray.",
  ["common/src/primitives/bech32_encoding", "common/src/address", "common/src/chain/config/mod.rs"],
  [("bech32m_decode, bech32m_encode", "common/src/primitives/bech32_encoding/mod.rs"), ("decode_address, Address::new, from_string", "common/src/address/mod.rs"), ("Addressable", "common/src/address/traits.rs"), ("address_prefix", "common/src/chain/config/mod.rs"), ("HexifiedAddress", "common/src/address/hexified.rs")],
  V + "; native contract cases", "proof", "Proved for all inputs by Verus over an assumed contract of the bech32 crate and of the codec: bech32m_decode/encode and its errors, every chain's prefixes (pairwise distinct), each Addressable, decode_address, Address. The crate itself is checked against an own BIP-350, and the JSON forms, in bounded native cases.")


p("C27", "The set of unspent outputs is what was made and not yet spent",
  "After any additions and spends, through any number of caches over one another and over the database, an output is seen exactly if it was made and not spent since; what is not there cannot be spent, and nothing is made twice over something unspent. Connecting a transaction or block reward spends exactly its inputs and adds exactly its spendable outputs, and disconnecting it with what was kept for that gives back exactly the set before. Flushing a cache, or dropping it, changes nothing but where it is kept: what is seen through the cache before is what is in its base after, whatever its marks of fresh and dirty entries.",
  ["histories"], "all histories of additions, spends, connections, disconnections, flushes and lookups, any contents and any depth of caches",
  "The tests walk through every pair of marks once; which marks arise after a spend is undone, added again and flushed over two caches is a matter of history, and one wrong mark revives a spent coin or loses an unspent one.",
  ["utxo/src"],
  [("UtxosCache", "utxo/src/cache.rs"), ("flush_to_base, UtxosView", "utxo/src/view.rs"), ("UtxosDB", "utxo/src/storage"), ("UtxoEntry", "utxo/src/utxo_entry.rs"), ("UtxosTxUndo, UtxosBlockRewardUndo, UtxosBlockUndo", "utxo/src/undo.rs")],
  V + "; native contract cases", "proof", "Every function of UtxosCache but get_mut_utxo, the views and writes of cache and database are proved by Verus against the set they stand for, over an invariant of the marks; that a flush changes nothing seen and that disconnecting undoes connecting are lemmas over these contracts. The storage below is a trait contract; UtxosBlockUndo is in native cases, which also look for a failing input.")

p("C32", "What a block pays is split between staker and delegations to the last atom",
  "The reward of a block of a pool, subsidy and fees, is paid out in full and no more: the staker gets the pool's cost per block, then what is left in proportion to the staker's own part of the pool's balance (in the first version nothing of that kind), then the margin of the rest, rounded down each time; a reward below the cost goes all to the staker. Each delegation gets of the remainder what its share is of all shares, rounded down, and what rounding leaves over, or a remainder no delegation can take, is the staker's. Nobody else is paid, everything that was done can be undone, and a reward that cannot be reckoned is refused before anything is paid.",
  ["inputs"], "all rewards, balances, costs, margins and any number of delegations",
  "The tests split a few rewards over a few delegations; remainders, delegations with nothing, products past 128 bits and costs at the limit are isolated points, and one atom more or less than is paid in breaks the supply of the chain.",
  ["chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs", "pos-accounting/src/pool/pool_data.rs"],
  [("distribute_pos_reward", "chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs"), ("PoolData::staker_balance", "pos-accounting/src/pool/pool_data.rs"), ("PerThousand", "common/src/primitives/per_thousand.rs")],
  V + "; native contract cases", "proof", "Every function of reward_distribution.rs is proved by Verus for all inputs and any number of delegations, over a trait contract of the accounting state (what its operations do is C21) and that of Uint256 (C03): the two versions of the staker's part, the parts of the delegations, that they sum to no more than the whole, and that the staker gets exactly the rest. That a refused reward has paid nothing, and the effect on the real accounting and its undoing, are native cases.")

p("C33", "A signature is good for what it signs and nothing else",
  "An output is spent exactly by a witness of its destination: by the key's signature, or by a key that hashes to what is named, or by exactly as many of a challenge's keys as it asks for, each signing for its own number, over the bytes that the mode commits to. Those bytes are the mode, version, flags, the inputs and outputs that the mode names, and of each committed input what it spends: the output, and where amounts depend on the chain's state the pool's or order's balances. Any two transactions with the same signed bytes agree in all the mode names; making a signature gives one that is good, and never an unmet or overfull set.",
  ["inputs"], "all transactions, modes, input positions, destinations, witnesses and states of pools and orders",
  "The tests sign a few transactions and change a few of their fields; that no mode leaves out what it should commit to, for every position and number of inputs, and that every other witness is refused, no sample can settle.",
  ["common/src/chain/transaction/signature"],
  [("signature_hash, stream_signature_hash", "common/src/chain/transaction/signature/sighash/mod.rs"), ("SignatureHashableElement", "common/src/chain/transaction/signature/sighash/hashable.rs"), ("make_sighash_input_commitments_*", "common/src/chain/transaction/signature/sighash/input_commitments/mod.rs"), ("verify_signature", "common/src/chain/transaction/signature/mod.rs"), ("StandardInputSignature", "common/src/chain/transaction/signature/inputsig/standard_signature.rs"), ("PartiallySignedMultisigChallenge, sign_classical_multisig_spending", "common/src/chain/transaction/signature/inputsig/classical_multisig")],
  V + "; native contract cases", "proof", "From the mode byte through the hashed bytes, the commitments of every kind of input before and after the upgrade, to the check of each kind of witness and the making of signatures, every function is proved by Verus for all inputs. That equal bytes mean equal parts is a lemma, over the codec's being readable (C07). The cryptography (verify_message, hashes: C15) and decoding of a witness's bytes are assumed contracts; real keys, the HTLC wrapping and signed messages are native cases.")
