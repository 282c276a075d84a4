"""What decides each property: Verus units (units/*.vrs), harness crates (harness/*) and their contract cases."""

HARNESS = {
    # the arithmetic primitives
    "prims": {"pkgs": ["common"], "leaf": "common"},
    # the delta collections
    "script": {"pkgs": ["script"]},
    "acct": {"pkgs": ["accounting"], "leaf": "accounting"},
    # keys, hashes, secrets
    "crypto": {"pkgs": ["crypto"]},
    # the consensus rules (a part of the workspace that the repository's own build leaves out)
    "chain": {"pkgs": ["consensus", "utxo", "pos-accounting", "tokens-accounting", "orders-accounting", "chainstate/constraints-value-accumulator", "chainstate/types"]},
    # scripts, the transaction verifier and the UTXO set (likewise)
    "verifier": {"pkgs": ["mintscript", "chainstate/tx-verifier", "utxo"]},
    # the whole chainstate, with the repository's own test framework
    "node": {"pkgs": ["chainstate", "chainstate/test-framework", "chainstate/storage", "storage/failing", "storage/inmemory"]},
    # the storage backends
    "store": {"pkgs": ["storage", "storage/core", "storage/inmemory", "storage/sqlite"], "leaf": "storage"},
}
#: unit -> cases to search when one of its obligations fails (default: all cases of the property)
UNIT_CASES = {}
RLIMIT = {"values": 60}
KANI_TIMEOUT = 150
EXPECTED = {}

TRUSTED = [
    "Verus 0.2026.09.13 and its z3, vstd's specifications of core (checked_*, Option, Ordering, wrapping_*)",
    "Kani 0.68.0 / CBMC 6.11.0 with their model of core and alloc",
    "rustc's semantics of the derived traits (Copy, Clone, PartialEq, Ord on one-field structs)",
    "vfw/extract: the rewrites listed in DESIGN.md (stripping of attributes, inlining of helpers, combinators as matches, index loops)",
    "shadow/: stand-ins of parity-scale-codec, merkletree and enum-iterator under the native and Kani cases",
]
ASSUME = [
    "the extraction keeps the meaning of each function (its rewrites are mechanical and listed per unit)",
    "usize is 64 bits",
]

PROPS = {
    "C01": {"units": ["amount"], "harness": ["prims"], "cases": ["c01_*"]},
    "C02": {"units": ["decimal"], "harness": ["prims"], "cases": ["c02_*"]},
    "C03": {"units": ["uint128", "uint256", "uint512"], "harness": ["prims"], "cases": ["c03_*"], "kani_thorough": ["c03_linear_512"]},
    "C04": {"units": ["uint512"], "harness": ["prims"], "cases": ["c04_*"], "kani_thorough": ["c04_shifts_512", "c04_slices_512"]},
    "C05": {"units": [], "harness": ["prims"], "cases": ["c05_*"]},
    "C06": {"units": ["rational"], "harness": ["prims"], "cases": ["c06_*"]},
    "C07": {"units": ["height", "time"], "harness": ["prims"], "cases": ["c07_*"]},
    "C08": {"units": [], "harness": ["prims"], "cases": ["c08_*"]},
    "C09": {"units": ["delta"], "harness": ["acct"], "cases": ["c09_*"]},
    "C11": {"units": ["bech32"], "harness": ["prims", "chain"], "cases": ["c11_*"]},
    "C12": {"units": ["script"], "harness": ["script"], "cases": ["c12_*"], "kani_thorough": ["c12_writing_numbers"]},
    "C13": {"units": ["exec"], "harness": ["script"], "cases": ["c13_*"], "level": "exploration"},
    "C14": {"units": ["hd", "derive"], "harness": ["crypto"], "cases": ["c14_*"]},
    "C15": {"units": ["sign"], "harness": ["crypto"], "cases": ["c15_*"]},
    "C16": {"units": ["stream"], "harness": ["crypto"], "cases": ["c16_*"]},
    "C17": {"units": ["eq", "sym"], "harness": ["crypto"], "cases": ["c17_*"]},
    "C18": {"units": ["vrf"], "harness": ["crypto"], "cases": ["c18_*"]},
    "C19": {"units": ["locking"], "harness": ["store"], "cases": ["c19_*"]},
    "C20": {"units": ["orders"], "harness": ["chain"], "cases": ["c20_*"]},
    "C21": {"units": ["pos"], "harness": ["chain"], "cases": ["c21_*"]},
    "C22": {"units": ["tokens"], "harness": ["chain"], "cases": ["c22_*"]},
    "C23": {"units": ["values"], "harness": ["chain"], "cases": ["c23_*"]},
    "C24": {"units": ["weight"], "harness": ["chain"], "cases": ["c24_*"]},
    "C25": {"units": ["target", "work"], "harness": ["chain"], "cases": ["c25_*"]},
    "C26": {"units": ["emission"], "harness": ["chain"], "cases": ["c26_*"]},
    "C27": {"units": ["utxo"], "harness": ["chain"], "cases": ["c27_*"]},
    "C29": {"units": ["upgrades"], "harness": ["chain"], "cases": ["c29_*"]},
    "C28": {"units": ["timelocks"], "harness": ["verifier"], "cases": ["c28_*"]},
    "C30": {"units": ["scripts"], "harness": ["verifier"], "cases": ["c30_*"]},
    "C33": {"units": ["sighash"], "harness": ["chain"], "cases": ["c33_*"]},
    "C32": {"units": ["rewards"], "harness": ["verifier"], "cases": ["c32_*"]},
    "C31": {"units": ["chain"], "harness": ["node"], "cases": ["c31_*"]},
    "C10": {"units": ["deltaamount"], "harness": ["acct"], "cases": ["c10_*"]},
}
