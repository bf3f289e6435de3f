#!/usr/bin/env python3
"""writes configs.json and MANIFEST.json from the table below"""
import json

BOTH = ["std", "no_std"]
COMMON = ("Abstract interpretation of the crate's MIR (rustc_public driver, dev profile without optimisation): every function "
          "reachable from the entry points is interpreted once per class of inputs, over value-numbering terms for data and linear "
          "inequalities for lengths, so one run covers all message bytes, keys, salts, counters and all lengths in a class; loops over "
          "unbounded lengths are summarised, compression kernels are replaced by the function F after being compared with it. ")
P = {}


def p(pid, technique, rule, expl, note, configs=BOTH, **kw):
    P[pid] = dict(technique=technique, rule=rule, explanation=COMMON + expl, note=note, configs=configs, kw=kw)


TRUST = ("Trusted: rustc's MIR for the two analysed builds (x86_64, std and no_std), the analyser itself (its transfer functions, the "
         "intrinsics it models) and the specification written in it. An obligation it cannot discharge is printed as UNDECIDED and counted "
         "in the evidence; it is not reported as a violation.")

p("C01", "abstract interpretation of MIR (value numbering), comparison of terms with RFC 7693's F",
  "the eight output words of every single-block kernel are, as terms over its symbolic inputs, those of F",
  "Every single-block compression function (portable and SIMD) is interpreted on symbolic chaining value, block, counter and flags; the output terms are matched against RFC 7693's compression function.", TRUST)
p("C02", "abstract interpretation of MIR (value numbering), comparison of terms with RFC 7693's F",
  "the output words of lane i of every multi-lane kernel are F of lane i's inputs, and of no other lane's",
  "Every multi-lane kernel is interpreted with all lanes symbolic (own chaining value, block, counter and flags per lane); every output word is compared with the one RFC 7693 gives for its lane.", TRUST)
p("C03", "abstract interpretation of MIR (value numbering), comparison with RFC 7693's parameter block",
  "state = IV xor parameter block for symbolic parameter values; key block absorbed once; digest terms equal the specification's",
  "Starting states are built through every public constructor with symbolic parameter values and the resulting digest terms are compared with the ones RFC 7693 prescribes.", TRUST)
p("C04", "abstract interpretation of MIR over polyhedra with loop summaries",
  "finalize(update(..)) = chain of F over the blocks of the concatenated input, for symbolic lengths",
  "Histories of updates with symbolic lengths are interpreted and the digest is compared with the chain of compressions over the concatenation.", TRUST)
p("C05", "abstract interpretation of MIR (frame condition on the state)",
  "the state's bytes and every later digest and count after finalize are the ones before it",
  "Finalizations are interposed in histories and the state, the count and the later digests are compared with those of the history without them.", TRUST)
p("C06", "abstract interpretation of MIR over polyhedra with loop summaries",
  "after update8/finalize8 a state of any history has the digest, count and later behaviour it would have alone",
  "One of the eight states has any history and any input length, the seven others are new and have any common input length; this is repeated for each of the eight positions, and the digest and count of the state are compared with those of a state alone.", TRUST)
p("C07", "abstract interpretation of MIR over polyhedra with loop summaries",
  "digest i of hash4_exact/hash8_exact is the chain of F over input i with parameter set i's starting value and last-node flag",
  "Both functions are interpreted with separate symbolic inputs and parameters per lane and a common symbolic length; all digests are compared with the specification's, and inputs that differ in length or are no positive multiple of the block length are shown to be refused.", TRUST)
p("C08", "abstract interpretation of MIR over polyhedra with loop summaries",
  "digest i of hash8 is that of input i with parameter set i; a parameter set with a key is refused",
  "One input of any length stands among seven others of any common length, for each of the eight positions, with separate symbolic parameters per lane; all eight digests are compared with the specification's.", TRUST)
p("C09", "abstract interpretation of MIR (value numbering), comparison with the tree specification",
  "initial values, key blocks, flags and output lengths of the eight leaves and the root are those of BLAKE2sp",
  "BLAKE2sp states with symbolic hash length and key are interpreted; every leaf's and the root's first chaining value, key block, last-node flag and byte counters are compared with the specification.", TRUST)
p("C10", "abstract interpretation of MIR over polyhedra with loop summaries",
  "leaf i compresses exactly the blocks i, i+8, i+16, .. of the concatenated input, and the root the leaves' digests in order",
  "Histories of BLAKE2sp updates with symbolic lengths are interpreted; the digest term is taken apart and each leaf's chain of compressions is compared with its share of the concatenation, for all lengths in each case of the split.", TRUST)
p("C11", "abstract interpretation of MIR (panic reachability by ranges)",
  "each setter panics in exactly the complement of its range, and leaves the parameters unchanged when it does",
  "Every setter of both parameter types is interpreted with an unconstrained argument; the conditions of its panicking and of its returning paths are compared with the specified range.", TRUST)
p("C12", "abstract interpretation of MIR (frame conditions of setters)",
  "after a setter call every parameter, read back through the parameter block of the resulting state, is the argument or what it was",
  "Each setter is applied to symbolic, previously set parameters and all parameters are observed through the states they give.", TRUST)
p("C13", "abstract interpretation of MIR (bounds of every access)",
  "every load, store, copy and raw-pointer access lies inside the object it was derived from, and reads only initialised bytes",
  "All accesses met in all runs are checked, for all lengths, against the object they belong to.", TRUST)
p("C14", "abstract interpretation of MIR (effect analysis of target features)",
  "a call to a function with target features is reached only under a positive detection of features that imply them",
  "Every call of a function compiled with target features or of a vendor intrinsic is checked against the detection results assumed on the path.", TRUST)
p("C15", "information-flow analysis over the abstract interpretation",
  "no branch condition, address, length, division or call target has a secret-dependent term",
  "Every branch and address met in all runs is checked for dependence on message, key, buffer or chaining values.", TRUST)
p("C16", "abstract interpretation of MIR plus information-flow",
  "the result term equals the conjunction of the byte equalities; no branch or address depends on the bytes",
  "Comparisons of hashes with hashes and with slices of all lengths are interpreted and their result compared with byte equality.", TRUST)
p("C17", "information-flow analysis into the formatting machinery",
  "no value handed to core::fmt depends on key, buffered input or chaining values; Debug of Hash hands over exactly its hex digits",
  "All formatting implementations of the crate are interpreted on keyed, updated values; every value given to a formatter call is inspected.", TRUST)
p("C18", "abstract interpretation of MIR over polyhedra",
  "count() is the sum of the update lengths, as a linear term",
  "count() is read after histories with symbolic lengths and compared with the sum of the lengths.", TRUST)
p("C19", "abstract interpretation of MIR (equality of effects)",
  "write(b) returns Ok(len) and leaves the state update(b) leaves; flush returns Ok and leaves everything",
  "write and flush are interpreted next to update for symbolic buffers.", TRUST, ["std"])
p("C20", "abstract interpretation of MIR (panic reachability)",
  "no path of a run inside its preconditions reaches a panic, an overflow check or an abort",
  "All runs start from valid arguments; every reachable assert, overflow check and panic call is reported.", TRUST)
p("C21", "effect analysis of MIR plus abstract interpretation of clones",
  "no write to anything not derived from the arguments, no mutable statics; operations on a clone leave the original",
  "All runs check that only memory belonging to the arguments is written; clones are continued separately and compared.", TRUST)
p("C22", "abstract interpretation of MIR (value numbering)",
  "bytes shown by every accessor are the little-endian prefix of the final chaining value; hex digits are the table lookup of their nibbles",
  "Hashes of every length 1 to 32 are observed through every accessor.", TRUST)

p("C23", "abstract interpretation of MIR for several targets (value numbering, polyhedra)",
  "every digest obligation holds in each configuration, so that each gives the specified digest; one that holds in some and is violated in another is a violation",
  "The crate is compiled to MIR for x86_64 with and without std, without debug assertions, and for i686 (32-bit), powerpc (32-bit, big-endian) and s390x (64-bit, big-endian), the core library being compiled to MIR from its source for the last three, with the layouts, pointer width and byte order of each target; every obligation of C01 to C04, C06 to C10 and C22 is decided for each.", TRUST,
  ["std", "release", "no_std", "i686", "powerpc", "s390x"], of=["C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C22"], more=["aarch64"])

NA = {
    "C24": "collision and preimage resistance are conjectures about the BLAKE2s function itself; no static argument about this code can establish them, and every code-level deviation from that function is covered by C01 to C10",
}
TODO = {}
for k in TODO:
    if k not in P:
        NA[k] = "not yet built"

cfg = {
    "configs": [
        {"name": "std", "args": []},
        {"name": "no_std", "args": ["--no-default-features"]},
        {"name": "release", "args": [], "rustflags": "-Cdebug-assertions=off -Coverflow-checks=off"},
        {"name": "i686", "args": ["--no-default-features"], "target": "i686-unknown-linux-gnu"},
        {"name": "powerpc", "args": ["--no-default-features"], "target": "powerpc-unknown-linux-gnu"},
        {"name": "s390x", "args": ["--no-default-features"], "target": "s390x-unknown-linux-gnu"},
        {"name": "aarch64", "args": ["--no-default-features"], "target": "aarch64-unknown-linux-gnu"},
    ],
    "properties": {k: {"configs": v["configs"], "rule": v["rule"], "explanation": v["explanation"], **v["kw"]} for k, v in sorted(P.items())},
}
man = {
    "version": 1,
    "setup_cmd": "bash driver/build.sh /verif/target",
    "checks": [
        {
            "property": k,
            "quick_cmd": "python3 check.py " + k,
            "thorough_cmd": "python3 check.py " + k,
            "technique": v["technique"],
            "level": "other",
            "level_note": v["note"],
        }
        for k, v in sorted(P.items())
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "One analyser (driver/, a rustc driver) decides all properties; see DESIGN.md.",
}
json.dump(cfg, open("configs.json", "w"), indent=1)
json.dump(man, open("MANIFEST.json", "w"), indent=1)
