#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NET = "TLA+/TLC: Transport and queue pipeline model checked and refined; behaviours generated by TLC are executed on the real transports and the recorded histories are replayed through the specification by TLC"
SHAMIR = "TLA+/TLC: ideal machine and message-level protocol model checked; programs generated by TLC run on the real Shamir code over toy fields and curves with a recording network, and TLC judges every share and message"
REP3 = "TLA+/TLC: ideal machine over replicated shares and message-level protocols model checked; programs generated by TLC and enumerated operand tables run on the real three-party code over toy fields and curves with a recording network, and TLC judges every share, opening and message"
T = {
    **{f"N0{i}": (NET, "model checked on small instances; conformance on generated schedules and enumerated faults over real sockets") for i in (1, 2, 3, 4, 5, 6, 8)},
    "N07": ("TLA+/TLC: rendezvous model (Session) model checked; TLC behaviours replayed step by step against the real session handlers and judged by TLC; overlapping real sessions judged by the Transport monitor", "model checked on small instances; conformance on generated histories"),
    **{f"S0{i}": (SHAMIR, "exhaustive on the smallest field, model checked on small instances; conformance by generated and enumerated programs for 3 to 20 parties") for i in range(1, 6)},
    "S06": ("TLA+/TLC: the privacy argument is checked exhaustively over all coins of a small field (equal view distributions); views recorded from the real protocol are counted and judged by TLC against that distribution", "exhaustive in the model; statistical conformance of the real views (bounded false-alarm rate, chi squared at 12 sigma)"),
    **{f"R0{i}": (REP3, n) for i, n in ((1, "model checked on a small field; conformance for every share form, length and truncated recipient vector"), (2, "exhaustive on the smallest field, model checked on small instances; conformance by generated and enumerated programs"), (4, "exhaustive on three fields up to 257; conformance by generated programs up to 16 bits"), (5, "circuits model checked; exhaustive on two fields, boundary operands and generated programs up to 16 bits"), (7, "exhaustive on an 11 element field for every parameter; boundary operands and generated programs up to 16 bits"))},
    "R03": ("TLA+/TLC: alignment and privacy of the replicated protocols checked exhaustively over all coins of a small field, and refuted without the masks; histories of draws and forks, and views recorded from the real protocols, are counted and judged by TLC", "exhaustive in the model; statistical conformance of the real views (bounded false-alarm rate, chi squared at 12 sigma)"),
    "R08": ("TLA+/TLC: the translation specified and model checked; shares produced by the real bridge judged by TLC with the Shamir specification, its messages counted and judged for uniformity", "exhaustive on pairs over the smallest field; conformance on generated vectors up to 4097 elements"),
    "R06": ("TLA+/TLC: ring sharing on components, bitwise adders, comparisons and division model checked; random programs run on the real engine over every width and replayed by TLC through a machine on digit sequences, shares checked at all parties", "exhaustive on widths up to 3 or 6 bits in the model; conformance on boundary operands and generated programs for 1 to 128 and 512 bits"),
    "R09": ("TLA+/TLC: one-hot recursion, masked table reads and the radix sort under arbitrary shuffles model checked; reads, writes and sorts of the real engine replayed by TLC through the plain definition", "exhaustive on small tables and key sequences in the model; conformance on generated tables of 1 to 257 entries and key sequences with duplicates"),
    "D01": ("TLA+/TLC: input flattening, sharing, merging and batching specified and model checked (merge of partial inputs); TLC-generated inputs, merges, batches and witnesses run through the real code and judged by TLC", "model checked on small instances; conformance on generated inputs over four toy fields"),
    "D02": ("TLA+/TLC: message format model checked (round trip, no truncation accepted, widths, counts); encodings, truncations and frames of the real types recorded and judged by TLC", "model checked on small instances; conformance on boundary and random values of every type, all truncations"),
    "D03": ("TLA+/TLC: arithmetic modulo 2^k on digit sequences specified and model checked against integers; results of every operation form of the real types recorded and judged by TLC", "exhaustive for 1 and 8 bits, boundary and random operands for wider types"),
    "G01": ("TLA+/TLC: the permutation by explicit matrices and round functions, masked evaluation model checked against it; results and shares of every evaluation form of the real code over toy fields judged by TLC; published BN254 parameters judged against the Grain generator specified in TLA+", "model checked on a small field; conformance on random parameter sets for all widths, complete for the published parameters"),
    "G02": ("TLA+/TLC: hash trees over an ideal hash model checked (soundness of paths); roots, witnesses and verdicts on altered paths of the real code, plain and on shares, judged by TLC with the specified permutation", "model checked for arities 2 and 3; conformance on generated trees of all supported widths and arities 2, 3, 4, 8"),
    "P01": ("TLA+/TLC: Groth16 with known exponents specified (completeness model checked over every assignment, key and blinding of small systems); proofs of the real plain and shared provers over toy pairings judged by TLC against the predicted exponents", "model checked on small systems; conformance on generated constraint systems, keys and witnesses"),
    "P02": ("TLA+/TLC: the quotient by interpolation and division specified and model checked; coefficients computed by the real reductions, plain and on shares, judged by TLC", "model checked on a small field; conformance on generated systems for every domain size up to 256"),
    "P03": ("TLA+/TLC: PLONK with known exponents (gates, grand product, quotient, Keccak transcript, blinding) specified and model checked; proofs of the real plain and shared provers over a toy curve judged by TLC against the predicted proof for the recovered blinding", "model checked on sampled circuits of 8 rows; conformance on generated circuits, keys and assignments"),
    "P04": ("TLA+/TLC: both verification equations with known exponents and the Keccak transcript specified and model checked (what a changed proof can pass); verdicts of the real verifiers on made, mutated and random proofs judged by TLC", "model checked on small fields; conformance on generated keys and proofs"),
    "P05": ("TLA+/TLC: the masked running product model checked over all factors and masks of a small field (exact, opened values independent of the factors; refuted with one common mask); result shares and every vector exchanged by the real code judged by TLC, with all linear reconstructions a party can form; messages of whole proofs repeated for one statement judged likewise for values that do not change", "exhaustive in the model; conformance on generated factors, lengths, party counts; views for three parties"),
    "V01": ("TLA+/TLC: meaning of programs and the oblivious bytecode machine specified, the machine model checked against the meaning; TLC recompiles generated programs and judges the runs of the real machine on every backend", "model checked over all small programs of a pool with every choice of shared inputs; conformance on generated programs with branches, calls, early returns, loops and sub-components"),
    "G03": ("TLA+/TLC: well-formedness, semantics and levels of circuit descriptions model checked (every evaluation order); TLC-generated and corrupted descriptions are read, levelled and evaluated by the real code and judged by TLC", "model checked on all circuits of 3 gates; conformance on generated descriptions, all inputs of small circuits"),
}
extra = os.path.join(V, "manifest_extra.json")
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "planned, machinery not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "cfg cosnarks_verif", "enable": "RUSTFLAGS --cfg cosnarks_verif, set in .cargo/config.toml of the harness crates (implements the integer backing of field elements for the toy fields)", "source_commits": ["365a10f"]}, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
