#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in vf/checks, the rest under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
TRUST = " Trusted: TLC, the hand-written byte-exact specification (itself pinned to the NIST/FAEST test vectors by its models), the Java evaluation of SHAKE/AES/field primitives that MCPrim compares with their TLA+ definitions, and the recording harness."
T = {
 "C01": ("TLA+ spec + TLC: toy-instance completeness model, trace validation of recorded sign/verify histories", "The toy instance of the same specification is checked exhaustively (every key, challenge); on the real parameter sets every recorded key/message/randomizer history is validated against the ideal-signature state machine."),
 "C02": ("TLA+ spec + TLC trace validation, stage by stage, of recorded signing calls", "Recorded signatures of all 12 sets are recomputed byte for byte by TLC as behaviours of the signing state machine; inputs are sampled with structured lengths and single-byte changes."),
 "C03": ("TLA+ spec + TLC: binding model, trace validation of recorded verifications, spec-generated forgeries replayed", "Verdicts of the real verifier on honest, edited and spec-forged inputs are compared with the verification state machine; edits cover every region and boundary of signature, key and message."),
 "C04": ("TLA+ spec + TLC: exhaustive toy soundness, trace validation of recorded proof/verification calls", "Exhaustive on the toy field for the QuickSilver relation; on the real circuits every recorded prover/verifier value is recomputed and equality is compared with satisfaction of the constraint system for witnesses wrong in each byte."),
 "C05": ("TLA+ spec + TLC trace validation of key generation/validation/signing on constructed keys", "Keys with exactly one zero S-box at each position are constructed and the recorded behaviour must match the specification's."),
 "C06": ("TLA+ spec + TLC: randomness state machine, failure patterns enumerated and replayed", "All short failure patterns of the random source are enumerated by the model and replayed against the code; recorded outputs are validated."),
 "C07": ("TLA+ API contract spec + TLC trace validation under guard pages", "Argument combinations generated from the contract; memory footprint observed with guard pages and canaries."),
 "C08": ("TLA+ spec + TLC trace validation of combined-API histories", "Recorded crypto_sign/crypto_sign_open calls with all overlap modes validated against the specification."),
 "C09": ("TLA+ spec + TLC trace validation of helper calls", "Recorded calls of the fallback helpers (compiled in isolation) and of key clearing validated against their definitions."),
 "C10": ("TLA+ spec + TLC: tree-secrecy model, trace validation of recorded calls", "Index sets are exhaustive for small depths; the secrecy structure is exhaustive in the model; byte-exact comparison for every recorded commitment, opening and reconstruction."),
 "C11": ("TLA+ spec + TLC: exhaustive toy correlation, trace validation of recorded calls", "Correlation checked by TLC on every recorded commit/open/reconstruct, in every column and byte; exhaustive challenges in the toy instance."),
 "C12": ("TLA+ spec + TLC model of the parameter derivation and layout, recorded constants validated", "Complete: all 12 sets, all constants, all identifiers around the valid range."),
 "C13": ("TLA+ spec + TLC trace validation of recorded hashing calls in several Keccak backends", "Lengths around every block boundary, adversarial chunkings, inputs beyond 2^29 and 2^32 bytes."),
 "C14": ("TLA+ spec + TLC trace validation of recorded expansion calls", "All lengths around block boundaries, counters with every carry depth, both AES backends."),
 "C15": ("TLA+ spec + TLC trace validation of recorded cipher/OWF/witness calls", "Known-answer vectors for the specification itself; keys with a zero S-box at every position; sampled keys otherwise."),
 "C16": ("TLA+ spec + TLC trace validation of recorded hash calls", "Basis vectors for every input byte plus random inputs; values recomputed by TLC."),
 "C17": ("TLA+ spec + TLC: field model, trace validation of recorded operations", "GF(2^8) exhaustive; larger fields on basis products, carries and random operands in vector and scalar builds."),
 "C18": ("TLA+ non-interference spec + TLC validation of paired execution traces", "Pairs of executions that differ only in secrets, recorded at basic-block and memory-access level, must be in lockstep."),
 "C19": ("TLA+ concurrency spec + TLC, trace validation of recorded concurrent histories", "Recorded concurrent histories must linearise to sequential results; shared mutable state observed through a race detector."),
 "C20": ("TLA+ resource spec + TLC trace validation of recorded acquire/release histories", "Every allocation and release of every recorded call is an event validated against the ownership state machine, including injected allocation orderings."),
 "C21": ("TLA+ spec + TLC trace validation of the same calls recorded in all build configurations", "All configurations must produce the same behaviours of one specification."),
 "C22": ("TLA+ ideal API spec + TLC: behaviours generated by simulation replayed, recorded histories validated", "Histories generated from the specification; each result must be the history-free one."),
 "C23": ("TLA+ DRBG state machine + TLC trace validation of recorded request sequences", "Recorded request sequences with counters near every carry."),
 "C24": ("TLA+ model of the random source under faults + TLC, fault scripts replayed", "All short scripts of system-call outcomes are enumerated by the model and replayed against each variant of the code."),
}
have = [p for p in props if os.path.exists(f"{V}/vf/checks/{p.lower()}.py")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through public and test-visible interfaces, link-time interposition and compiler instrumentation of /repo's sources built in /verif/build."}
for p in props:
    if p in have:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                            "technique": T[p][0], "level": "model_checking", "level_note": T[p][1] + TRUST})
    else:
        m["not_applicable"].append({"property": p, "reason": "no check built yet"})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
