#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTES = {
    "R01": "Seeded search over send/delay/loss/partition histories of two real ratchet parties; trusts the symbolic cryptography (distinct derivations give distinct keys) and the recorded history of plaintexts as oracle.",
    "R02": "Seeded search over histories with duplicated and replayed messages, each compared with a twin run in which the network swallows the repeats; trusts the symbolic cryptography.",
    "R03": "Seeded search over the first responses' losses, delays and reorderings; trusts the symbolic cryptography.",
    "R04": "Seeded search with live-object accounting of key material after every operation and attacker closure over copied states; trusts the symbolic cryptography and that dropping a value erases it.",
    "R05": "Seeded search with attacker closure over copied states and inspection of every ratchet step's randomness; trusts the symbolic cryptography.",
    "R06": "Seeded search with corrupted ciphertexts and stray messages of other sessions, compared with a twin run without them; headers of the session's own messages are not altered (nothing authenticates them in this API, the user's encryption scheme would).",
    "R07": "Seeded search running the real Diffie-Hellman, HKDF, HMAC and hashes inside the simulated ratchet, compared key by key with an independent implementation of the specifications written for this harness.",
    "S01": "Seeded search over share loss, order of arrival, holder crashes and restarts and histories of linear operations for every provided field and several others; oracle is arithmetic on the plain values.",
    "S02": "Seeded search over schedules of n real parties on a simulated executor and network with a simulated dealer; oracle is the program evaluated on plain values.",
    "S03": "Seeded search comparing, run by run, the sequences of joint operations and the opened values under two different schedules of the same program and randomness.",
    "S04": "Seeded search with crashes at arbitrary scheduling points and first-t openings; every produced share is checked against degree below t and its index.",
    "S05": "Seeded statistical experiments over many simulated executions; detects deviations from uniformity and independence that are large compared with the sample (chance of a false alarm below 1e-7 per check), not every conceivable leak.",
    "S06": "Seeded search under reordering, stalls, spurious wake-ups and healing partitions with deadlock detection, and measurement of communication rounds for growing input counts.",
    "S07": "Seeded search over interleavings of several OR sessions with scheduling points at the shared cache's locks and cancellations at waiting points.",
    "S08": "Seeded search over schedules with recorded contributions, plus statistical experiments with adversarial contributions (false alarm chance below 1e-7 per check).",
    "S10": "Seeded search comparing, run by run, every joint operation, opened value, share and number of draws of parties that go through their delegates, of parties that call the implementing types, and of both kinds together under seeded schedules; all nine delegatable traits of the library and one of the harness's own.",
    "H01": "Seeded search over interleaved streaming sessions and cuts around block boundaries, including streams beyond 2^32 bits; oracle is an independent implementation of the hash functions.",
    "H02": "Seeded search over a lossy and corrupting link between a reference sender and the real HMAC; oracle is an independent RFC 2104 implementation.",
    "E01": "Seeded search over token-passing schedules of n-party agreements with loss and repetition; oracle is an independent modular exponentiation; key pair independence is tested statistically.",
}
NA = {
    "M01": "Pure functions of their arguments: no scheduling, time, I/O, faults or parties for a simulation to control, so seeded search over schedules decides nothing here; input-space techniques would. (S01, S02, E01 and R07 exercise the fields through protocols.)",
    "M02": "Pure conversions of one value: nothing concurrent, timed, faulty or multi-party to simulate.",
    "M03": "A fact about constants, to be settled by a primality proof; there is no execution to schedule or to inject faults into.",
    "E02": "A pure function of key and message (key generation is not implemented): nothing concurrent, timed, faulty or multi-party to simulate.",
    "S09": "RootRandomBitGeneration is unfinished in the repository (its body ends in unimplemented!()), so there is no behaviour to simulate.",
}
CLAIMED = open(os.path.join(here, "tools", "claimed.txt")).read().split()
checks = []
for p in CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)"
        + (" with statistical oracle" if p in ("S05", "S08") else ""),
        "level": "exploration",
        "level_note": LEVEL_NOTES[p],
    })
na = [{"property": p, "reason": r} for p, r in NA.items()]
na += [{"property": p, "reason": "no check yet"} for p in LEVEL_NOTES if p not in CLAIMED]
m = {
    "version": 1,
    "setup_cmd": "./check.sh --setup",
    "hooks": {
        "guard": "--cfg jester_sim",
        "enable": "/verif/sim/.cargo/config.toml passes rustflags --cfg jester_sim; sim/Cargo.toml has path dependencies on /repo's crates",
        "source_commits": ["b3fd9d8", "edfacac"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "check.sh <id> rebuilds from /repo's working tree (keyed by content), explores, writes evidence/<id>.json; check.sh --replay <file> re-executes a violation.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
