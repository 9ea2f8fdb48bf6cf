"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("generated handshakes between the real sessions under generated schedules, differential against NaCl key agreement", "exploration"),
 "C02": ("generated write histories over real sessions against a FIFO model", "exploration"),
 "C03": ("generated marked/unmarked writes, flag model over decoded wire packets", "exploration"),
 "C04": ("generated active attackers on the handshake, invariant: a deviating transcript never completes", "exploration"),
 "C05": ("generated attacker histories on the packet stream, prefix model and every-bit enumeration", "exploration"),
 "C06": ("differential testing against an independent reference implementation, byte for byte", "exploration"),
 "C07": ("generated histories with enumerated write faults; nonce-uniqueness and plaintext-search invariants", "fault_enumeration"),
 "C08": ("generated field values; round trip and differential against a reference encoder", "exploration"),
 "C09": ("generated and mutated byte strings against a reference validity predicate", "exploration"),
 "C10": ("generated hostile peers at every stage; only the documented error family may escape", "exploration"),
 "C11": ("generated wanted/own/claimed server keys against a decision table", "exploration"),
 "C12": ("generated A1 requests, protocol lists and answers against a reference responder", "exploration"),
 "C13": ("generated clocks and refusing checkers against a call-log model", "exploration"),
 "C14": ("generated messages and fragmentations against a FIFO and framing model, also on real sockets", "exploration"),
 "C15": ("enumerated and generated cut positions and failure kinds, prefix model", "fault_enumeration"),
 "C16": ("differential testing of blocking against awaited calls over generated scripts and thread contexts", "exploration"),
 "C17": ("differential testing of all back ends against libsodium/hashlib; generated alterations", "exploration"),
 "C18": ("generated library availability and request sequences in fresh interpreters against a decision table", "exploration"),
 "C19": ("generated interleavings of many sessions, tasks and threads; metamorphic comparison with each session alone", "exploration"),
 "C20": ("model-based histories on wrapped and plain channels; FIFO model of tunnels", "exploration"),
 "C21": ("generated key and random requests; NaCl derivation oracle, freshness over processes, threads and forks", "exploration"),
 "C22": ("differential testing of the pure-Python code against libsodium, hashlib and integer arithmetic", "exploration"),
 "C23": ("generated client/server scenarios through the real runners on loopback, counting model", "exploration"),
 "C24": ("generated reference peers, losses and fragmentations against the bundled sessions, output compared with a model of the exchange", "exploration"),
 "C25": ("enumerated and generated cancellation points, fragmentations and flow control; FIFO and all-or-nothing model", "fault_enumeration"),
 "C26": ("model-based histories of writes, reads and foreign packets on directly made encrypted channels; NaCl boxes as oracle", "exploration"),
}
NOTE = {
 "C18": "Library sets are enumerated completely, request sequences sampled. Trusts that patched lookup/import behaves like a missing library.",
 "C21": "Sampled; randomness itself is judged only by freshness and per-bit statistics with false-alarm chance below 1e-20.",
 "C22": "Sampled; curve operations are slow in pure Python, so only hundreds of them per quick run. Trusts libsodium.",
 "C23": "Sampled scenarios on the loopback network with real threads and processes; scheduling is the operating system's.",
 "C19": "Sampled interleavings; asyncio schedules are owned by the harness and replayable, thread schedules are the interpreter's.",
 "C15": "Every cut position and failure kind of short streams and of handshakes is enumerated; longer streams are sampled.",
 "C25": "A cancellation after every byte of short messages is enumerated at three layers; longer histories are sampled. Event loop steps are driven by the harness.",
 "C07": "Every write of a session is failed in turn for enumerated histories; other histories are sampled.",
}
DEF = "Held on all generated cases (counts in the evidence file); not a proof. Trusts the reference model in vh/ref.py, PyNaCl's libsodium and Hypothesis' generators."
checks = [dict(property=p, quick_cmd="./check.sh %s" % p, thorough_cmd="./check.sh %s --tier thorough" % p,
               evidence_file="evidence/%s.json" % p, technique="property-based testing: " + t, level=l, level_note=NOTE.get(p, DEF)) for p, (t, l) in sorted(T.items())]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
         notes="No hooks in /repo. Findings that were repaired are listed in known_findings.txt. Replay a failure with ./check.sh --replay FILE.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
