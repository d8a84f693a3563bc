#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and /verif/properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "property-based testing: "
# id: (technique, level, note)
CHECKS = {
 "R01": (T + "generated and boundary encodings, validity predicted by independent curve code, round-trip oracle", "exploration", "All encodable types of the crate and ten nestings of pairs; secp256k1 validity decided by independent arithmetic."),
 "R02": (T + "differential against independent curve arithmetic, algebraic laws", "exploration", "Boundary and unreduced scalars, torsion points; secp256k1 sums at infinity are not asked for."),
 "R03": (T + "differential against an RFC 7748 reference, agreement oracle", "exploration", "Secrets and arbitrary public strings including low-order and non-canonical ones."),
 "R04": (T + "generated signatures, verification in memory and after transport, cross-checked by a reference signer and verifier", "exploration", "Two hashes, messages to 1100 bytes; secp256k1 signing is not offered by the crate, so the reference signs."),
 "R05": (T + "mutated and crafted signatures, verdict compared with independent evaluation of the equation", "exploration", "Every single bit of one signature per curve plus generated alterations."),
 "K01": (T + "generated exchanges, round-trip oracle", "exploration", "Tens of thousands of generated key and encapsulation seeds with every mix of in-memory and re-coded values; assumes Kyber's own decryption failure rate is negligible."),
 "K02": (T + "differential against an independent round-1 reference", "exploration", "Every byte of keys, ciphertext and secret compared with a reference written from the specification and validated on the shipped known answers."),
 "K03": (T + "mutated ciphertexts against the reference's implicit rejection", "exploration", "Bit flips, splices, foreign and random ciphertexts; the exact rejection secret is predicted. Trusts the SHA-3 crate."),
 "K04": (T + "arbitrary and extreme encodings, differential oracle, overflow checks on", "exploration", "Built with overflow checks and debug assertions, so any wrap-around in the crate's arithmetic surfaces; result compared with exact modular arithmetic."),
 "K05": (T + "metamorphic single-bit changes of every input", "exploration", "Each input is perturbed by one bit and its dependents must change; equality of 256-bit values stands for dependence."),
 "N01": (T + "operation sequences against a reference symmetric state; 236 published vectors; enumerated data lengths", "exploration", "Seven hash/cipher configurations; every intermediate hash, ciphertext and final key compared. Trusts the hash and AEAD crates."),
 "N02": (T + "generated two-party scripts and transport traffic, lockstep oracle", "exploration", "Both parties run the real code; payloads, hashes and paired ciphers compared at every step."),
 "N03": (T + "one injected divergence per handshake, acceptance predicted by the reference", "exploration", "Divergences in wire, data, order, number and kind of steps and in the name; refusal is required at the very next decryption."),
 "N04": (T + "model-based transport histories with an adversarial channel", "exploration", "Two-queue model of what is due; replays, reordering, reflection, alteration and recovery after refusals."),
 "N05": (T + "long histories and counters placed near 2^k, differential against the AEAD", "exploration", "Counting past 2^16 for real; deeper counters are reached by editing the cipher object's memory, which is skipped (and counted) if the counter cannot be found."),
 "N06": (T + "histories with a recording rotation policy against a key-chain model", "exploration", "Intervals 1 to 65536, refusals and directions out of step; the policy's arguments are compared with the reference."),
 "N07": (T + "arbitrary byte strings of every short length, recovery oracle", "exploration", "All lengths 0..40 for every configuration plus generated longer inputs; panics are caught."),
 "S01": (T + "generated seeds, payload sizes and traffic, agreement oracle", "exploration", "Whole handshakes between honest parties for four payload-size combinations."),
 "S02": (T + "alteration, splicing and replay of message parts, refusal required at the receiver", "exploration", "A bit in every byte of the four messages (every seventh byte of long parts in the quick tier) plus generated alterations."),
 "S03": (T + "generated impostors: wrong identities and half-stolen keys", "exploration", "Impostors run the real code with the wrong secrets; computationally stronger adversaries are out of reach of testing."),
 "S04": (T + "differential against an independent implementation of the handshake", "exploration", "Every byte of every message, the final hash and both transport keys compared with a reference that uses its own curve, KEM and Noise code."),
 "S05": (T + "generated chains of representations, round-trip and reference oracles", "exploration", "Compress, clone, bincode, JSON in any order; usability checked by key agreement and encapsulation."),
 "S06": (T + "identities and edited or arbitrary texts, parse/print round trip", "exploration", "Two million texts; acceptance must coincide with being the text form of an identity."),
 "S07": (T + "arbitrary and protocol-following hostile messages, panics caught", "exploration", "Hostile peers are driven by the reference so that invalid keys arrive under valid encryption; one known finding (first message)."),
 "S08": (T + "pairs of sessions differing in chosen seeds, cross-delivery", "exploration", "Seeds differ by one or more bits; cross-session, reflected and repeated use judged."),
 "U01": (T + "generated datagram and command histories over loopback against an event model; races with conservation oracle", "exploration", "Real sockets; a marker datagram makes each step deterministic. Every opening sent is compared with all earlier ones, block by block."),
 "U02": (T + "stateful histories of commands and datagrams, panics of every thread observed, liveness probed", "exploration", "Includes texts to known peers, a second node on the port, an application that stopped reading, commands after shutdown."),
 "U03": (T + "histories followed by shutdown under varying arrivals, termination oracle", "exploration", "A stuck join is confirmed by the node's threads making no step over several seconds."),
 "D01": (T + "histories of starts, kills, rivals and stops of the real program; the process killed at every file-changing call in turn", "fault_enumeration", "Kill points are counted library calls (preloaded) and lines of output; kills keep the page cache, power failure is not covered."),
 "L01": (T + "histories of good, bad, held and concurrent connections and restarts of the real program; effects seen at a listener of the check", "exploration", "Each command's destination address encodes its number, so exactly-once and order are observed end to end; open files limited to 1024."),
 "D02": (T + "histories of starts of the real program with real obstacles, rivals and good starts; every obstacle alone and repeated", "exploration", "Obstacles are files, sockets and processes in a scratch directory; a start counts as hanging after 60 s."),
 "D03": (T + "histories of starts by every way to name a directory, copies, moves, losses and litter; every name crossed with every way", "exploration", "Real directories in a scratch directory; copies are made only while no node runs."),
 "L02": (T + "histories of refused, good and malformed command connections; the output of the real program counted against predicted refusals", "exploration", "Refusals are predicted by making the same connection attempt; failures are recognised by system error code or by the level of the line."),
 "L03": (T + "histories of commands and suspensions of the real program, effects seen at a listener of the check, the port probed by binding it", "exploration", "SIGSTOP, SIGTSTP and SIGCONT at generated moments; the longest suspension is 12 s (quick) or 70 s (thorough)."),
 "U04": (T + "the histories and oracles of U01, U03 and T01 while the node's threads are sent handled signals at generated rates", "exploration", "SIGUSR1 with an empty handler, with and without SA_RESTART, directed at each thread of the node."),
 "U05": (T + "sequences of life cycles with generated histories, threads, open files and port compared with those before", "exploration", "What is still there 15 s after the join counts as left behind."),
 "C01": (T + "generated argument lists, the bytes received decoded and compared; refusal oracle for unusable arguments", "exploration", "The real client program against a listener of the check; over 2000 invocations."),
 "T01": (T + "generated addresses, command sequences and start/stop cycles, prediction by binding the address", "exploration", "Incoming connections are excluded: the crate leaves them unimplemented."),
}
def main():
    props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, level, note = CHECKS[i]
            checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                           "technique": t, "level": level, "level_note": note, "evidence_file": f"evidence/{i}.json"})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Each check rebuilds from /repo's working tree; known and fixed findings are in known_findings.txt; design and results in DESIGN.md."}
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")
main()
