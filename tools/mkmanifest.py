"""Writes MANIFEST.json for the properties that have a check (dst/props/<id>.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation with fault injection: "
TECH = {
    "C01": "seeded hostile network (altered, spliced, replayed, re-signed messages) against real verifiers, checked against a record of what was signed",
    "C02": "seeded hostile network against real decrypters, checked against a record of what was encrypted",
    "C03": "simulated random source with rare and rejected values, results checked by an independent receiver",
    "C04": "simulated entropy source with accounting, failing draws, forks, threads and object reuse",
    "C05": "simulated key server and network with faults, key rotation and scheduled threads, histories checked against what was served",
    "C06": "bad entries, network faults, interruptions at every kind of code site and scheduled readers; all-or-nothing check",
    "C07": "simulated network, TLS and clock with certificate defects, redirects, stalls and scheduled threads",
    "C08": "simulated disk with torn writes, errors, crashes, restarts and interruptions, checked against reference material",
    "C09": "seeded thread scheduler at line and instruction level, results compared with a reference and with running alone",
    "C10": "seeded thread scheduler over shared verifier/decrypter objects, each result compared with its own input",
    "C11": "simulated network and clock with key rotation, loss, duplication and delay; liveness of honest messages",
    "C12": "histories with injected failures compared with twin objects that never saw the failed operations",
    "C13": "hostile sender of off-curve ephemeral keys among honest traffic, decrypters observed",
    "C15": "histories with failing entropy, network and files, interruptions and scheduled threads; every output searched for the secrets of the run",
    "C16": "repeated rounds of operations with ever new contents under network, disk, entropy failures and interruptions; open files, connections and reachable state watched",
    "C17": "histories and seeded thread schedules of calls that share their arguments, with interruptions and entropy failures, against the same calls made alone",
    "C14": "command line tools run under simulated disk, network and random source with faults",
}
NOTE = {
    "C01": "Every run is judged against exact records of what was signed; sampling of attacks, not exhaustive. Trusts the record-keeping harness and that the attacker cannot break the primitives.",
    "C02": "As C01 for encryption. The reference decrypter is independent code on Cryptodome primitives.",
    "C03": "Steers the random source to rare values; sampled. Receivers are the library and an independent decoder.",
    "C04": "Entropy use is accounted exactly per operation; statistics are coarse. Assumes the operating system's source is uniform.",
    "C05": "Real requests/urllib3/http.client code over simulated sockets; TLS and name lookup are stubs.",
    "C06": "Sites of interruption and schedules are sampled from all executed lines and instructions of the library.",
    "C07": "The TLS stub decides validity per host; real requests/urllib3 pass on the verification flag and timeouts.",
    "C08": "Real file calls on a scratch directory behind a fault-injecting open; torn files are all prefixes, sampled.",
    "C09": "Schedules switch threads at chosen lines or instructions of the library's own code; C code runs atomically.",
    "C10": "As C09.",
    "C11": "The receiver's key list, order and messages in flight are sampled; acceptance is checked for every deliverable message.",
    "C12": "Twins are rebuilt from the history without the failed operations; interrupted operations may count either way.",
    "C13": "Messages are built to decrypt under the secret that curve formulas would give; sampled points and curves.",
    "C15": "Secrets are recognised in raw, base64, hexadecimal, decimal and list form; sampled histories, sites and schedules.",
    "C16": "Growth means growth over 240 further rounds; stores bounded below that, and functools caches with a size, are not growth. Sampled histories.",
    "C17": "Arguments are judged by value, order and identity of elements; the outcome alone comes from the same library on fresh arguments, so what is wrong both ways is left to the other checks.",
    "C14": "Tools run in process from their files with simulated disk, network, clock and entropy.",
}
NA = {
    "C20": "Wire formats and test vectors are functions of the input alone: no schedule, clock, I/O, fault or second party affects them, so simulating those decides nothing (the independent reader used by C02, C03, C08 and C11 covers parts of it on the way).",
    "C21": "Decided by the header bytes alone; no nondeterminism or fault is involved. (The library does not implement crit; see DESIGN.md.)",
    "C22": "A pure function of the key's members; nothing to schedule or to fault. (C09 checks thumbprints taken by concurrent threads.)",
}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "dst", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": DST + TECH[i], "level": "exploration",
                       "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is taken at the interpreter's own interfaces (os.urandom, socket, open, "
                    "time, threading, sys.settrace/sys.monitoring). See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
