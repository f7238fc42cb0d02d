#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the scenarios present."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "pure function of its input: no schedule, clock, I/O or fault in it for a simulator to control",
 "N03": "pure function of its input; random and name-based identifiers of this module are claimed as C24 and C40",
 "N04": "pure functions of their arguments",
 "N09": "pure function of its operands",
}
NOTE = "Seeded search over schedules, faults and histories with the real library code inside one process; sampling, not enumeration: a clean batch is evidence, not proof. Trusts the simulated libc/OS models, clang, and sequentially consistent memory between simulated threads. Every violation is minimised and replayed twice in fresh processes before it is reported."
EXTRA = {
 "C01": "per-item delivery ledger at quiescence and after shutdown, heap accounting",
 "C02": "interval order (queue linearizability) over recorded removals",
 "C03": "bounded-progress of the shutdown call, delivery ledger, thread table",
 "C04": "byte counts on simulated pipes, descriptor and heap accounting under failing calls",
 "C05": "mutual exclusion, wake-up and timeout history against the recorded lock/wait/signal events and the simulated clock",
 "C06": "start/finish/join ledger per thread under failing and delayed thread creation",
 "C07": "record parser over the simulated streams, files and syslog: every accepted call exactly one whole record",
 "C08": "per-call expectation of file/line/function in the emitted record",
 "C09": "ledger of installed and closed loggers, heap accounting, progress",
 "C10": "file contents after close against the accepted calls under write, open and close faults",
 "C11": "reachability computed by the model from the same object graph at every collection step",
 "C12": "release ledger, and release of everything unreachable within two full collections",
 "C13": "model of live elements, pages and statistics, heap accounting",
 "C14": "model of the pool tree, release ledger, heap accounting",
 "C15": "results of each operation against its specification, or an abort preceded by a message, under allocation failures",
 "C16": "reference parser of the same bytes, under short and failing reads and allocation failures",
 "C17": "reference map with references, termination within a step bound, heap accounting",
 "C18": "contents of the simulated file and identity of descriptors at return, under failing, short and interrupted calls",
 "C19": "state of the simulated processes (session, parent, descriptors, directory, mask) after the call",
 "C20": "state of the simulated directory tree at return, under concurrent creators and removers",
 "C21": "call sequence of registered callbacks at exit, heap accounting",
 "C22": "reference byte queue, heap accounting, unused space really allocated",
 "C23": "reference map and set, iteration ledger, heap accounting under allocation failures",
 "C24": "pairwise comparison of all identifiers generated by all threads",
 "C25": "simulated resource-usage clock: calls counted and microseconds consumed",
 "C26": "reference search over the simulated directory tree",
 "C27": "each job's digest compared with the digest of the same job alone, ownership of collected objects, freed-memory and heap accounting",
 "C28": "linear reference search over the networks added, heap accounting under allocation failures, concurrent readers",
 "C29": "red-black invariants and a reference set after every operation, concurrent readers",
 "C30": "reference byte vector per stream and element vector per array, heap accounting under allocation failures",
 "C31": "reference vector of members, release ledger, heap accounting under allocation failures",
 "C32": "reference sequence per list, queue and stack, traversal of both link directions, heap accounting under allocation failures",
 "C33": "reference search over the simulated environment and file system under failing calls",
 "C34": "planned sequence of test callbacks, counts and report parsed from the simulated standard output, under output and allocation failures",
 "C35": "answers compared with those of the same queries asked by one thread alone and with a reference model of the contents",
 "C36": "recording back ends and callbacks compared with a model of what is in force",
 "C37": "characters received by each sink compared with C's own formatting and a model of the registered conversions, under failing and short writes and allocation failures",
 "C39": "calls of callbacks and error function, variables, output and end of the process compared with a model of the vector, under short writes and allocation failures",
 "C40": "digests, hashes, numbers and identifiers compared with independent implementations of the standards, objects interleaved and copied",
 "C38": "calls received by the printer compared with a reference dump of the same bytes",
}
ids = set()
for f in glob.glob(V + "/sim/scn/*.c"): ids |= set(re.findall(r"^SCN\((\w+),", open(f).read(), re.M))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in ids:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories, oracle: " + EXTRA.get(i, "reference model and invariants"),
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is made at link time by renaming the library objects' libc and pthread references. fix: commits in /repo are listed in known_findings.jsonl."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
