#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = "deterministic simulation with fault injection: the real engine runs under a simulated kernel, seeded search over schedules, crashes and I/O faults, histories checked against a reference model"
NOTE = "Exploration: seeded sampling of schedules, fault sequences and workloads, no exhaustiveness. Trusts the simulated kernel (libpolosim: scheduling, files, clocks), the reference model, and sequentially consistent memory between scheduling points; RocksDB is run, not modelled."
EXTRA = {
 "C01": "crash points before, during (torn write) and after every kind of file operation and at arbitrary scheduling steps, repeated; process kill and power loss with any subset of unsynced blocks and names",
 "C02": "as C01, with transactions and multi-document operations cut in the middle",
 "C03": "interleavings of transactions and readers, fault-free",
 "C04": "conflicting updates from 2-4 threads; linearizability against the model",
 "C05": "racing inserts of one _id, also in transactions and batches",
 "C06": "unique indexes under racing writers, transactions, crashes",
 "C07": "every query is answered with and without index and compared with the model",
 "C08": "failing operations of every kind, with and without storage faults",
 "C09": "EIO, ENOSPC, EMFILE, EINTR, short reads and writes, failed syncs at every kind of file operation, then reopening",
 "C10": "cursors and multi-document writes interleaved with writers",
 "C11": "deadlocks and conflicts in virtual time; bounded virtual time per operation, endless loops and blocked threads detected",
 "C12": "simulated entropy and clock (coarse, standing still, jumping back), several lives",
 "C13": "open, clone, drop, use from several threads",
 "C14": "several collections with related names, concurrent creation and dropping",
 "C15": "long single-client histories of all operations with reopening, flushes and small buffers",
 "C16": "the real server program, simulated network: fragmentation, delay, pipelining",
 "C17": "cursors over the wire, several connections, random batch sizes, kills",
 "C18": "sessions and transactions over the wire, several connections",
 "C19": "disconnects at any byte, malformed and truncated frames, stalled readers next to good clients",
 "C20": "server killed at any file or network operation, restarted on the surviving disk",
}
CLAIMED = ["C%02d" % i for i in range(1, 21)]
NA = {
 "C21": "A pure function of the two values: no schedule, clock, fault or interleaving for a simulation to vary. (Its consequences, index answers and id uniqueness, are decided under C05-C07 and C15.)",
 "C22": "Encoding and decoding of one message is a pure function of bytes; what the network can do to messages is decided under C16 and C19.",
 "C23": "Value conversion of the Python package is a pure function executed in the caller's thread under the interpreter lock; no nondeterminism it depends on.",
 "C24": "A pure function of two strings used by tests.",
}
m = {"version": 1, "setup_cmd": "tools/build.sh",
     "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
                 "technique": TECH, "level": "exploration", "level_note": f"Explored: {EXTRA[p]}. {NOTE}"} for p in CLAIMED],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: every seam is at the C library (libpolosim.so) and at the compiler (coverage instrumentation as preemption points), so the shipped code is what runs. /repo has only fix: commits."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
