#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SCHED = "stateless model checking of the real code: exhaustive thread interleavings up to a preemption bound under a controlled scheduler, with data race detection in every explored execution"
HIST = "bounded exhaustive exploration of the real code: every operation history up to a depth in a controlled environment, compared step by step with a reference model"
INP = "bounded exhaustive exploration of the real code over an enumerated input alphabet, compared with a reference model"
FAULT = "exhaustive fault injection: every failing file-system operation of every bounded history of the real code, compared with a reference model"
CRASH = "exhaustive crash-point enumeration: process death at every operation boundary and inside every write of every bounded history of the real code, then restart"
TRUST = " Trusts the source instrumenter and the controlled environment (scheduler, clock, file system, fmt/sync/time shims) in /verif/mc, the reference models in /verif/mc/x/harness, and the Go toolchain. Nothing outside the stated alphabet and bounds is claimed."
C = {}
def c(id, tech, level, note): C[id] = (tech, level, note)
c("C01", HIST, "model_checking", "All histories of lookups and level/output changes over small hierarchies, then every logging method at every level; deliveries, order and queries equal the model's.")
c("C02", HIST, "model_checking", "All orders of first lookup over families of related names, with the configuration set at every position.")
c("C03", SCHED, "model_checking", "All interleavings within the bound of 2-3 goroutines on every built-in kind of output, with and without rollovers; content is checked record by record.")
c("C04", SCHED, "model_checking", "All interleavings within the bound of loggers, closers and signals over async outputs with tiny queues; deadlock, panic, loss and duplication are checked at the end of each.")
c("C05", SCHED, "model_checking", "All record sequences and flush ticks up to a bound under all interleavings within the preemption bound; every write is compared with the stream of a synchronous output.")
c("C06", SCHED, "model_checking", "All pairs (and some triples) of public operations under all interleavings within the bound; a happens-before race detector runs inside every explored execution, deadlock and panic are checked too.")
c("C07", HIST + "; plus interleavings of a load with lookups and logging", "model_checking", "All sequences of configurations from a family, with lookups at every position, compared with a freshly started system.")
c("C08", INP, "model_checking", "All small configurations with all collisions and dangling references, every truncation of valid documents, all file extensions of a list; acceptance and the state after a refusal are compared with a model.")
c("C09", INP, "model_checking", "Every value of a list per parameter through the public configuration; effects are observed on files, modes, names and flush points.")
c("C10", HIST, "model_checking", "All histories of records and restarts over many initial directories; the directory is compared with the model after every step.")
c("C11", HIST, "model_checking", "All histories of rollovers and restarts over initial directories with foreign and look-alike files; removed and remaining files are compared with the model.")
c("C12", HIST, "model_checking", "All histories of records, clock advances and restarts for each kind of pattern; content per period is compared with the model.")
c("C13", HIST + "; plus every single failing operation", "model_checking", "All histories for both archive kinds; archives are read back with the standard library after every step; single (thorough: pairs of) file-system failures at every operation.")
c("C14", FAULT, "fault_enumeration", "Every single failing operation (thorough: pairs and outages) in every bounded history; only records of faulted calls may be missing, and writing, rollover and retention resume.")
c("C15", CRASH, "fault_enumeration", "Every crash point of every bounded history, with every torn length of a write of small records, then restart and more records. Process crash only: the file system survives.")
c("C16", INP, "model_checking", "All layouts up to a bound of parts from every verb, spec and awkward text, times awkward events.")
c("C17", HIST, "model_checking", "All methods, argument lists, receivers and inheritance depths, and all short histories of alternating writers.")
c("C18", INP, "model_checking", "All methods, receivers, depths, output kinds, verb combinations, skips and kinds of calling function.")
c("C19", INP, "model_checking", "All output kinds x threshold strings x message levels x pairs of outputs; syslog connections are replaced by a recorder.")
c("C20", HIST + "; plus interleavings of concurrent lookups and loads", "model_checking", "All assignments of outputs and formats to loggers, all lookup orders, repeated loads and concurrent lookups.")
c("C21", INP, "model_checking", "All lists of up to 2 (thorough: 3) files with awkward names and contents for all pairs of archive kinds, and all short growing-archive histories.")
c("C22", INP + "; plus interleavings of a nesting call with other calls", "model_checking", "All places where application code runs inside a logging call, times nested actions or panics, times output kinds; and all interleavings within the bound with another goroutine.")
c("C23", HIST.replace("compared step by step with a reference model", "with open files, connections, goroutines and leftover files counted after every step") + "; plus every single failing operation, and interleavings with loads and Close", "model_checking", "All histories of records, rollovers, loads and Close over all kinds of output; every failing file operation of calls with rollovers.")
c("C24", HIST + "; plus interleavings of lookups with a load while creators recover", "model_checking", "All histories of loads, lookups and creator failures over small configurations with the application's own types; the same with syslog that cannot be reached, with creators replaced, and with creators that change their configuration.")
m = {"version": 1,
 "setup_cmd": "./tools/setup.sh",
 "hooks": {"guard": "build overlay (go build -overlay); /repo contains no hook, instrumentation exists only in the overlay generated by mc/instr at check time", "enable": "run.sh rewrites a copy of the working tree's sources (channels, go statements, sync, time, os, fmt ... to their controlled counterparts in mc/x) and builds it with go build -overlay", "source_commits": []},
 "checks": [{"property": k, "quick_cmd": f"VERIF_TIER=quick ./run.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {k}", "technique": v[0], "level": v[1], "level_note": v[2] + TRUST} for k, v in C.items()],
 "not_applicable": [],
 "notes": "A check exits 0 when the property held on everything explored (coverage in evidence/<id>.json), 1 with a VIOLATION line otherwise; replays are re-run with ./run.sh --replay FILE."}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1, ensure_ascii=False)
open(p, "a").write("\n")
