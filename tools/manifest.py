#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
SIM = "deterministic simulation with fault injection: seeded search over "
# property: (level, technique, note)
checks = {
 "C01": ("exploration", SIM + "map-iteration orders, clocks, environments, log levels and earlier in-process work",
   "Every map range of the library is under the simulator's control; sampled orders, not all. Inputs are drawn from a schema/WSDL generator and the repository's test data."),
 "C02": ("exploration", SIM + "map-iteration orders and histories of earlier, failed and interleaved parses",
   "Sampled histories over generated and corpus documents; models are compared field by field."),
 "C03": ("exploration", SIM + "reordered, duplicated and lost deliveries of schema documents",
   "Sampled deliveries; types are compared by name, anonymous types by structure where they are used."),
 "C04": ("exploration", SIM + "histories of calls that share buffers, trees and models, under permuted map iteration and failing writers",
   "Sampled histories; buffers carry guard bytes, trees and models are compared deeply before and after each call."),
 "C05": ("exploration", SIM + "interleavings at statement granularity of tasks that share trees, with the race detector and with failing writers",
   "Schedules are sampled; the simulator adds no happens-before edges, so the race detector sees what the code itself orders."),
 "C06": ("exploration", SIM + "interleavings at statement granularity of independent pipelines, with the race detector",
   "Schedules are sampled; race detection covers what the sampled schedules execute."),
 "C07": ("fault_enumeration", SIM + "write failures: every byte position of small encodings, write-call ends and drawn positions of larger ones",
   "Positions are enumerated per tree; trees and the kind of failure are sampled."),
 "C08": ("fault_enumeration", SIM + "file-system faults at every system call that reads, missing, unreadable and cut-off inputs, whole commands run in process",
   "Each read-side system call of a run gets a fault; its kind, the documents and the old output are sampled."),
 "C09": ("fault_enumeration", SIM + "file-system faults, crashes and lost writes at every system call that creates, writes or closes the output, whole commands run in process",
   "Each write-side system call of a run gets faults and crashes; kinds, documents and old outputs are sampled. Crash consistency is judged by rerunning the command."),
 "C10": ("exploration", SIM + "import graphs and faults on reachable files, whole commands run in process",
   "Graph shapes up to 41 files; termination is a bound of 60 million simulated steps."),
 "C11": ("exploration", SIM + "histories of generations, failures, and options applied, undone and redone on configurations, under permuted map iteration",
   "Sampled histories; undo in LIFO order, as the documentation promises it."),
 "C12": ("exploration", SIM + "interleavings of concurrent calls on one generated client over a simulated network with delays, faults and failures, with the race detector",
   "Clients are those generated by the working tree from fixed WSDL documents; schedules, arguments and responses are sampled."),
 "C13": ("fault_enumeration", SIM + "network faults: responses cut off or failing at every position, split and delayed, SOAP faults, bodies that are not SOAP",
   "Positions are enumerated for responses up to 420 bytes, else those at markup and drawn ones; responses and notations are sampled."),
 "C14": ("fault_enumeration", SIM + "cancellation and deadline instants on simulated time, silent servers and broken responses",
   "Instants before, at and after each event of an exchange are enumerated; the exchanges are sampled. Bounded time is one simulated second."),
 "C15": ("fault_enumeration", SIM + "stream faults: truncation and read failure at every position, split reads, damaged values, failing writes, interleaved decoders",
   "Positions are enumerated for encodings up to 360 bytes, else those at markup and drawn ones; types are those generated from fixed documents, values are sampled."),
 "C16": ("exploration", SIM + "histories of lookups and generations on one result, under permuted map iteration",
   "Sampled histories; answers are compared with fresh results, and with the identifiers the parsed source declares."),
 "C21": ("exploration", SIM + "storage and transfer faults of documents (lost, repeated, misplaced, stale, torn and flipped data), with undamaged work beside and after",
   "Sampled damages of generated and corpus documents; running without end is a bound of 100 million simulated steps for documents of up to some 60 kB."),
 "C23": ("fault_enumeration", SIM + "file-system faults at every system call of the command, a standard output that fails or fills up, missing, unreadable and cut-off inputs, permuted map iteration; the whole command runs in process",
   "Each system call of a run gets faults; their kinds and the documents are sampled. What has to be printed is what a faultless run prints."),
 "C24": ("exploration", SIM + "interleavings at statement granularity of tasks that encode shared values and decode and encode their own, over failing and split streams, with the race detector",
   "Schedules, values and streams are sampled; types are those the working tree generates from fixed documents."),
 "C25": ("exploration", SIM + "interleavings at statement granularity of tasks that modify trees of their own, with reading calls and failing writers in between and the race detector",
   "Histories and schedules are sampled; the oracle is the same history alone, and the modifications without the calls that read."),
}
na_pure = "a function of one input with no concurrency, time, I/O, history or map order that could change it: there is nothing for a simulator to schedule or to make fail; input generation alone would be a different technique"
not_built = "check not built yet"
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": [],
 "notes": "No hooks are committed in /repo: the checks instrument a copy of the current tree through go build -overlay (map ranges, goroutines, channel operations, package sync, the clock and the system calls of the Go runtime are replaced there). ./check.sh replay FILE reproduces a violation; ./check.sh determinism ID... runs seeds twice and compares the executions."}
for p in props:
    i = p["id"]
    if i in checks:
        lv, te, no = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": te, "level": lv, "level_note": no})
    else:
        m["not_applicable"].append({"property": i, "reason": na_pure if i in ("C17", "C18", "C19", "C20", "C22") else not_built})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
