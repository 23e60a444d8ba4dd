#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (one place to edit the techniques and notes)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real broker under a controlled scheduler (all schedules up to a deviation bound) plus exhaustive bounded histories against a reference model"
SEQ = "explicit enumeration of all bounded operation histories on the real broker in a controlled world, each step compared with a reference model"
ENUM = "exhaustive enumeration of a bounded input space executed on the real code and compared with a reference model"
WORLD = "Decides on executions of the real, unmodified code; trusts the deterministic tokio stand-in (scheduler, channels are real tokio code, sockets, timers, signals are simulated) and the reference model; holds within the bounds in the evidence file."
T = {
 "C01": SCHED, "C02": ENUM, "C03": SCHED, "C04": SCHED, "C05": SCHED, "C06": SCHED, "C07": SCHED, "C08": SCHED, "C09": SCHED,
 "C10": "exhaustive enumeration of all segmentations (bounded) and of all partial reads up to a deviation bound on the real broker, compared step by step with a reference model",
 "C11": "exhaustive enumeration of mutated and truncated byte strings on the real broker, and all schedules up to a deviation bound of malformed input racing other clients, compared with a reference model",
 "C12": "exhaustive enumeration of window x read-size x traffic, and of all short-write patterns up to a deviation bound, on the real broker, compared with reference encodings",
 "C13": ENUM,
 "C14": "exhaustive interleavings of faulty clients' steps, all backlogs up to beyond every queue, and all schedules up to a deviation bound, on the real broker",
 "C15": "the interrupt enumerated at every scheduling point of a catalogue of histories, and all schedules up to a deviation bound, on the real broker",
 "C16": SCHED,
 "C17": "explicit-state model checking: breadth-first search of all reachable credential files with the real tool as transition function, every state compared with a reference map",
 "C18": "exhaustive enumeration of crash points, torn writes and failing calls under ptrace: every system call, every torn write prefix, every failing call of the real tool",
 "C19": ENUM, "C20": ENUM,
 "C21": ENUM, "C22": SCHED, "C23": SCHED, "C24": "exhaustive enumeration of a bounded input space: the real decoder and encoder against an independent reference codec", "C25": ENUM,
 "C26": SEQ + "; each history repeated until growth would show",
 "C27": "exhaustive enumeration of a bounded space of configurations, damages and faults, each start executed on the real broker and judged by a reference",
 "C28": "exhaustive enumeration of failing calls, short reads and writes and full disks under ptrace, and of a bounded input space, on the real tool",
 "C29": SEQ + " (here: everything logged is searched for secrets)",
 "C30": SEQ + "; each round of packets repeated until growth would show",
 "C32": "stateless model checking of several runs of the real tool under ptrace: all schedules of their system calls up to a preemption bound, and one of them killed at every point; the final file must be that of some order of the runs",
 "C33": SEQ + " (here: everything logged is searched for control characters of the clients' texts)",
 "C34": SCHED, "C35": SEQ,
 "C31": "exhaustive enumeration of crash points and failing calls under ptrace of the real tool: every file's owner and permissions inspected after every system call",
}
NOTE = {
 "C17": "Complete reachable state space (modulo salts) of each enumerated set of user names; runs the real tool as a process and the real broker's authentication as judge; trusts argon2.",
 "C18": "Every crash point of the enumerated edits; power failure is modelled as loss of file content that was not synced; trusts ptrace and the kernel's atomic rename.",
 "C19": "All combinations of the enumerated places, spellings, values and decoys, observed from outside (bound listeners, admitted users) through the real start-up code; trusts the tokio stand-in.",
 "C20": "All 65536 keep-alive values at the enumerated offsets; the session's own function is called directly because the broker does not enforce keep-alive yet.",
 "C24": "Calls the packet reader and writer directly on simulated sockets; exhaustive within the enumerated value sets; trusts the reference codec.",
 "C28": "Every failing call of the enumerated edits; trusts ptrace and the kernel.",
 "C32": "All interleavings at system calls that touch the credential file's folder, within the preemption bound; the tool is single-threaded; trusts ptrace and the kernel's flock and rename.",
 "C31": "Every moment between two system calls of the enumerated edits; run as root, so that fchown succeeds except where it is made to fail; trusts ptrace and the kernel.",
 "C14": WORLD + " A backlog beyond the queue of a client that does not read is a recorded finding.",
}
checks = []
for l in open(root + "/properties.jsonl"):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
        technique="model checking: " + T[i], level="model_checking", level_note=NOTE.get(i, WORLD)))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=[],
  notes="No hooks in /repo: the checks build /repo's crate against a drop-in replacement of the tokio crate (mc/tokio), and, for the families named 'real binary', /repo's two programs as they are. See DESIGN.md.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
