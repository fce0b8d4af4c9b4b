#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
BFS = "explicit-state BFS over operation histories of the real object in lockstep with a reference model"
MC = "model_checking"
NOTE_BFS = ("Every history over the stated alphabet is explored to the fixpoint of the reachable states (quick and thorough differ in "
            "the number of participants and keys); each transition runs the real code and is compared with an independent reference "
            "model. Trusted: the reference model, and that states with equal canonical dumps have equal futures.")
C = {}
for i in range(1, 9):
    C["C%02d" % i] = (MC, BFS, NOTE_BFS)
C["C07"] = (MC, BFS, NOTE_BFS + " One known finding (KNOWN_FINDINGS.txt): YIELD from an attached non-callee.")
EXP = "exploration"
ENUM = "bounded exhaustive enumeration of inputs executed on the real code against an independent reference oracle"
NOTE_ENUM = ("Every input of the stated finite alphabet is executed on the real code; nothing is sampled. Trusted: the reference oracle "
             "and that the alphabet (encoding boundaries, one value per kind) represents the rest of the domain.")
C["C09"] = (EXP, ENUM, NOTE_ENUM)
C["C10"] = (MC, BFS + "; every path back to the idle state repeated and the retained state measured", NOTE_BFS)
C["C11"] = (MC, BFS + "; every message of a hostile alphabet injected in every reachable state", NOTE_BFS)
for i in (21, 22, 23, 24, 25, 26, 27):
    C["C%d" % i] = (EXP, ENUM, NOTE_ENUM)
C["C15"] = (MC, BFS, NOTE_BFS)
C["C16"] = (MC, "explicit-state BFS over all interleavings of the real sessions, broker and dealer composed over FIFO channels",
            "Every interleaving of the budgeted requests, router steps and deliveries is explored; both the real session and an independent "
            "tracker must expect every delivered message. Trusted: the tracker and the single-threaded routing loop of the harness.")
C["C17"] = (MC, BFS.replace("operation histories", "message histories") + " (randomness canonicalised)", NOTE_BFS)
C["C20"] = (MC, BFS.replace("operation histories", "message histories"), NOTE_BFS)
C["C18"] = (EXP, ENUM, NOTE_ENUM)
C["C19"] = (EXP, ENUM, NOTE_ENUM)
SCHED = ("stateless exploration of all schedules up to a preemption bound of the instrumented real code under a controlled scheduler, "
         "outcomes compared with those of the sequential orders")
NOTE_SCHED = ("Every schedule of every small concurrent program up to the stated number of preemptions runs on the real code (a scheduling "
              "point before each statement and synchronisation operation), with happens-before race and deadlock detection. Trusted: the "
              "replacements of sync and sync/atomic, and the choice of programs.")
for i in ("C12", "C13", "C14"):
    C[i] = (MC, SCHED, NOTE_SCHED)
C["C06"] = (MC, BFS + "; exhaustive enumeration of every value the random choice can draw (scripted random source)", NOTE_BFS)
C["C28"] = (MC, "exhaustive enumeration of the interleavings of the operations of two real objects, each compared with the object alone and "
            "everything handed in or out compared with snapshots; and " + SCHED,
            "Every interleaving of the two operation sequences runs on the real code for every pair of object kinds; the reference is the same "
            "object alone in a fresh process. " + NOTE_SCHED)
C["C30"] = (EXP, ENUM, NOTE_ENUM)
C["C29"] = (MC, BFS + "; exhaustive enumeration of complete conversations over framed bytes", NOTE_BFS)
exec(open(ROOT + "/tools/manifest_more.py").read()) if os.path.exists(ROOT + "/tools/manifest_more.py") else None
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s thorough" % p,
                 "technique": C[p][1], "level": C[p][0], "level_note": C[p][2]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in C],
     "notes": "Hooks: none in /repo. Every check builds the checker in mc/ against /repo's working tree. See DESIGN.md."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
