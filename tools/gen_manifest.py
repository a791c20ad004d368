#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the checks present and the notes below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit enumeration / breadth-first search of operation sequences on the real code against a reference model"
SCHED = "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler"
ENV = "exhaustive enumeration of environment behaviours (segmentations, faults, timings) of the real code in a controlled world"
T = {"C01": SEQ, "C02": SEQ, "C03": SEQ, "C04": SEQ, "C05": SEQ, "C06": SEQ, "C07": ENV, "C08": ENV, "C09": ENV, "C10": ENV,
     "C11": SEQ, "C12": ENV, "C13": ENV, "C14": ENV, "C15": SEQ, "C16": SCHED, "C17": SCHED, "C18": SCHED, "C19": SCHED,
     "C20": SCHED, "C21": SEQ, "C22": SCHED, "C23": SEQ, "C24": SCHED, "C25": ENV, "C26": ENV, "C27": ENV, "C28": SCHED,
     "C29": ENV, "C30": SEQ, "C32": SCHED, "C33": SCHED, "C34": ENV, "C35": SEQ}
NA = {"C31": "the web HMI (hmi/) only runs on Python 2 and needs the bottle package, neither of which exists here: no execution "
             "of it can be explored and a model could not be bound to the code"}
NOTE_SEQ = ("Exhaustive within the stated bounds for the code as it is executed (no abstraction of the code); trusts the reference "
            "model mc/ref.py, written from the Modbus specification, and CPython.")
NOTE_ENV = ("Exhaustive over the enumerated environment behaviours; the code runs unmodified on fake sockets/serial port/clock "
            "(mc/world.py, mc/fserial.py), whose fidelity to the real ones is trusted (documented in DESIGN.md, cross-checked by tools/conformance).")
NOTE_SCHED = ("Every interleaving at bytecode granularity of shared accesses up to the preemption bound reported in the evidence, each "
              "loop location a switch point for its first visits only; trusts the fake threading primitives of mc/world.py.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        t = T[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "technique": t, "level": "model_checking",
                       "level_note": {SEQ: NOTE_SEQ, ENV: NOTE_ENV, SCHED: NOTE_SCHED}[t]})
    else:
        na.append({"property": i, "reason": "no check yet (under construction)"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "MODBUS_TK_MC", "enable": "no hook was needed in /repo: the checks run the unmodified source", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
