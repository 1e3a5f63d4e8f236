#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below."""
import json, os
M = {
"C01": ("robustness stress: random key storms in every mode, panic/overflow assertions on, CPU-time watchdog", "exploration"),
"C02": ("outcome oracle over read_line on a scripted terminal", "exploration"),
"C03": ("online lock-step comparison with an executable reference model of the Emacs keys", "exploration"),
"C04": ("online lock-step comparison with an executable reference model of vi motions and modes", "exploration"),
"C05": ("online lock-step comparison with an executable reference model of vi operators", "exploration"),
"C06": ("online lock-step comparison; dot checked against retyping the change in a twin session", "exploration"),
"C07": ("history checker over recorded snapshots: set of admissible undo/redo trails", "exploration"),
"C08": ("terminal emulator fed with the bytes written, compared with the expected screen after every key", "exploration"),
"C09": ("terminal emulator oracle at submit, interrupt and clear", "exploration"),
"C10": ("online oracle recomputing the suggestion from history, with terminal emulator", "exploration"),
"C11": ("online lock-step comparison with a reference model of history browsing", "exploration"),
"C12": ("online lock-step comparison with a reference model of incremental search", "exploration"),
"C13": ("before/after conservation monitor over history entries and file", "exploration"),
"C14": ("reference-model monitor over the History API", "exploration"),
"C15": ("reference parser of the history file compared with load and commit", "exploration"),
"C16": ("file monitor after every push, and exactly-once checker over concurrent appenders", "exploration"),
"C17": ("multi-session monitor: what each session sees compared with the file", "exploration"),
"C18": ("online oracle for Tab over recorded completer calls", "exploration"),
"C19": ("directory listing oracle over generated trees", "exploration"),
"C20": ("reference word division and classification compared over generated lines", "exploration"),
"C21": ("pseudo-terminal monitor: termios, terminal emulator and returned lines of a child process", "exploration"),
"C22": ("trace checker over callback, flush and colour events", "exploration"),
"C23": ("reference-model monitor over the Buffer API", "exploration"),
"C24": ("fault injection at every I/O operation, with before/after oracles", "fault_enumeration"),
"C25": ("online lock-step comparison of the editor's operations with an executable reference model, with terminal emulator", "exploration"),
"C26": ("twin comparison of whole recorded reads: used context against new context", "exploration"),
"C27": ("terminal emulator keeping the colours of its cells, compared with what each cell is part of after every key", "exploration"),
"C28": ("model of an application's sessions over one history file, compared with returned lines, entries, file and terminal transcript after every line", "exploration"),
}
NOTE = {}
DEFAULT_NOTE = ("Held on the executions counted in the evidence, no more: seeded random and hostile workloads with a deterministic "
  "oracle. Trusts the oracle (DESIGN.md), the compiler and the standard library.")
NOT_APPLICABLE = []
CLAIMED = os.environ.get("CLAIMED","").split() or [k for k in M]
b=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(b+"/properties.jsonl")]
checks=[]
for i in ids:
    if i in CLAIMED:
        t,l=M[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",technique="runtime monitoring: "+t,level=l,level_note=NOTE.get(i,DEFAULT_NOTE)))
    elif i not in [n["property"] for n in NOT_APPLICABLE]:
        NOT_APPLICABLE.append(dict(property=i,reason="check under construction"))
json.dump(dict(version=1,setup_cmd="./check.sh build",checks=checks,not_applicable=NOT_APPLICABLE,
    notes="No hooks: everything the monitors observe is reached through liner's public API (terminal, completer, colour and word callbacks, buffers, history). Run './check.sh all' for every check, './check.sh replay FILE' for a witness."),
    open(b+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks")
