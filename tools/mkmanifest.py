#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
COMMON = "Decided by a monitor over executions of the real package, copied from /repo's working tree; holds for what was run (see evidence), not for all inputs. "
T = {
    "C01": ("runtime conformance monitor: the executed hint against the data", "Trusts the harness's reading of the executed hint as a type."),
    "C02": ("importability and scoping monitor over executed generated modules", "pd.Series aliases are a recorded finding."),
    "C03": ("runtime precision monitor: every claim of the executed hint needs a witness in the data", ""),
    "C04": ("deep-snapshot, audit-event and interpreter-state monitors around generation", "Iterators are excluded: inspecting them consumes them."),
    "C05": ("cross-process differential monitor under varied hash seeds and histories", "Sets are excluded."),
    "C06": ("differential monitor: random rendering sequences against fresh trees", ""),
    "C07": ("file-content, directory and audit-event monitor of to_file, also in an ASCII locale", ""),
    "C08": ("acceptance monitor over hostile class names on both tools with directory snapshots", ""),
    "C09": ("differential monitor of executed hints under pairs of strategies", ""),
    "C10": ("differential monitor of expanded hints and alias placement over heights", ""),
    "C11": ("online reference model of the merge rule against executed hints", ""),
    "C12": ("differential monitor against truncated data, with counting iterators", ""),
    "C13": ("docstring monitor over executed modules with hostile texts", ""),
    "C14": ("differential monitor: YAML with comments against the loader's data", ""),
    "C15": ("docstring monitor against generated ground truth of comments", "Comments of plain words in block-style documents."),
    "C16": ("file-system monitor and concurrent callers with delays injected into the loader", ""),
    "C17": ("identity and deep-snapshot monitor of what live calls return", ""),
    "C18": ("trace checker: reference registry against stub and modules after every operation of random histories", ""),
    "C19": ("trace checker: validation verdicts against an independent comparison, with file snapshots", ""),
    "C20": ("trace checker with directory snapshots around reset in damaged states", ""),
    "C21": ("fault injection (kill or failure) at every file-system operation of live calls, with recovery monitor", "File-system operations as seen by Python's audit events and writes; no power-loss reordering."),
    "C22": ("runtime monitor of executed DataFrame hints against indexing", ""),
    "C23": ("monitor of executed protocols against inspect.signature", "Protocol __call__ is written without self, as the tests require."),
    "C24": ("metamorphic and alias-sharing monitor over generated modules", ""),
    "C25": ("concurrency stress: threads and interleavings with forced switches, against texts generated alone", "CPython threads under the GIL."),
    "C26": ("acceptance and immutability monitor over all option values", ""),
    "C27": ("runtime key monitor over executed TypedDicts with hostile keys", ""),
    "C28": ("pyright and mypy as monitors over generated modules and literals of the data and of mutated copies", "pyright and mypy as installed; keys that hide a type name are a recorded finding."),
    "C29": ("pyright as monitor of user code after random histories of live calls", "pyright as installed; class names that the stub itself uses are a recorded finding."),
    "C31": ("sys.monitoring counters of interpreter events over families of growing data", "Work inside C functions is not counted."),
    "C30": ("pyright and mypy as monitors of code that indexes hinted DataFrames, instances of the classes against the frames", "pandas is seen by the type checkers through a small stub with a generic Series."),
}
checks, na = [], []
for l in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)["id"]
    if (V / "checks" / f"{p.lower()}.py").exists():
        tech, note = T[p]
        checks.append({"property": p, "quick_cmd": f"python3 run_check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": "runtime monitoring: " + tech,
                       "level": "fault_enumeration" if p == "C21" else "exploration", "level_note": (COMMON + note).strip()})
    else:
        na.append({"property": p, "reason": "no check has been built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, pandas, yaml, typing_extensions'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed from outside (audit events, executed modules, file system)."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
