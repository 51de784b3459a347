"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
MGR = {f"C{i:02d}" for i in range(1, 21)} - {"C18"}
CLI = {f"C{i}" for i in range(21, 27)}
NOTYET = {}
TECH = "TLA+ specification (spec/HotswapCore.tla): TLC explores the design (spec/HotswapDesign.tla) exhaustively, its histories are replayed on the real code, and TLC validates recorded traces of the real code"
NOTE = ("Bounded: decided on every recorded execution of the generated scenarios (all fixed suites exhaustively, random suites seeded), each event "
        "judged by TLC against the specification. Trusts the dlopen stand-in (itself compared with the real runtime by replaying histories with really built plugins), Go's synctest virtual clock, the harness and TLC.")
CTECH = "TLA+ specification (spec/CliCore.tla): TLC explores the design (spec/CliDesign.tla) exhaustively, its histories are replayed on the real tool, and TLC validates traces of the real command line tool, compiler and plugin loader against it"
CNOTE = ("Bounded: decided on every recorded run of the real tool over the generated modules and histories (fixed scenarios and seeded random ones), each run "
         "judged by TLC against the specification. On the real tool signals arrive while an external tool runs or a moment after; in the design at every step.")
checks, na = [], []
for p in props:
    i = p["id"]
    c = dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough bin/check {i}", level="model_checking")
    if i in MGR:
        c.update(technique=TECH, level_note=NOTE)
    elif i == "C18":
        c.update(technique="TLA+ specification (spec/Lookup.tla) enumerated by TLC; every case replayed into Plugin.Lookup and judged by TLC",
                 level_note="Exhaustive over 33 types, all symbol and target kinds of the specification; trusts the dlopen stand-in and TLC.")
    elif i in CLI:
        c.update(technique=CTECH, level_note=CNOTE)
    else:
        na.append(dict(property=i, reason=NOTYET.get(i, "not built yet")))
        continue
    checks.append(c)
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
