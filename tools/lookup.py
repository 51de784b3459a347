"""Engine for C18: every case of spec/Lookup.tla is put to the real Plugin.Lookup; TLC judges the outcomes."""
import json, os, re
from common import *
import mgr


def check(prop):
    rep = Report(prop)
    exe = mgr.build()
    out = os.path.join(sub("lookup"), "calls.jsonl")
    rc, txt = run([exe, "-test.run", "^TestLookup$"], env=goenv(HS_OUT=out), cwd=sub("lookup"), timeout=300)
    calls = open(out, encoding="utf-8").read().splitlines() if os.path.exists(out) else []
    calls = [c for c in calls if c.endswith("}")]
    if rc != 0:
        rep.violation("crash", "the process died in Plugin.Lookup: " + txt[-500:], dict(output=txt[-5000:], last_calls=calls[-2:]))
    with open(out, "w", encoding="utf-8") as f:
        f.write("".join(c + "\n" for c in calls))
    res = tlc_wait(tlc("LookupTrace.tla", "LookupTrace.cfg", env=dict(TRACE=out)))
    m = re.search(r'<<"CONSUMED", (\d+), (\d+), (\d+), (\d+)>>', res)
    if not m or m.group(1) != m.group(2) or (rc == 0 and m.group(3) != m.group(4)):
        raise Trouble("TLC did not read the calls to their end:\n" + res[-3000:])
    for b in re.finditer(r'<<"BAD", (\d+), ', res):
        c = calls[int(b.group(1)) - 1]
        e = json.loads(c)
        rep.violation("-".join([e["name"] or "empty", e["sk"], e["st"], e["ok"], e["ot"]]), c, dict(call=e, key="name, symbol kind and type, target kind and type"))
    states, distinct = tlc_stats(res)
    rep.add(states=distinct, transitions=states, traces_validated_against_impl=len(calls), cases_of_the_specification=int(m.group(3)),
            cases_covered=int(m.group(4)), exhaustive=True)
    for c in calls[:: max(1, len(calls) // 4)]:
        rep.sample(json.loads(c))
    rep.assume = ["33 types stand for all types: every clause of Go's assignability rule except type parameters is represented",
                  "plugin.Open/Plugin.Lookup of the standard library are replaced by a stand-in with the same symbol values"]
    return rep
