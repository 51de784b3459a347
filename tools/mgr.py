"""Engine for the plugin manager (C01-C17, C19, C20): scenarios -> harness -> recorded traces -> TLC on HotswapTrace."""
import json, os, re, subprocess, sys, threading, time
from common import *
import design, scen

# how many random scenarios of which suite a property gets (quick); the fixed suites are always run in full
BASE = dict(hist=30, deps=10, retry=10, select=20, vault=15, refs=15, conc=15, par=6, static=30)
FOCUS = {
    "C01": dict(retry=60, hist=40, conc=20), "C02": dict(conc=60, par=25, hist=40), "C03": dict(refs=60, hist=40, conc=30),
    "C04": dict(refs=60, hist=30, retry=30), "C05": dict(refs=60, conc=30), "C06": dict(hist=80, conc=30),
    "C07": dict(deps=60, hist=30), "C08": dict(deps=50, hist=60), "C09": dict(deps=80), "C10": dict(hist=60, retry=50),
    "C11": dict(select=120), "C12": dict(vault=100), "C13": dict(hist=60, refs=40), "C14": dict(conc=80, par=40),
    "C15": dict(hist=60, conc=40), "C16": dict(retry=60, hist=60), "C17": dict(static=300), "C19": dict(hist=60, retry=40, many=4),
    "C20": dict(hist=40, static=60),
}
RACE = ("C02", "C03", "C14")
REAL = ("C03", "C08", "C10", "C12", "C19")
THOROUGH = 12    # times as many
MAXHANG = 3


def build(tag="h", race=False):
    d = sub("build")
    env = goenv()
    ov = os.path.join(d, "ov.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {env["GOROOT"] + "/src/plugin/plugin_dlopen.go": os.path.join(VERIF, "harness/overlay/plugin_dlopen.go.txt")}}, f)
    exe = os.path.join(d, tag + ".test")
    mod = os.path.join(d, "go.mod")
    src = open(os.path.join(VERIF, "harness/go.mod")).read()
    with open(mod, "w") as f:
        f.write(src.replace("=> /repo", "=> " + REPO))
    with open(os.path.join(d, "go.sum"), "w") as f:
        f.write(open(os.path.join(VERIF, "harness/go.sum")).read())
    rc, out = run(["go", "test", "-overlay", ov, "-modfile", mod, *(["-race"] if race else []), "-c", "-o", exe, "."],
                  cwd=os.path.join(VERIF, "harness"), env=env, timeout=700)
    if rc != 0 or not os.path.exists(exe):
        raise Trouble("the harness does not build:\n" + out[-4000:])
    return exe


def by_hotswap(txt):
    """Does hotswap's own code make one of the two accesses that a report of the race detector names?"""
    for part in re.split(r"\n\n", txt[txt.index("DATA RACE"):]):
        if not re.search(r"(?m)^(Read|Write|Previous (read|write)|.*(read|write)) at 0x", part.replace("WARNING: ", ""), re.I):
            continue
        for f in re.findall(r"(?m)^  (\S+)\(", part):
            if f.startswith("github.com/edwingeng/hotswap"):
                return True
            if f.startswith("verif/"):
                break
    return False


class Shard(threading.Thread):
    """Runs the harness over scenarios (a crash or hang ends a process; the next one continues) and leaves traces."""

    def __init__(self, exe, no, scens, limit=12, env=None, one=False):
        super().__init__()
        self.env, self.one = env or {}, one     # one: a process for each scenario
        self.exe, self.no, self.scens, self.limit = exe, no, scens, limit
        self.dir = sub(f"shard{no}")
        self.trouble, self.hangs, self.crashes, self.races = None, 0, 0, 0

    def run(self):
        try:
            self.work()
        except Exception as e:
            self.trouble = repr(e)

    def work(self):
        inp, out = os.path.join(self.dir, "in.jsonl"), os.path.join(self.dir, "out.jsonl")
        self.out = out
        with open(inp, "w", encoding="utf-8") as f:
            for s in self.scens:
                f.write(json.dumps(s, ensure_ascii=False) + "\n")
        open(out, "w").close()
        start = 0
        while start < len(self.scens):
            tmp = os.path.join(self.dir, f"tmp{start}")   # a process that died may leave something behind
            os.makedirs(tmp)
            env = goenv(HS_SCEN=inp, HS_OUT=out, HS_FROM=start, HS_TMP=tmp, HS_LIMIT=self.limit, GOTRACEBACK="all", **self.env,
                        GORACE="halt_on_error=1 exitcode=66")
            p = subprocess.Popen([self.exe, "-test.run", "^TestRun$", "-test.timeout", "20m"], cwd=self.dir, env=env, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT)
            txt = p.communicate(timeout=1300)[0].decode("utf-8", "replace")
            if p.returncode == 0:
                if not self.one:
                    return
                start += 1
                continue
            cur = out + ".cur"
            lines = []
            if os.path.exists(cur):
                for l in open(cur, encoding="utf-8"):
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
            if not lines or "n" not in lines[0]:
                self.trouble = "the harness failed: " + txt[:1500] + " ... " + txt[-1500:]
                return
            n, evs = lines[0]["n"], lines[1:]
            sc = self.scens[n]
            if p.returncode == 3:
                self.hangs += 1
            elif p.returncode == 66 and "DATA RACE" in txt:
                if by_hotswap(txt):
                    self.races += 1
                    evs.append(dict(e="race", g="root", c=0, cur=-1, t=-1))
            elif "HARNESS:" in txt and "panic: HARNESS:" in txt:
                self.trouble = "the harness failed: " + txt[:1500] + " ... " + txt[-1500:]
                return
            elif "deadlock:" in txt and "bubble" in txt:
                self.hangs += 1
                evs.append(dict(e="hung", **{"in": "call"}, g="root", c=0, cur=-1, t=-1))
            else:
                self.crashes += 1
                g = "timer" if "invokeEveryOnFree" in txt.split("goroutine")[1 if "goroutine" in txt else 0] else "root"
                evs.append(dict(e="crash", g=g, c=0, cur=-1, t=-1))
            with open(out, "a", encoding="utf-8") as f:
                f.write(json.dumps(dict(id=sc["id"], n=n, hdr=sc["hdr"], ev=evs, died=txt[-3000:]), ensure_ascii=False) + "\n")
            start = n + 1
            if self.hangs >= MAXHANG:
                return


def shard(scens, n):
    """Round robin by decreasing weight."""
    order = sorted(range(len(scens)), key=lambda i: -len(scens[i]["steps"]))
    r = [[] for _ in range(n)]
    for x, i in enumerate(order):
        r[x % n].append(scens[i])
    return [x for x in r if x]


def validate(outs):
    """Starts TLC on each file of traces."""
    return [tlc("HotswapTrace.tla", "HotswapTrace.cfg", env=dict(TRACE=o), heap="3g") for o in outs]


def collect(procs, outs):
    """-> list of (trace, [(event, props)]), events consumed"""
    r, events = [], 0
    for p, o in zip(procs, outs):
        txt = tlc_wait(p)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+), (\d+)>>', txt)
        if not m or m.group(1) != m.group(2):
            raise Trouble("TLC did not read the traces to their end:\n" + txt[-3000:])
        events += int(m.group(1))
        bad = {}
        for b in re.finditer(r'<<"BAD", (\d+), (\d+), \{([^}]*)\}>>', txt):
            bad.setdefault(int(b.group(1)), []).append((int(b.group(2)), re.findall(r"C\d\d", b.group(3))))
        for l in open(o, encoding="utf-8"):
            t = json.loads(l)
            r.append((t, bad.get(t["n"], [])))
    return r, events


def scenarios(prop):
    k = THOROUGH if TIER == "thorough" else 1
    want = dict(BASE)
    for nm, n in FOCUS.get(prop, {}).items():
        want[nm] = max(want.get(nm, 0), n)
    out = []
    for nm in scen.FIXED:
        out += scen.suite(nm, SEED)
    for nm, n in want.items():
        out += scen.suite(nm, f"{prop}-{SEED}" if k > 1 else SEED, n * k)
    return [s.json() for s in out]


def go(rep, scens, exe, tagged, limit=12, env=None, one=False):
    ths = [Shard(exe, f"{tagged}{i}", s, limit, env, one) for i, s in enumerate(shard(scens, CPU))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for t in ths:
        if t.trouble:
            raise Trouble(t.trouble)
    outs = [t.out for t in ths]
    res, events = collect(validate(outs), outs)
    rep.add(traces_validated_against_impl=len(res), states=events + 1, transitions=events)
    byid = {s["id"]: s for s in scens}
    for t, bad in res:
        for ev, props in bad:
            if rep.prop in props:
                e = t["ev"][ev - 1] if ev <= len(t["ev"]) else {}
                rep.violation(t["id"], f"scenario {t['id']}, event {ev}: {json.dumps(e, ensure_ascii=False)[:300]}",
                              dict(property=rep.prop, scenario=byid[t["id"]], trace=t, event=ev, bad=bad))
                break
    return res, dict(hangs=sum(t.hangs for t in ths), crashes=sum(t.crashes for t in ths), races=sum(t.races for t in ths))


def check(prop):
    import e2e
    rep = Report(prop)
    hists = design.Histories(25 if TIER != "thorough" else 400, SEED)
    exe = build()
    scens = scenarios(prop) + [s.json() for s in hists.scenarios()]
    jobs = design.explore(prop, TIER)
    res, c = go(rep, scens, exe, "s")
    if prop in RACE:
        # the same scenarios of concurrent calls again, watched by the race detector: an action of the specification is
        # atomic, so the code has to synchronise what it does in it
        k = 15 if TIER != "thorough" else 150
        more = [s.json() for nm in ("par", "conc", "refs") for s in scen.suite(nm, f"race-{prop}-{SEED}", k)]
        r2, c2 = go(rep, more, build("race", race=True), "r", 60, dict(HS_SILENT=2))
        scens, res, c = scens + more, res + r2, {k: c[k] + c2[k] for k in c}
    if prop in REAL or TIER == "thorough":
        # with plugins that the real tool builds and the real runtime opens
        pool, more, (r2, c2) = e2e.go(rep, SEED, 24 if TIER != "thorough" else 300)
        rep.add(real_plugins=dict(versions_built=len(pool.no) if not pool.failed else 0, scenarios=len(more), failed_builds=[f[:2] for f in pool.failed]))
        scens, res, c = scens + more, res + r2, {k: c[k] + c2.get(k, 0) for k in c}
    if prop == "C17" or TIER == "thorough":
        st, more, (r2, c2) = e2e.gostatic(rep, SEED, 80 if TIER != "thorough" else 500)
        rep.add(really_linked_plugins=dict(plugins=len(st.no) if not st.failed else 0, scenarios=len(more), failed_builds=[f[:2] for f in st.failed]))
        scens, res, c = scens + more, res + r2, {k: c[k] + c2.get(k, 0) for k in c}
    kinds = {}
    for t, _ in res:
        for e in t["ev"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    rep.add(events_by_kind=kinds, scenarios=len(scens), **c)
    dz = design.explored(jobs)
    rep.add(design_configurations=dz, states=sum(x["states"] for x in dz.values()), transitions=sum(x["transitions"] for x in dz.values()))
    if TIER == "thorough":
        fl = design.flaws(workers=4)
        rep.add(design_flaws={k: v["properties"] or ["OneAtATime"] for k, v in fl.items()})
        if not all(v["found"] for v in fl.values()):
            raise Trouble("a flaw built into the design goes unnoticed: " + str([k for k, v in fl.items() if not v["found"]]))
    for t, _ in res[:: max(1, len(res) // 3)][:3]:
        rep.sample(dict(scenario=t["id"], first_events=[{k: v for k, v in e.items() if k not in ("fl", "find")} for e in t["ev"][:12]]))
    rep.assume = ["plugin.Open is replaced by a stand-in that yields scripted symbols (see DESIGN.md); time is virtual (testing/synctest)",
                  "properties are decided on the recorded executions of the scenarios, by TLC against spec/HotswapCore.tla"]
    return rep
