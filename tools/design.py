"""The design-level specification (spec/HotswapDesign.tla): configurations, exhaustive checking, flaws built in, and the
histories it explores as scenarios for the real code."""
import json, os, re, sys, tempfile
from common import *
from scen import Sc, field, golower

D = 15000


def config(id, populate, init, changes, ops=("load", "reload", "reloadx"), ticks=(), maxcalls=3, maxfs=1, maxinv=0, callers=("a",),
           turns=True, held=False, opsx=(), statics=(), **opts):
    s = Sc("design-" + id, mode="static" if statics else "dyn", gated=not turns, gateTimers=held, **opts)
    bl = populate(s)
    for k, b in statics:
        s.static(k, bl[b])
    ops = [dict(k=k, cfg="ok", x="ok") for k in ops] + [dict(k=k, cfg=c, x=x) for k, c, x in opsx]
    names = {b["n"] for b in s.blobs} | {f for f, _ in init} | {f for f, _ in changes}
    c = dict(hdr=s.json()["hdr"], blobs=[dict(fault=b["fault"], open=b["open"]) for b in s.blobs], key={n: golower(n) for n in names},
             init=[dict(f=f, b=bl[b] if b in bl else b) for f, b in init], changes=[dict(f=f, b=bl[b] if b in bl else b) for f, b in changes],
             ops=ops, ticks=list(ticks), maxcalls=maxcalls, maxfs=maxfs, maxinv=maxinv, callers=list(callers), turns=turns, held=held,
             mut="none")
    return id, s, c


def pair(s):
    """a plugin and one that imports it, two versions each, and versions that fail"""
    return dict(low1=s.blob("low", lf=["lf"], lt=["lt"]), low2=s.blob("low", lf=["lf", "lg"]),
                top1=s.blob("top", imps=[("Low", "ptr")], lf=["tf"]), top2=s.blob("top", imps=[("Low", "any")], lf=["tf"], fault={"onfree": "panic"}),
                topE=s.blob("top", imps=[("Low", "iface")], fault={"oninit": "err"}),
                topP=s.blob("top", imps=[("Low", "iface")], fault={"imp": "panic"}),
                topC=s.blob("top", lf=["lf"]), topM=s.blob("top", miss=["OnInit", "Import"]))


def mixed(s):
    """a non-reloadable plugin below, another one on top; reloadable variants"""
    return dict(base1=s.blob("base", rel=False, exp="val"), base2=s.blob("base", rel=True), user1=s.blob("user", rel=False, imps=[("Base", "any")]),
                user2=s.blob("user", rel=True, imps=[("Base", "iface")], fault={"inv": "panic"}), user3=s.blob("user", rel=True, imps=[("Base", "ptr")]))


def cyc(s):
    return dict(a0=s.blob("aa"), aB=s.blob("aa", imps=[("Bb", "any")]), b0=s.blob("bb", exp="nil"), bA=s.blob("bb", imps=[("Aa", "any")]),
                bC=s.blob("bb", imps=[("Cc", "any")]), c0=s.blob("cc"), cA=s.blob("cc", imps=[("Aa", "any"), ("Bb", "skip")]))


def single(s):
    return dict(p1=s.blob("pp", lf=["f"]), p2=s.blob("pp", lf=["f"]), pE=s.blob("pp", fault={"onload": "err"}), q1=s.blob("qq", imps=[("Pp", "any")]))


def configs():
    """The configurations; each is explored exhaustively."""
    r = []
    a = r.append
    low = [("low", "low1"), ("top", "top1")]
    a(config("pair", pair, low, [("low", "low2"), ("top", "top2"), ("top", "topE"), ("low", -9)], ops=("load", "reloadx"), opsx=[("reloadx", "ok", "err")],
             ticks=(D,), maxcalls=3, maxfs=1, delay=0, cb=True))
    a(config("faults", pair, low, [("low", "low2"), ("top", "topE"), ("top", "topP"), ("top", "topC"), ("top", "topM"), ("top", -1), ("top", "top2")],
             ops=("reload",), opsx=[("reload", "panic", "ok")], ticks=(D,), maxcalls=3, maxfs=2, delay=0, cb=True, ext=True))
    a(config("mixed", mixed, [("base", "base1"), ("user", "user1")], [("base", "base2"), ("user", "user2"), ("user", "user3"), ("base", -9), ("user", "user1")],
             ops=("reload",), maxcalls=4, maxfs=2, delay=0, ext=True, maxinv=0))
    a(config("cyc", cyc, [("aa", "aB"), ("bb", "bC"), ("cc", "c0")], [("aa", "a0"), ("bb", "b0"), ("bb", "bA"), ("cc", "cA"), ("cc", "c0"), ("AA", "a0"), ("AA", -9)],
             ops=("reload",), maxcalls=3, maxfs=2, delay=0))
    a(config("turns", single, [("pp", "p1")], [("pp", "p2"), ("pp", "p1")], ops=("reload",), ticks=(1, D - 1, D + 1), maxcalls=4, maxfs=1, delay=3000))
    a(config("inter", single, [("pp", "p1")], [("pp", "p2"), ("pp", "pE")], ops=("reloadx",), opsx=[("reloadx", "ok", "err")], maxcalls=3, maxfs=1,
             callers=("a", "b"), turns=False, delay=0, cb=True))
    a(config("late", single, [("pp", "p1"), ("qq", "q1")], [("pp", "p2")], ops=("reload",), ticks=(D,), maxcalls=3, maxfs=1,
             callers=("a", "b"), turns=False, held=True, delay=0))
    return r + static()


def static():
    """Static linking: the plugins are given once and for all, so each population is a configuration of its own."""
    r = []
    stat = dict(ticks=(300001,), maxcalls=3, maxfs=0, opsx=[("load", "err", "ok"), ("load", "panic", "ok")], cb=True, ext=True)
    for id, ops, st, kw in (
            ("st-good", ("load", "reload"), [("low", "low1"), ("top", "top2")], {}), ("st-oninit", ("load", "reloadx"), [("low", "low1"), ("top", "topE")], {}),
            ("st-import", ("load",), [("low", "low1"), ("top", "topP")], {}), ("st-clash", ("load",), [("low", "low1"), ("top", "topC")], {}),
            ("st-miss", ("load", "reload"), [("low", "low1"), ("top", "topM")], {}), ("st-same", ("load",), [("low", "low1"), ("LOW", "low2")], {}),
            ("st-unknown", ("load",), [("top", "top1")], {}), ("st-wl", ("load",), [("low", "low1"), ("top", "topM")], dict(wl=["low"])),
            ("st-wlx", ("load",), [("low", "low1"), ("top", "top1")], dict(wl=["low", "Top"]))):
        r.append(config(id, (lambda s: dict(pair(s), low2=s.blob("LOW"))) if id == "st-same" else pair, [], [], ops=ops, statics=st, **{**stat, **kw}))
    # two clients load at once
    r.append(config("st-two", pair, [], [], ops=("load", "reload"), statics=[("low", "low1"), ("top", "topE")], callers=("a", "b"), turns=False, maxcalls=3,
                    maxfs=0, delay=0, cb=True))
    return r


def start(c, mut="none", workers=1, sim=0, seed=1, **kw):
    """Explores the configuration exhaustively, or (sim) makes that many random histories."""
    d = tempfile.mkdtemp(prefix="design-", dir=scratch())
    with open(os.path.join(d, "c.json"), "w", encoding="utf-8") as f:
        json.dump(dict(c, mut=mut, emit=sim > 0), f, ensure_ascii=False)
    args = ["-simulate", f"num={sim}", "-depth", "400", "-seed", str(seed)] if sim else []
    return tlc("HotswapDesign.tla", "HotswapDesign.cfg", env=dict(DESIGN=os.path.join(d, "c.json")), workers=workers, args=args, **kw)


def result(p):
    """-> (held, states generated, distinct, histories, violated properties, output)"""
    out = tlc_wait(p)
    ok = "Model checking completed. No error has been found." in out
    hist = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"SCEN", "((?:[^"\\]|\\.)*)">>', out)]
    bad = sorted(set(re.findall(r"C\d\d", (re.findall(r"viol = \{([^}]*)\}", out) or [""])[-1])))
    g, n = tlc_stats(out)
    return ok, g, n, hist, bad, out


def extra():
    """Small ones, in which certain flaws show."""
    r = []
    r.append(config("leak", single, [("pp", "p1")], [("pp", "p2")], ops=("reload",), opsx=[("reloadx", "ok", "err")], ticks=(D,), maxcalls=4, maxfs=1, delay=0))
    r.append(config("delay", single, [("pp", "p1")], [("pp", "p2")], ops=("reload",), ticks=(D, D + 5000), maxcalls=3, maxfs=1, delay=20000))
    return r


def big():
    """Too large to be explored exhaustively: for random histories only."""
    r = []
    low = [("low", "low1"), ("top", "top1")]
    allp = [("low", "low1"), ("low", "low2"), ("top", "top1"), ("top", "top2"), ("top", "topE"), ("top", "topP"), ("low", -9), ("top", -9), ("top", "topM")]
    r.append(config("pair7", pair, low, allp, opsx=[("reloadx", "ok", "err"), ("reload", "panic", "ok")], ticks=(1, D - 1, D, D + 1001), maxcalls=7, maxfs=2,
                    maxinv=2, delay=0, cb=True, ext=True))
    r.append(config("mixed6", mixed, [("base", "base1"), ("user", "user1")], [("base", "base1"), ("base", "base2"), ("user", "user1"), ("user", "user2"),
                    ("user", "user3"), ("base", -9)], ticks=(D - 1, 20000), maxcalls=6, maxfs=2, maxinv=2, delay=20000, ext=True))
    r.append(config("inter3", pair, low, allp[:6], opsx=[("reloadx", "ok", "err"), ("reload", "err", "ok")], ticks=(1, D), maxcalls=6, maxfs=2, maxinv=1,
                    callers=("a", "b", "c"), turns=False, delay=0, cb=True))
    r.append(config("late3", pair, low, allp[:4], ticks=(D - 1, D), maxcalls=6, maxfs=2, maxinv=1, callers=("a", "b"), turns=False, held=True, delay=0, ext=True))
    r.append(config("wl", pair, low, allp, ops=("load", "reload"), ticks=(D,), maxcalls=5, maxfs=3, delay=0, wl=["top", "low"]))
    return r


def scenario(s, c, hist, n):
    x = Sc(f"{s.id}-{n}", mode=s.mode, **s.opts)
    x.blobs, x.statics = s.blobs, s.statics
    for f in c["init"]:
        x.put(f["f"], f["b"])
    x.steps += hist
    if not c["turns"]:
        x.step("finall")
    for _ in range(6 if c["held"] else 0):
        x.step("trel")
    x.tick(max(D, s.opts["delay"] or 0) + 1001)
    for _ in range(12 if c["held"] else 0):
        x.step("trel")
    x.inv(0, True)
    return x


class Histories:
    """Random histories of the design, made in the background: n of every configuration."""

    def __init__(self, n, seed):
        self.jobs = [(s, c, start(c, sim=n, seed=f"{seed}{i}")) for i, (id, s, c) in enumerate(configs() + extra() + big())]

    def scenarios(self):
        out, seen, states = [], set(), 0
        for s, c, p in self.jobs:
            ok, g, n, hist, bad, txt = result(p)
            if "Error:" in txt or not hist:
                raise Trouble("the design does not hold in simulation:\n" + txt[-3000:])
            for h in hist:
                k = s.id + json.dumps(h)
                if k not in seen:
                    seen.add(k)
                    out.append(scenario(s, c, h, len(seen)))
        return out


# the configurations that the check of a property explores exhaustively (quick)
OF = {"C01": ["leak", "inter"], "C02": ["inter"], "C03": ["late"], "C04": ["leak"], "C05": ["delay", "late"], "C06": ["inter", "cyc"], "C07": ["pair"],
      "C08": ["pair"], "C09": ["cyc"], "C10": ["mixed"], "C11": ["cyc"], "C12": ["pair"], "C13": ["delay"], "C14": ["inter", "late"], "C15": ["inter"],
      "C16": ["leak"], "C17": ["st-good", "st-same", "st-two"], "C19": ["mixed"], "C20": ["cyc"]}


def explore(prop, tier):
    """Starts the exhaustive explorations of a property's check."""
    cs = {id: c for id, s, c in configs() + extra()}
    ids = list(cs) if tier == "thorough" else OF.get(prop, [])
    return [(i, start(cs[i], workers=2)) for i in ids]


def explored(jobs):
    """-> {configuration: [states, transitions]}"""
    r = {}
    for id, p in jobs:
        ok, g, n, h, bad, out = result(p)
        if not ok:
            raise Trouble(f"the design does not hold in configuration {id}:\n" + out[-3000:])
        r[id] = dict(states=n, transitions=g)
    return r


# flaws that can be built into the design, and a configuration in which each shows
FLAWS = {"no-mutex": "inter", "busy-refused": "inter", "names-clash-unnoticed": "cyc", "non-reloadable-reloaded": "mixed", "unchanged-reloaded": "pair", "changed-kept": "pair",
         "kept-not-counted": "turns", "failure-leaks": "faults", "failure-frees-kept": "pair", "failure-frees-new-only": "leak",
         "broken-accepted": "faults", "non-reloadable-on-reloadable": "mixed", "order-reversed": "pair", "cycles-unnoticed": "cyc",
         "rebuilt-unnoticed": "pair", "onload-error-ignored": "inter", "clash-unnoticed": "faults", "published-before-oninit": "pair",
         "published-before-callbacks": "pair", "callback-error-ignored": "pair", "delay-ignored": "delay", "no-least-delay": "turns",
         "never-retired": "turns", "counter-counts-failures": "pair", "counter-moves-early": "pair", "retirement-ignores-counts": "pair", "statics-unchecked": "st-same",
         "static-reloads": "st-good"}


def flaws(workers=4, only=None):
    cs = {id: c for id, s, c in configs() + extra()}
    r = {}
    for mut, id in FLAWS.items():
        if only and mut not in only:
            continue
        ok, g, n, h, bad, out = result(start(cs[id], mut=mut, workers=workers))
        r[mut] = dict(config=id, found=not ok and "is violated" in out, properties=bad, states=n)
        if not r[mut]["found"]:
            r[mut]["out"] = out[-1500:]
    return r


if __name__ == "__main__":
    J = int(os.environ.get("J", "4"))
    if "-m" in sys.argv:
        for k, v in flaws(J, sys.argv[sys.argv.index("-m") + 1:]).items():
            print(k, v, flush=True)
        sys.exit(0)
    for id, s, c in configs() + extra():
        if len(sys.argv) > 1 and id not in sys.argv[1:]:
            continue
        t = time.time()
        ok, g, n, h, bad, out = result(start(c, workers=J))
        print(id, "held" if ok else "FAILED", g, n, bad, round(time.time() - t, 1), flush=True)
        if not ok:
            print(out[-6000:])
            break
