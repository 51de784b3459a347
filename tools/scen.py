"""Scenarios for the plugin manager: what the harness is told to do.

A scenario is a population of blobs (contents that plugin files can have, i.e. scripted plugin behaviour),
options, and a list of steps. Suites below generate them: exhaustively where the space is small,
at random (seeded) otherwise. The oracle is not here: it is spec/HotswapCore.tla.
"""
import itertools, random

STAGES = ["rel", "exp", "imp", "onload", "oninit"]
FUNCS = ["OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable", "HotswapLiveFuncs", "HotswapLiveTypes"]


def golower(s):
    """strings.ToLower of Go: rune by rune"""
    return "".join("i" if c == "\u0130" else c.lower() for c in s)


class Sc:
    def __init__(self, id, mode="dyn", **opts):
        self.id, self.mode = id, mode
        self.opts = dict(delay=None, wl=[], cb=False, ext=False, gated=False, gateTimers=False, once=False)
        self.opts.update(opts)
        self.blobs, self.steps, self.statics = [], [], []

    def blob(self, n, rel=True, exp="obj", impk=None, imps=(), lf=(), lt=(), lfk="ok", ltk="ok", miss=(), mist=(),
             mistk="sig", fvar=(), fault=None, open="ok", shape=""):
        imps = [dict(f=x[0], d=golower(x[0]), k=x[1]) for x in imps]
        if impk is None:
            impk = "struct" if imps else "nil"
        b = dict(id=len(self.blobs) + 1, n=n, rel=rel, exp=exp, impk=impk, imps=imps, lf=list(lf), lt=list(lt), lfk=lfk,
                 ltk=ltk, miss=list(miss), mist=list(mist), mistk=mistk, fvar=list(fvar), fault=dict(fault or {}), open=open,
                 shape=shape)
        self.blobs.append(b)
        return b["id"]

    def step(self, op, **kw):
        self.steps.append(dict(op=op, **kw))
        return self

    def put(self, f, b, **kw): return self.step("put", f=f if "." in f else f + ".so", b=b, **kw)
    def rm(self, f): return self.step("rm", f=f if "." in f else f + ".so")
    def call(self, k="load", cl="a", cfg="ok", x="ok"): return self.step("call", cl=cl, k=k, cfg=cfg, x=x)
    def tick(self, ms): return self.step("tick", ms=ms)
    def inv(self, m=0, fwd=True): return self.step("inv", m=m, fwd=fwd)
    def static(self, k, b, n=None): self.statics.append(dict(k=k, n=n or k, b=b))

    def json(self):
        h = dict(mode=self.mode, delay=-1 if self.opts["delay"] is None else self.opts["delay"], wl=self.opts["wl"],
                 cb=self.opts["cb"], ext=self.opts["ext"], real=self.opts.get("real", False),
                 bl=[dict(n=b["n"], k=golower(b["n"]), rel=b["rel"], exp=b["exp"], impk=b["impk"], imps=b["imps"], lf=b["lf"],
                          lt=b["lt"], lfk=b["lfk"], ltk=b["ltk"], miss=b["miss"], mist=b["mist"]) for b in self.blobs],
                 st=[dict(k=s["k"], kl=golower(s["k"]), n=s["n"], key=golower(s["n"]), b=s["b"]) for s in self.statics])
        return dict(id=self.id, mode=self.mode, opts=self.opts, statics=self.statics, blobs=self.blobs, steps=self.steps, hdr=h)


NAMES = ["alpha", "Beta", "gamma", "Delta", "eps", "zeta"]
FIELD = {n: n[0].upper() + n[1:] for n in NAMES}


def field(n):
    return n[0].upper() + n[1:]


# ---------------------------------------------------------------------------------------------------------------
# random histories

def rand_blob(s, rng, n, names, p):
    """p: profile, probabilities"""
    imps = []
    later = names[names.index(n) + 1:]
    cands = later if rng.random() > p.get("cyc", 0.08) else [x for x in names]
    for d in cands:
        if rng.random() < p.get("dep", 0.35):
            k = rng.choices(["any", "iface", "ptr", "bad", "int", "conv", "val", "skip", "unexp", "skipbad", "anon"],
                            [30, 30, 30, p.get("odd", 1), p.get("odd", 1), p.get("odd", 1), p.get("odd", 1), 4, 3, 2, p.get("odd", 1)])[0]
            f = field(d)
            if k == "unexp":
                f = golower(d)
            if k == "anon":
                if f not in ("Alpha", "Beta", "Gamma", "Delta"):
                    continue
            elif rng.random() < 0.2:
                f = f[0] + f[1:].upper() if k != "unexp" else f
            imps.append((f, k))
    if rng.random() < p.get("unknown", 0.03):
        imps.append(("Nosuch", rng.choice(["any", "skip"])))
    rng.shuffle(imps)
    fault = {}
    if rng.random() < p.get("fault", 0.1):
        st = rng.choice(STAGES + ["onfree", "inv"])
        fault[st] = "panic" if st in ("rel", "exp", "imp", "onfree") else rng.choice(["err", "panic"])
    if rng.random() < 0.15:
        fault["inv"] = rng.choice(["err", "panic"])
    if rng.random() < p.get("freepanic", 0.12):
        fault["onfree"] = "panic"
    ver = sum(1 for b in s.blobs if b["n"] == n)
    lf = [f"{n}_f"] if rng.random() < 0.6 else []
    lt = [f"{n}_t"] if rng.random() < 0.6 else []
    if rng.random() < p.get("clash", 0.03):
        lf.append("common")
    if rng.random() < p.get("clash", 0.03):
        lt.append("common")
    miss, mist, mk = [], [], "sig"
    if rng.random() < p.get("broken", 0.03):
        if rng.random() < 0.6:
            miss = rng.sample(FUNCS, rng.choice([1, 1, 2, 9]))
        else:
            mist = rng.sample(FUNCS, 1)
            mk = rng.choice(["sig", "var", "ptrsig"])
    impk = None
    if not imps:
        impk = rng.choices(["nil", "tnil", "struct", "nonptr", "ptrint"], [60, 10, 20, p.get("odd", 1), p.get("odd", 1)])[0]
    return s.blob(n, rel=rng.random() > p.get("norel", 0.25),
                  exp=rng.choices(["obj", "val", "nil", "tnil", "zero", "tnilm"], [70, 10, 10, 4, 4, 2])[0], impk=impk, imps=imps, lf=lf, lt=lt,
                  lfk=rng.choices(["ok", "nil", "panic"], [100, p.get("odd", 1), p.get("odd", 1)])[0],
                  ltk=rng.choices(["ok", "nil", "panic"], [100, p.get("odd", 1), p.get("odd", 1)])[0],
                  miss=miss, mist=mist, mistk=mk, fvar=rng.sample(FUNCS, rng.choice([0, 0, 0, 1, 3, 9])), fault=fault,
                  open=rng.choices(["ok", "err", "panic"], [100, p.get("odd", 1), p.get("odd", 0.5)])[0])


def hist(rng, idx, p=None):
    """A history of loads by one client: plugins come, change, go and fail; time passes in between."""
    p = dict(p or {})
    delay = rng.choice([None, 0, 1000, 15000, 20000, 60000, 600000, -5000])
    if delay == -5000:
        delay = 3000
    s = Sc(f"hist-{idx}", delay=delay, cb=rng.random() < 0.6, ext=rng.random() < 0.5)
    names = rng.sample(NAMES, rng.randint(1, 5))
    if rng.random() < 0.15:
        s.opts["wl"] = rng.sample(names, rng.randint(1, len(names)))
    p.setdefault("fault", rng.choice([0, 0, 0.1, 0.3]))
    p.setdefault("norel", rng.choice([0, 0.1, 0.4]))
    p.setdefault("cyc", rng.choice([0, 0, 0.1]))
    p.setdefault("odd", rng.choice([0, 0, 1, 2]))
    p.setdefault("broken", rng.choice([0, 0, 0.05]))
    p.setdefault("clash", rng.choice([0, 0, 0.1]))
    D = max(15000, 300000 if delay is None else delay)
    present = {}
    # non-reloadable plugins must not rest on reloadable ones, so let most names have a fixed nature
    nature = {n: rng.random() > p["norel"] for n in names}
    def newblob(n):
        q = dict(p)
        b = rand_blob(s, rng, n, names, q)
        bl = s.blobs[b - 1]
        if rng.random() < 0.9:
            bl["rel"] = nature[n]
        if not bl["rel"] and rng.random() < 0.85:
            bl["imps"] = [x for x in bl["imps"] if x["d"] in [m.lower() for m in names if not nature[m]] or x["k"] in ("skip", "skipbad", "unexp")]
        return b
    def put(n):
        b = newblob(n)
        s.put(n, b)
        present[n] = b
    for n in names:
        if rng.random() < 0.85:
            put(n)
    ncalls = rng.randint(2, 7)
    for c in range(ncalls):
        k = rng.choice(["load", "reload", "reloadx"]) if c else "load"
        cfg = rng.choices(["ok", "err", "panic"], [90, 5, 5])[0]
        x = rng.choices(["ok", "err", "panic"], [85, 8, 7])[0]
        s.call(k, cfg=cfg, x=x)
        if rng.random() < 0.3:
            s.inv(rng.choice([0, 0, 1, 2, 3]), rng.random() < 0.5)
        for _ in range(rng.choice([0, 1, 1, 2])):
            s.tick(rng.choice([1, 700, 1000, 5000, 14999, 15000, D - 1, D, D + 1001, D // 2, D // 2 + 1]))
        for n in names:
            r = rng.random()
            if r < 0.35:
                put(n)
            elif r < 0.42 and n in present:
                s.rm(n)
                del present[n]
        # heal what failed, so that histories go on
        if rng.random() < 0.6:
            for n in list(present):
                bl = s.blobs[present[n] - 1]
                if any(v != "ok" for st, v in bl["fault"].items() if st in STAGES) or bl["miss"] or bl["mist"] or bl["open"] != "ok" \
                        or bl["lfk"] != "ok" or bl["ltk"] != "ok":
                    put(n)
        if rng.random() < 0.08:
            f = rng.choice(["x.txt", "y.so.bak", "z.SO", "lib.a"])
            s.put(f, -1)
    s.call("reload")
    return s


# ---------------------------------------------------------------------------------------------------------------
# a fault at every point

def faults():
    """One fault at one stage of one plugin, in a first load and in a reload in which others are kept, changed and
    new; then the fault is repaired and the history goes on."""
    out = []
    pts = []
    for st in STAGES:
        for r in (["panic"] if st in ("rel", "exp", "imp") else ["err", "panic"]):
            pts.append(("fault", st, r))
    pts += [("open", "err", ""), ("open", "panic", ""), ("garbage", "", ""), ("link", "", "")]
    pts += [("lfk", "nil", ""), ("lfk", "panic", ""), ("ltk", "nil", ""), ("ltk", "panic", "")]
    pts += [("miss", f, "") for f in FUNCS] + [("mist", f, mk) for f in FUNCS for mk in ("sig", "var", "ptrsig")]
    pts += [("cfg", "", r) for r in ("err", "panic")] + [("x", "", r) for r in ("err", "panic")]
    pts += [("clashf", "", ""), ("clasht", "", ""), ("unknown", "", ""), ("cycle", "", ""), ("assign", "", ""), ("anon", "", ""),
            ("nonptr", "", ""), ("ptrint", "", ""), ("nonrel", "", "")]
    # dependency chain: top -> mid -> low, side
    for kind, a, r in pts:
        for who in ("top", "mid", "low"):
            if kind in ("cfg", "x") and who != "top":
                continue
            for first in (True, False):
                s = Sc(f"fault-{kind}-{a}-{r}-{who}-{'first' if first else 'reload'}", cb=True, ext=True, delay=15000)
                def make(n, v, bad=None, side=False):
                    imps = {"top": [("Mid", "iface")], "mid": [("Low", "ptr")], "low": [], "side": [("Low2", "any")], "low2": []}[n]
                    kw = dict(lf=[f"{n}_f"], lt=[f"{n}_t"], imps=imps)
                    if bad:
                        kind, a, r = bad
                        if kind == "fault": kw["fault"] = {a: r}
                        elif kind == "open": kw["open"] = a
                        elif kind in ("lfk", "ltk"): kw[kind] = a
                        elif kind == "miss": kw["miss"] = [a]
                        elif kind == "mist": kw["mist"], kw["mistk"] = [a], r
                        elif kind == "clashf": kw["lf"] = ["side_f"]
                        elif kind == "clasht": kw["lt"] = ["side_t"]
                        elif kind == "unknown": kw["imps"] = imps + [("Nosuch", "any")]
                        elif kind == "cycle": kw["imps"] = imps + [("Top", "any")]
                        elif kind == "assign": kw["imps"] = imps + [("Side", "bad")]
                        elif kind == "anon": kw["imps"] = imps + [("Alpha", "anon")]
                        elif kind == "nonptr": kw["imps"], kw["impk"] = [], "nonptr"
                        elif kind == "ptrint": kw["imps"], kw["impk"] = [], "ptrint"
                        elif kind == "nonrel": kw["rel"], kw["imps"] = False, [("Side", "any")]
                    return s.blob(n, **kw)
                for n in ("side", "low2"):
                    s.put(n, make(n, 1))
                if not first:
                    for n in ("top", "mid", "low"):
                        s.put(n, make(n, 1))
                    s.call("load")
                    s.tick(1500)
                for n in ("top", "mid", "low"):
                    bad = (kind, a, r) if n == who and kind not in ("cfg", "x") else None
                    if bad and kind == "garbage":
                        s.put(n, -1)
                    elif bad and kind == "link":
                        s.step("link", f=n + ".so")
                    else:
                        s.put(n, make(n, 2, bad))
                s.call("load" if first else "reloadx", cfg=r if kind == "cfg" else "ok", x=r if kind == "x" else "ok")
                if first and kind == "x":
                    s.call("reloadx", x=r)
                s.inv(0, True)
                s.tick(1200)
                # once more without repair (a retry with the same files)
                s.call("reloadx", cfg=r if kind == "cfg" else "ok", x=r if kind == "x" else "ok")
                s.tick(1200)
                if kind not in ("cfg", "x"):
                    s.put(who, make(who, 3))
                s.call("reload")
                s.inv(0, False)
                s.tick(16001)
                s.put("low", make("low", 4)).put("mid", make("mid", 4)).put("top", make("top", 4))
                s.call("reloadx")
                out.append(s)
    return out


# ---------------------------------------------------------------------------------------------------------------
# dependencies

def deps_small():
    """All dependency structures over three plugins (self-dependencies and unknown ones included) with all kept/changed
    splits: load of the structure in which everything is new, then a reload in which a subset changed."""
    out = []
    ns = ["aa", "bb", "cc"]
    # every graph over 3 nodes without self loops (64), plus some with
    edges = [(x, y) for x in ns for y in ns if x != y]
    for m in range(1 << len(edges)):
        es = [e for i, e in enumerate(edges) if m >> i & 1]
        s = Sc(f"graph-{m}", delay=0)
        def put(sub):
            for n in sub:
                s.put(n, s.blob(n, imps=[(field(y), "iface") for x, y in es if x == n], lf=[n + "f"]))
        put(ns)
        s.call("load")
        acyc = not cyclic(ns, es)
        if acyc:
            for k in range(1, 7):
                ch = [n for i, n in enumerate(ns) if k >> i & 1]
                put(ch)
                s.call("reload")
                s.inv(0, k % 2 == 0)
            s.tick(16100)
            for n in ns:
                s.rm(n)
                s.call("reload")
                put([n])
                s.call("reload")
        else:
            # repaired
            for n in ns:
                s.put(n, s.blob(n))
            s.call("load")
        out.append(s)
    for n in ns:
        s = Sc(f"graph-self-{n}")
        for x in ns:
            s.put(x, s.blob(x, imps=[(field(x), "any")] if x == n else []))
        s.call("load")
        out.append(s)
    return out


def cyclic(ns, es):
    left = set(ns)
    while True:
        free = [n for n in left if not any(x == n and y in left for x, y in es)]
        if not free:
            return bool(left)
        left -= set(free)


def deps_kinds():
    """Field kind x exported value x reloadability of both x kept or new dependency."""
    out = []
    for k in ("any", "iface", "ptr", "val", "conv", "bad", "int", "skip", "skipbad", "unexp", "anon", "anonskip"):
        for exp in ("obj", "val", "zero", "nil", "tnil", "tnilm", "tnilf"):
            if exp in ("zero", "tnilm", "tnilf") and k in ("skip", "skipbad", "anonskip"):
                continue
            for r1, r2 in itertools.product((True, False), repeat=2):
                s = Sc(f"kind-{k}-{exp}-{r1}-{r2}")
                f = "Beta" if k != "unexp" else "beta"
                s.put("beta", s.blob("beta", rel=r2, exp=exp))
                s.put("user", s.blob("user", rel=r1, imps=[(f, k), ("Other", "any")]))
                s.put("other", s.blob("other", rel=False, exp="val"))
                s.call("load")
                s.inv()
                # the user changes while what it uses is kept
                s.put("user", s.blob("user", rel=r1, imps=[("Other", "iface"), (f, k)]))
                s.call("reload")
                # what it uses changes too
                s.put("beta", s.blob("beta", rel=r2, exp=exp))
                s.put("user", s.blob("user", rel=r1, imps=[(f, k)]))
                s.call("reload")
                s.put("beta", s.blob("beta", rel=r2, exp=exp))
                s.call("reload")
                s.rm("beta")
                s.call("reload")
                out.append(s)
    # the dependency is missing
    for k in ("any", "iface", "ptr", "int", "skip", "skipbad", "unexp", "anon", "anonskip"):
        s = Sc(f"kind-missing-{k}")
        f = "Beta" if k != "unexp" else "beta"
        s.put("user", s.blob("user", imps=[(f, k)]))
        s.call("load")
        s.put("other", s.blob("other", imps=[("User", "ptr")]))
        s.call("load")
        out.append(s)
    # field names that are not ASCII
    for nm, fld, k in [("ωmega", "ωmega", "unexp"), ("ωmega", "Ωmega", "iface"), ("éclair", "Éclair", "any"), ("éclair", "éclair", "unexp"),
                       ("ზარი", "Ზარი", "ptr"), ("ärger", "ärger", "unexp"), ("ärger", "Ärger", "bad"), ("_x", "_x", "unexp"), ("ža", "Ža", "ptr"),
                       ("日本", "X日本", "any")]:
        s = Sc(f"kind-name-{nm}-{fld}-{k}")
        s.put(nm, s.blob(nm))
        s.put("user", s.blob("user", imps=[(fld, k)]))
        s.call("load")
        out.append(s)
    return out


def deps_rand(rng, idx):
    """Bigger dependency structures, reloadability included, over several reloads."""
    n = rng.randint(4, 9)
    names = [f"{rng.choice('abcdefghij')}{i}" for i in range(n)]
    rng.shuffle(names)
    s = Sc(f"deps-{idx}", delay=15000)
    dens = rng.choice([0.1, 0.25, 0.5, 0.8])
    nonrel = set(names[n - rng.randint(0, n // 2):]) if rng.random() < 0.4 else set()
    es = {x: [y for y in names[i + 1:] if rng.random() < dens and (x not in nonrel or y in nonrel)] for i, x in enumerate(names)}
    def put(x, extra=()):
        ds = [(field(y) if rng.random() < 0.8 else field(y).upper(), rng.choice(["any", "iface", "ptr"])) for y in es[x]] + list(extra)
        rng.shuffle(ds)
        s.put(x, s.blob(x, rel=x not in nonrel, imps=ds, lf=[x + "f"], lt=[x + "t"]))
    for x in names:
        put(x)
    s.call("load")
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        changed = {x for x in names if rng.random() < 0.3}
        if r < 0.6:   # close upwards: a consistent change
            while True:
                more = {x for x in names if any(y in changed for y in es[x])} - changed
                if not more:
                    break
                changed |= more
        back = None
        if r > 0.75:
            i, j = sorted(rng.sample(range(n), 2))
            back = (names[j], names[i])
        for x in sorted(changed):
            put(x, [(field(back[1]), "any")] if back and back[0] == x else ())
        if back and back[0] not in changed:
            put(back[0], [(field(back[1]), "any")])
        s.call("reload")
        s.inv(0, rng.random() < 0.5)
        if rng.random() < 0.5:
            s.tick(rng.choice([3000, 15000, 16000, 31000]))
        if rng.random() < 0.7:   # repair
            for x in names:
                put(x)
            s.call("reload")
    return s


# ---------------------------------------------------------------------------------------------------------------
# keeping

def keep():
    """Kept or not: unchanged/changed x reloadable in the loaded instance x reloadable in the file, for sequences of versions,
    with failed attempts in between."""
    out = []
    for r1, r2, ch in itertools.product((True, False), (True, False), ("same", "changed", "gone", "goneback", "case")):
        for fail in (None, "fresh", "kept"):
            s = Sc(f"keep-{r1}-{r2}-{ch}-{fail}", cb=True, delay=0)
            b1 = s.blob("pp", rel=r1, lf=["x"], lt=["y"])
            s.put("pp", b1)
            s.put("qq", s.blob("qq"))
            s.call("load")
            s.tick(1000)
            if ch == "changed":
                s.put("pp", s.blob("pp", rel=r2, lf=["x2"], lt=["y"]))
            elif ch == "gone":
                s.rm("pp")
            elif ch == "case":
                s.rm("pp")
                s.put("PP", b1)
            if fail:
                bad = s.blob("zz", fault={"oninit": "err"}) if fail == "fresh" else None
                if bad:
                    s.put("zz", bad)
                    s.call("reload")
                    s.rm("zz")
                else:
                    s.call("reloadx", x="err")
                s.tick(1000)
            if ch == "goneback":
                s.rm("pp")
                s.call("reload")
                s.tick(1000)
                s.put("pp", s.blob("pp", rel=r2, lf=["x2"]))
            s.call("reload")
            s.inv()
            s.tick(16000)
            s.put("pp", s.blob("pp", rel=r2, lf=["x3"]))
            s.put("qq", s.blob("qq", imps=[("Pp", "any")]))
            s.call("reload")
            s.tick(16000)
            s.call("reload")
            out.append(s)
    return out


def retry(rng, idx):
    """Failed attempts of all sorts between successful ones: the later load must not notice them."""
    s = Sc(f"retry-{idx}", cb=True, ext=True, delay=rng.choice([0, 20000]))
    ns = ["aa", "bb", "cc"]
    rel = {n: rng.random() < 0.7 for n in ns}
    order = {"aa": ["bb"] if rel["aa"] or not rel["bb"] else [], "bb": ["cc"] if rel["bb"] or not rel["cc"] else [], "cc": []}
    good = {}
    def put(n, **kw):
        b = s.blob(n, rel=rel[n], imps=[(field(d), "iface") for d in order[n]], lf=[n + "_f"], lt=[n + "_t"], **kw)
        s.put(n, b)
        return b
    for n in ns:
        good[n] = put(n)
    s.call("load")
    for _ in range(rng.randint(2, 4)):
        what = rng.choice(["fault", "cb", "dep", "miss"])
        n = rng.choice(ns)
        if rng.random() < 0.6:
            for x in ns:     # everything changes
                good[x] = put(x)
        if what == "cb":
            s.call("reloadx", x=rng.choice(["err", "panic"]))
        else:
            if what == "fault":
                st = rng.choice(STAGES)
                put(n, fault={st: "panic" if st in ("rel", "exp", "imp") or rng.random() < 0.5 else "err"})
            elif what == "miss":
                put(n, miss=rng.sample(FUNCS, 1))
            else:
                s.put(n, s.blob(n, rel=rel[n], imps=[("Nosuch", "any")]))
            for _ in range(rng.choice([1, 1, 2])):
                s.call("reload")
                if rng.random() < 0.5:
                    s.tick(rng.choice([500, 1000, 16001]))
            # back to what was there before the failure (never loaded from another path: same content as the current one)
            good[n] = put(n)
        s.call(rng.choice(["reload", "load"]))
        s.inv(0, rng.random() < 0.5)
        if rng.random() < 0.4:
            s.tick(rng.choice([1000, 15001, 21001]))
    return s


def revert():
    """The file is changed, the load fails, and the file is put back as it was: the loaded instance stays. Also: what a failed
    attempt had opened is loaded after all."""
    out = []
    for st in STAGES + ["cb"]:
        for rel in (True, False):
            for ms in (0, 1500):
                s = Sc(f"revert-{st}-{rel}-{ms}", cb=True, delay=0)
                b1 = s.blob("pp", rel=rel, imps=[("Qq", "any")] if rel else [], lf=["p"])
                b2 = s.blob("qq", lf=["q"])
                s.put("pp", b1).put("qq", b2).call("load").tick(ms)
                bad = s.blob("rr", fault={} if st == "cb" else {st: "panic"})
                b3 = s.blob("pp", rel=True, lf=["p3"])
                s.put("rr", bad).put("pp", b3)
                s.call("reloadx", x="err" if st == "cb" else "ok").tick(ms)
                s.rm("rr").put("pp", b1).call("reload").inv().tick(ms)
                s.put("pp", b3).call("reload").inv().tick(16001)
                s.put("pp", s.blob("pp")).call("reload")
                out.append(s)
    return out


# ---------------------------------------------------------------------------------------------------------------
# selection

def select(rng, idx):
    s = Sc(f"select-{idx}", cb=rng.random() < 0.3)
    pool = ["aa", "Bb", "bB", "AA", "c-c", "d.d", "ee", "Ee", "f f", "gg"]
    if rng.random() < 0.4:
        pool = ["aa", "aa.x", "x.aa", "xaa", "aax", "a", ".aa", "x-aa", "aa.so", "AA.x"]
    names = rng.sample(pool, rng.randint(1, 5))
    if rng.random() < 0.6:
        low = set()
        names = [n for n in names if not (n.lower() in low or low.add(n.lower()))]
    if rng.random() < 0.5:
        s.opts["wl"] = rng.sample(pool if rng.random() < 0.3 else names, 1) if rng.random() < 0.5 else rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < 0.25:
            s.opts["wl"] = s.opts["wl"] + [rng.choice(s.opts["wl"])]
        if rng.random() < 0.15:
            s.opts["wl"] = s.opts["wl"] + ["nosuch"]
    here = set()
    syms = rng.random() < 0.3
    def put(n):
        kw = dict(how="sym") if syms and rng.random() < 0.5 else {}
        s.put(n + ".so", s.blob(n), **kw)
        here.add(n)
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        for n in names:
            if n not in here or rng.random() < 0.3:
                if rng.random() < 0.8:
                    put(n)
        if here and rng.random() < 0.3:
            n = rng.choice(sorted(here))
            s.rm(n + ".so")
            here.discard(n)
        if rng.random() < 0.3:
            s.put(rng.choice(["readme.txt", "x.so.bak", "y.SO", "so", "lib.so.1", "z.go"]), -1)
        if rng.random() < 0.2:
            d = rng.choice(["dir.so", "sub", "aa.d"])
            if not any(x.get("f") == d for x in s.steps):
                s.step("mkdir", f=d)
        if rng.random() < 0.08:
            s.step("link", f="link.so")
        if rng.random() < 0.06:
            s.put("junk.so", -1)
        if rng.random() < 0.1:
            k = rng.choice([1, -1, -2, -3])
            s.step("resetdir", n=k)
            s.call(rng.choice(["load", "reload"]))
            if k == 1:
                s.put("aa.so", s.blob("aa"))
                s.call(rng.choice(["load", "reload"]))
                s.call("reload")
            s.step("resetdir", n=0)
        s.call(rng.choice(["load", "reload", "reloadx"]))
        if rng.random() < 0.3:
            s.tick(1000)
        if rng.random() < 0.3:
            for f in ("link.so", "junk.so"):
                if any(x.get("f") == f for x in s.steps):
                    s.rm(f)
            s.call("reload")
    return s


def select_fixed():
    out = []
    s = Sc("select-empty", cb=True)
    s.call("load").call("reload").call("reloadx", x="err")
    s.put("a.txt", -1).call("reload")
    s.put("aa", s.blob("aa")).call("reload").rm("aa").call("reload").call("load")
    out.append(s)
    for wl in (["aa"], ["aa", "bb"], ["aa", "aa"], ["AA"], ["aa", "nosuch"], ["bb", "cc", "bb"], ["aa.so"], ["dd"]):
        s = Sc("select-wl-" + "-".join(wl), wl=wl)
        for n in ("aa", "bb", "cc"):
            s.put(n, s.blob(n))
        s.step("mkdir", f="dd.so")
        s.call("load")
        s.put("bb", s.blob("bb")).put("aa", s.blob("aa"))
        s.call("reload").rm("bb").call("reload").rm("aa").call("reload")
        out.append(s)
    for pair in (("aa", "AA"), ("xY", "Xy"), ("ärger", "Ärger"), ("İx", "ix")):
        for wl in ([], [pair[0]], list(pair)):
            if pair[0].lower() != pair[1].lower() and pair == ("İx", "ix"):
                pass
            s = Sc(f"select-case-{pair[0]}-{pair[1]}-{len(wl)}", wl=wl)
            for n in pair + ("other",):
                s.put(n, s.blob(n))
            s.call("load")
            s.rm(pair[1]).call("load")
            s.put(pair[1], s.blob(pair[1])).call("reload")
            s.rm(pair[0]).call("reload")
            out.append(s)
    # a whitelisted plugin resting on one that is there but not whitelisted
    s = Sc("select-wl-dep", wl=["aa"])
    s.put("bb", s.blob("bb")).put("aa", s.blob("aa", imps=[("Bb", "any")])).call("load")
    s.put("aa", s.blob("aa")).call("load")
    out.append(s)
    # names that contain one another, and what would be patterns
    ns = ["aa", "aa.x", "x.aa", "xaa", "aax", "aaa", "a", "a.b", ".aa", "aa.so", "aa-1", "1-aa", "b"]
    for wl in [[n] for n in ns] + [["a.b", "aa"], ["a*"], ["*"], ["a?"], [".*"], ["[a-z]*"], ["a", "b", "*"], ["aa", "x.*"], ["./aa"], [" aa"], ["aa "], [""]]:
        s = Sc("select-part-" + "_".join(wl), wl=wl)
        for n in ns:
            s.put(n + ".so", s.blob(n))
        s.call("load").put("aa", s.blob("aa")).put("x.aa.so", s.blob("x.aa")).call("reload").rm("aa").call("reload")
        out.append(s)
    # links to files of other names
    for wl in ([], ["aa"], ["aa", "cc"], ["Other1"]):
        s = Sc("select-sym-" + "-".join(wl), wl=wl, cb=True)
        s.put("aa", s.blob("aa", lf=["f"]), how="sym").put("bb", s.blob("bb", imps=[("Aa", "ptr")]), how="sym").put("cc", s.blob("cc", imps=[("Aa", "any")]))
        s.call("load").inv()
        s.put("aa", s.blob("aa", lf=["f"]), how="sym").call("reload").inv()          # points elsewhere now
        s.put("aa", s.blob("aa", lf=["g"])).put("cc", s.blob("cc"), how="sym").call("reloadx").inv()
        s.rm("bb").rm("cc").call("reload").put("AA", s.blob("AA"), how="sym").call("reload")
        s.rm("aa").call("reload").put("bad", -1, how="sym").call("reload")
        out.append(s)
    # many plugins
    s = Sc("select-many", delay=0)
    for i in range(40):
        s.put(f"p{i:02d}", s.blob(f"p{i:02d}", imps=[(f"P{(i * 7) % 40:02d}", "ptr")] if (i * 7) % 40 > i else [], lf=[f"f{i}"], lt=[f"t{i}"]))
    s.call("load").inv().inv(0, False)
    for i in range(0, 40, 3):
        s.put(f"p{i:02d}", s.blob(f"p{i:02d}", lf=[f"f{i}"]))
    s.call("reload").tick(16001)
    out.append(s)
    return out


# ---------------------------------------------------------------------------------------------------------------
# the live tables

def vaults(rng, idx):
    s = Sc(f"vault-{idx}", ext=rng.random() < 0.5, delay=0, cb=rng.random() < 0.3)
    ns = ["aa", "bb", "cc", "dd"][:rng.randint(2, 4)]
    words = ["f1", "f2", "f3", "f4", "f5", "f6", "f7"]
    p = rng.choice([0.1, 0.2, 0.4])
    def put(n, own):
        pick = lambda: [w for w in (words if rng.random() < 0.3 else [n + "x", n + "y"]) if rng.random() < (p if w in words else 0.6)]
        s.put(n, s.blob(n, lf=pick(), lt=pick(), rel=rng.random() < 0.8, lfk=rng.choices(["ok", "nil", "panic"], [30, 1, 1])[0],
                        ltk=rng.choices(["ok", "nil", "panic"], [30, 1, 1])[0]))
    for n in ns:
        put(n, True)
    s.call("load")
    for _ in range(rng.randint(2, 5)):
        for n in ns:
            if rng.random() < 0.45:
                put(n, False)
            elif rng.random() < 0.1:
                s.rm(n)
        s.call("reload")
        if rng.random() < 0.3:
            s.tick(16001)
    return s


# ---------------------------------------------------------------------------------------------------------------
# time

def timing():
    """Retirements on the edge of their delay, overlapping, with plugins carried over zero to three times, and failures in between."""
    out = []
    for delay in (None, 0, 14999, 15000, 15001, 60000, 86400000):
        D = max(15000, 300000 if delay is None else delay)
        for shape in range(10):
            s = Sc(f"timing-{delay}-{shape}", delay=delay, cb=shape % 2 == 0)
            def put(n, **kw):
                s.put(n, s.blob(n, **kw))
            put("keep")
            put("move", imps=[("Keep", "any")], fault={"onfree": "panic"} if shape in (3, 7) else {})
            put("last", imps=[("Move", "any"), ("Keep", "ptr")])
            s.call("load")
            if shape == 0:
                put("move"); put("last"); s.call("reload").tick(D - 1).tick(1).tick(1001)
            elif shape == 1:   # overlapping retirements
                put("move"); put("last"); s.call("reload").tick(D // 2)
                put("last"); s.call("reload").tick(D - D // 2 - 1).tick(1).tick(1000).tick(D // 2)
            elif shape == 2:   # two reloads at the same instant
                put("last"); s.call("reload")
                put("last"); s.call("reload").tick(D - 1).tick(1001)
            elif shape == 3:   # kept through three managers, then gone
                for i in range(3):
                    put("last"); s.call("reload").tick(D // 3)
                put("move"); put("last"); s.call("reload").tick(D // 3).tick(D // 3 + 1001)
                s.rm("last"); s.rm("move"); s.call("reload").tick(D + 1001)
            elif shape == 4:   # failures neither shorten nor extend
                put("last"); s.call("reload").tick(D // 2)
                s.put("bad", s.blob("bad", fault={"oninit": "err"})); s.call("reload").tick(D - D // 2 - 1)
                s.call("reload").tick(1).tick(1001)
                s.rm("bad"); s.call("reload").tick(D + 1001)
            elif shape == 5:   # nothing changed: all carried over
                s.call("reload").tick(D + 1001).call("reload").tick(D - 1)
                put("last"); s.call("reload").tick(2000).tick(D + 1001)
            elif shape == 6:   # removed plugins
                s.rm("last"); s.call("reload").tick(D // 2); s.rm("move"); s.call("reload").tick(D // 2)
                s.tick(D // 2 + 1001); put("move"); s.call("reload").tick(D + 1001)
            elif shape == 7:   # panics in OnFree
                put("keep", fault={"onfree": "panic"}); put("move", fault={"onfree": "panic"}, imps=[("Keep", "any")]); put("last"); s.call("reload")
                s.tick(D + 1001); put("keep"); put("move"); s.call("reload").tick(D - 1).tick(1001)
            elif shape == 8:   # LoadPlugins instead of Reload
                put("last"); s.call("load").tick(D // 3); put("last"); s.call("load").tick(D // 3).tick(D // 3).tick(1001).tick(D // 2)
            elif shape == 9:   # vetoed reloads in between
                for i in range(3):
                    put("last"); s.call("reloadx", x=["err", "ok", "panic"][i]).tick(D // 3)
                s.call("reload").tick(D + 1001)
            out.append(s)
    return out


def refs(rng, idx):
    """Random keep/replace/fail histories with retirements pending, dense in time."""
    delay = rng.choice([0, 20000])
    D = max(15000, delay)
    s = Sc(f"refs-{idx}", delay=delay, cb=True)
    ns = ["aa", "bb", "cc", "dd"][:rng.randint(1, 4)]
    rel = {n: rng.random() < 0.8 for n in ns}
    def put(n, **kw):
        kw.setdefault("fault", {"onfree": "panic"} if rng.random() < 0.15 else {})
        s.put(n, s.blob(n, rel=rel[n], **kw))
    for n in ns:
        put(n)
    s.call("load")
    tmp = 0
    gone = set()
    for _ in range(rng.randint(4, 10)):
        for n in ns:
            if n in gone:
                if rng.random() < 0.5:
                    put(n); gone.discard(n)
            elif rng.random() < 0.35:
                put(n)
            elif rng.random() < 0.1:
                s.rm(n); gone.add(n)
        if rng.random() < 0.3:
            tmp += 1
            s.put("bad", s.blob("bad", fault={rng.choice(STAGES): "panic"}))
            s.call("reload")
            s.rm("bad")
        s.call(rng.choice(["reload", "reloadx", "load"]), x=rng.choice(["ok", "ok", "err"]))
        s.tick(rng.choice([0, 1, 2500, 5000, 7500, D - 1, D, D + 1]))
        if rng.random() < 0.2:
            s.inv(rng.randint(0, 4), rng.random() < 0.5)
    return s


# ---------------------------------------------------------------------------------------------------------------
# copies

def copies():
    """Versions within the same second, files changed while a load is running, files overwritten after it."""
    out = []
    for n in (2, 3, 5):
        s = Sc(f"copies-second-{n}", delay=0)
        for i in range(n):
            s.put("aa", s.blob("aa", lf=[f"v{i}"])).put("bb", s.blob("bb", imps=[("Aa", "ptr")]))
            s.call("reload" if i else "load")
        s.tick(16001)
        out.append(s)
    # gate points of a load of two plugins: open, rel, exp (twice), imp, imp, onload, onload, oninit, oninit, cb
    for g in range(1, 12):
        for reload in (False, True):
            for what in ("over", "overother", "rm"):
                if what == "rm" and g < 7:
                    continue
                s = Sc(f"copies-during-{g}-{reload}-{what}", gated=True, cb=True, delay=0)
                s.put("aa", s.blob("aa", lf=["v1"])).put("bb", s.blob("bb", imps=[("Aa", "iface")]))
                if reload:
                    s.call("load").step("fin", cl="a")
                    s.put("aa", s.blob("aa", lf=["v2"])).put("bb", s.blob("bb", imps=[("Aa", "ptr")]))
                s.call("reload")
                if g > 1:
                    s.step("go", cl="a", n=g - 1)
                if what == "over":
                    s.put("aa", s.blob("aa", lf=["v3"]))
                elif what == "overother":
                    s.put("bb", s.blob("bb", lf=["v3b"]))
                    s.put("aa", s.blob("aa", lf=["v3"]))
                else:
                    s.rm("aa")
                s.step("fin", cl="a")
                if what == "rm":
                    s.put("aa", s.blob("aa"))
                s.put("bb", s.blob("bb", imps=[("Aa", "iface")]))
                s.tick(1000)
                s.call("reload").step("fin", cl="a").tick(16001)
                out.append(s)
    # the same content retried after a failure, within a second and later
    for ms in (0, 1001):
        s = Sc(f"copies-retry-{ms}", delay=0, cb=True)
        s.put("aa", s.blob("aa")).put("bb", s.blob("bb"))
        s.call("load", cfg="err").tick(ms).call("load").tick(ms)
        s.put("bb", s.blob("bb", imps=[("Aa", "ptr")])).call("reload", cfg="panic").tick(ms).call("reload").tick(16001)
        out.append(s)
    # contents that differ in a few bytes only
    s = Sc("copies-similar", delay=0)
    for i in range(12):
        s.put("aa", s.blob("aa", lf=[f"w{i}"]))
        s.call("reload" if i else "load")
    out.append(s)
    return out


def many(rng, idx):
    """A great many versions of one plugin within one second."""
    s = Sc(f"many-{idx}", delay=0)
    for i in range(250):
        s.put("aa", s.blob("aa", lf=[f"{idx}"])).call("reload" if i else "load")
    return s


# ---------------------------------------------------------------------------------------------------------------
# contract

def contract():
    out = []
    for i, combo in enumerate(itertools.chain(itertools.combinations(FUNCS, 1), itertools.combinations(FUNCS, 2), [tuple(FUNCS)],
                                              itertools.combinations(FUNCS, 8))):
        s = Sc("contract-miss-" + "-".join(combo)[:60] + f"-{i}")
        s.put("good", s.blob("good"))
        s.put("part", s.blob("part", miss=combo))
        s.call("load")
        s.put("part", s.blob("part"))
        s.call("load")
        s.put("part", s.blob("part", miss=combo)).put("good", s.blob("good"))
        s.call("reload")
        out.append(s)
    for f in FUNCS:
        for mk in ("sig", "var", "ptrsig"):
            for other in (None,) + tuple(FUNCS[:3]):
                if other == f:
                    continue
                s = Sc(f"contract-mist-{f}-{mk}-{other}")
                s.put("part", s.blob("part", mist=[f], mistk=mk, miss=[other] if other else []))
                s.call("load")
                s.put("part", s.blob("part", fvar=[f]))
                s.call("load")
                out.append(s)
    s = Sc("contract-allvars")
    s.put("part", s.blob("part", fvar=FUNCS, lf=["x"], lt=["y"])).put("rest", s.blob("rest", imps=[("Part", "ptr")], fvar=FUNCS)).call("load").inv()
    s.put("part", s.blob("part", fvar=FUNCS)).call("reload").put("rest", s.blob("rest", fvar=FUNCS)).call("reload").tick(301001)
    out.append(s)
    return out


# ---------------------------------------------------------------------------------------------------------------
# schedules

def conc(rng, idx):
    """Several clients whose loads overlap; every plugin function and callback is a scheduling point."""
    s = Sc(f"conc-{idx}", gated=True, cb=True, ext=rng.random() < 0.3, delay=rng.choice([0, 0, 15000, 20000]), gateTimers=rng.random() < 0.3)
    ns = ["aa", "bb", "cc"][:rng.randint(1, 3)]
    rel = {n: rng.random() < 0.85 for n in ns}
    edges = rng.random() < 0.6
    def put(n, **kw):
        imps = [(field(d), "iface") for d in ns[ns.index(n) + 1:] if edges and (rel[n] or not rel[d])]
        s.put(n, s.blob(n, rel=rel[n], imps=imps, lf=[n + "f"], **kw))
    for n in ns:
        put(n)
    if rng.random() < 0.7:
        s.call("load").step("fin", cl="a")
        if rng.random() < 0.5:
            s.tick(rng.choice([1, 1000, 5000]))
        for n in ns:
            if rng.random() < 0.7:
                put(n)
    cls = ["a", "b", "c"][:rng.randint(2, 3)]
    for rnd in range(rng.randint(1, 3)):
        # a round: some calls, scheduled in turns
        pending = [(c, rng.choice(["load", "reload", "reloadx", "reloadx"]), rng.choices(["ok", "err", "panic"], [8, 1, 1])[0],
                    rng.choices(["ok", "err", "panic"], [8, 2, 1])[0]) for c in cls]
        started = []
        for _ in range(rng.randint(6, 40)):
            if pending and (not started or rng.random() < 0.25):
                c, k, cfg, x = pending.pop(0)
                s.call(k, cl=c, cfg=cfg, x=x)
                started.append(c)
            elif started:
                s.step("go", cl=rng.choice(started), n=rng.choice([1, 1, 1, 2, 3]))
            if rng.random() < 0.1:
                s.tick(rng.choice([1, 500, 14999, 15001, 20001]))
            if rng.random() < 0.08:
                s.step("read")
            if rng.random() < 0.06:
                s.inv(rng.randint(0, 3), rng.random() < 0.5)
            if rng.random() < 0.15:
                s.step("trel")
        for c, k, cfg, x in pending:
            s.call(k, cl=c, cfg=cfg, x=x)
        s.step("finall")
        if rng.random() < 0.6:
            s.tick(rng.choice([1, 1000, 15001, 21001]))
        for n in ns:
            r = rng.random()
            if r < 0.5:
                put(n)
            elif r < 0.6:
                put(n, fault={rng.choice(STAGES): "panic"})
            elif r < 0.7 and rnd:
                put(n, fault={"onfree": "panic"})
        for _ in range(rng.choice([0, 0, 2])):
            s.step("trel")
    s.step("finall")
    if s.opts["gateTimers"]:
        for _ in range(4):
            s.step("trel")
        s.tick(21001)
        for _ in range(12):
            s.step("trel")
    return s


def parallel(rng, idx):
    """Clients and readers running freely."""
    s = Sc(f"par-{idx}", cb=True, ext=True, delay=rng.choice([0, None]))
    ns = ["aa", "bb", "cc"]
    for n in ns:
        s.put(n, s.blob(n, imps=[(field(d), "any") for d in ns[ns.index(n) + 1:]], lf=[n]))
    if rng.random() < 0.6:
        s.call("load")
    for rnd in range(rng.randint(1, 3)):
        for n in ns:
            r = rng.random()
            if r < 0.5 or n == "aa":
                ks = ns[ns.index(n) + 1:]
                s.put(n, s.blob(n, imps=[(field(d), "any") for d in ks], lf=[n], fault={rng.choice(STAGES): "panic"} if rng.random() < 0.1 else {}))
        par = [[dict(k=rng.choice(["load", "reload", "reloadx"]), cfg=rng.choices(["ok", "err"], [6, 1])[0], x=rng.choices(["ok", "err", "panic"], [5, 1, 1])[0])
                for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 4))]
        s.step("par", par=par, readers=rng.choice([0, 1, 2]))
        if rng.random() < 0.7:
            s.tick(rng.choice([1000, 15001, 310000]))
    return s


# ---------------------------------------------------------------------------------------------------------------
# static linking

def static_fixed():
    out = []
    ns = ["top", "mid", "low"]
    pts = [("", "")] + [(st, r) for st in STAGES for r in (["panic"] if st in ("rel", "exp", "imp") else ["err", "panic"])]
    pts += [("lfk", "nil"), ("lfk", "panic"), ("ltk", "nil"), ("ltk", "panic"), ("unknown", ""), ("cycle", ""), ("assign", ""), ("nonptr", ""), ("ptrint", ""),
            ("nonrel", ""), ("anon", ""), ("clashf", ""), ("clasht", ""), ("skip", ""), ("cfg", "err"), ("cfg", "panic")] + [("miss", f) for f in FUNCS]
    for kind, r in pts:
        for who in ns:
            if kind in ("", "cfg") and who != "top":
                continue
            s = Sc(f"static-{kind}-{r}-{who}", mode="static", cb=True, ext=True)
            for n in ns + ["side"]:
                imps = {"top": [("Mid", "iface"), ("Low", "any")], "mid": [("Low", "ptr")], "low": [], "side": []}[n]
                kw = dict(imps=imps, lf=[n + "f"], lt=[n + "t"])
                if n == who:
                    if kind in STAGES: kw["fault"] = {kind: r}
                    elif kind in ("lfk", "ltk"): kw[kind] = r
                    elif kind == "miss": kw["miss"] = [r]
                    elif kind == "unknown": kw["imps"] = imps + [("Nosuch", "any")]
                    elif kind == "cycle": kw["imps"] = imps + [("Top", "any")]
                    elif kind == "assign": kw["imps"] = imps + [("Side", "bad")]
                    elif kind == "nonptr": kw["imps"], kw["impk"] = [], "nonptr"
                    elif kind == "ptrint": kw["imps"], kw["impk"] = [], "ptrint"
                    elif kind == "nonrel": kw["rel"], kw["imps"] = False, [("Side", "any")]
                    elif kind == "anon": kw["imps"] = imps + [("Alpha", "anon")]
                    elif kind == "skip": kw["imps"] = imps + [("Nosuch", "skip"), ("side", "unexp")]
                    elif kind == "clashf": kw["lf"] = ["sidef"]
                    elif kind == "clasht": kw["lt"] = ["sidet"]
                s.static(n, s.blob(n, **kw))
            s.call("reload").call("reloadx")
            s.call("load", cfg=r if kind == "cfg" else "ok")
            s.inv().inv(0, False)
            s.call("reload").call("reloadx", x="err")
            s.call("load").inv()
            s.tick(301001)
            s.call("reloadx")
            out.append(s)
    for wl in (["top"], ["low"], ["mid", "low"], ["low", "low"], ["low", "nosuch"], ["LOW"], ["top", "mid", "low"], ["side", "low"]):
        s = Sc("static-wl-" + "-".join(wl), mode="static", wl=wl)
        for n in ns + ["side"]:
            imps = {"top": [("Mid", "iface")], "mid": [("Low", "ptr")], "low": [], "side": []}[n]
            s.static(n, s.blob(n, imps=imps, lf=[n + "f"]))
        s.call("load").inv().call("load").call("reload")
        out.append(s)
    for a, b in (("aa", "AA"), ("Xy", "xY")):
        for wl in ([], [a], [a, b]):
            s = Sc(f"static-case-{a}-{b}-{len(wl)}", mode="static", wl=wl)
            s.static(a, s.blob(a, lf=["1"]))
            s.static(b, s.blob(b, lf=["2"]))
            s.static("zz", s.blob("zz"))
            s.call("load").call("load")
            out.append(s)
    s = Sc("static-empty", mode="static", cb=True)
    s.call("load").call("reload")
    out.append(s)
    return out


def static_rand(rng, idx):
    s = Sc(f"static-{idx}", mode="static", cb=rng.random() < 0.5, ext=rng.random() < 0.5)
    names = rng.sample(NAMES, rng.randint(1, 5))
    p = dict(fault=rng.choice([0, 0.15]), norel=rng.choice([0, 0.3]), cyc=rng.choice([0, 0.1]), odd=rng.choice([0, 1]), broken=0, clash=rng.choice([0, 0.05]))
    for n in names:
        b = rand_blob(s, rng, n, names, p)
        bl = s.blobs[b - 1]
        bl["open"], bl["fvar"], bl["mist"] = "ok", [], []
        if rng.random() < 0.05:
            bl["miss"] = rng.sample(FUNCS, rng.choice([1, 2]))
        s.static(n, b)
    if rng.random() < 0.2:
        s.opts["wl"] = rng.sample(names, rng.randint(1, len(names)))
    for _ in range(rng.randint(1, 4)):
        s.call(rng.choice(["load", "load", "reload", "reloadx"]), cfg=rng.choices(["ok", "err", "panic"], [8, 1, 1])[0])
        if rng.random() < 0.5:
            s.inv(0, rng.random() < 0.5)
        if rng.random() < 0.3:
            s.tick(rng.choice([1000, 301001]))
    return s


def dense():
    """Many plugins with many dependencies: every plugin needs all later ones; layers of which each needs the whole next one; a long
    chain; the same with a cycle at the far end."""
    out = []
    def shape(kind, n):
        names = [f"p{i:02}" for i in range(n)]
        if kind == "full":
            return names, {x: names[i + 1:] for i, x in enumerate(names)}
        if kind == "layers":
            return names, {x: names[(i // 3 + 1) * 3:(i // 3 + 2) * 3] for i, x in enumerate(names)}
        return names, {x: names[i + 1:i + 2] for i, x in enumerate(names)}
    for kind, n in (("full", 29), ("chain", 30)):
        for cyc in (False, True):
            for static in (False, True):
                s = Sc(f"dense-{kind}-{cyc}-{static}", mode="static" if static else "dyn", delay=0)
                names, deps = shape(kind, n)
                for ver in range(1 if static or cyc else 2):
                    for x in names:
                        ds = [(field(y), ("iface", "ptr", "any")[(i + ver) % 3]) for i, y in enumerate(deps[x])]
                        if cyc and x == names[-1]:
                            ds = [(field(names[-4]), "any")]
                        b = s.blob(x, imps=ds)
                        s.static(x, b) if static else s.put(x, b)
                    s.call("load" if ver == 0 else "reload")
                    s.inv(0, True)
                s.inv(0, False)
                if not static:
                    s.tick(16000)
                out.append(s)
    return out


def shapes():
    """Versions of one size that differ in a few bytes somewhere in the file, with the same time of modification, written over the
    file or moved into its place; and files whose time changes but not their content."""
    out = []
    for shape in ("const", "front", "mid", "end"):
        for how in ("over", "new"):
            for mt in (0, 1000000000):
                for rel in (True, False):
                    s = Sc(f"shapes-{shape}-{how}-{mt}-{rel}", delay=0, cb=True)
                    kw = dict(how=how, mt=mt)
                    a = [s.blob("pp", shape=shape, rel=rel, lf=[f"v{i}"]) for i in range(4)]
                    q = [s.blob("qq", shape=shape, imps=[("Pp", "any")]) for i in range(4)]
                    s.put("pp", a[0], **kw).put("qq", q[0], **kw).call("load").inv()
                    s.put("pp", a[1], **kw).put("qq", q[1], **kw).call("reload").inv()
                    # the same content again, at another time
                    s.put("pp", a[1], how=how, mt=1100000000).put("qq", q[1], how=how, mt=900000000).call("reload").tick(1200)
                    s.put("pp", a[2], **kw).put("qq", q[2], **kw).call("reloadx", x="err").tick(700).call("reload")
                    # while a load that has failed had looked at something else
                    s.put("pp", a[3], **kw).put("qq", q[3], **kw).put("bad", s.blob("bad", fault={"oninit": "err!1"}), **kw)
                    s.call("reload").put("pp", a[2], **kw).put("qq", q[2], **kw).call("reload").inv(0, False)
                    s.tick(16001)
                    out.append(s)
    return out


def transient():
    """A function, a callback or the opening of a plugin fails once and works afterwards, with the files unchanged."""
    out = []
    pts = [(st, r) for st in STAGES for r in (["panic"] if st in ("rel", "exp", "imp") else ["err", "panic"])] + [("open", "err"), ("open", "panic")]
    for st, r in pts:
        for who in ("top", "mid", "low"):
            for mode in ("first", "reload", "static"):
                for times in (1, 2):
                    if mode == "static" and st == "open":
                        continue
                    s = Sc(f"transient-{st}-{r}-{who}-{mode}-{times}", mode="static" if mode == "static" else "dyn", cb=True, ext=True, delay=15000)
                    def make(n, bad):
                        imps = {"top": [("Mid", "iface"), ("Low", "any")], "mid": [("Low", "ptr")], "low": [], "side": []}[n]
                        kw = dict(imps=imps, lf=[n + "_f"], lt=[n + "_t"])
                        if bad and st == "open":
                            kw["open"] = f"{r}!{times}"
                        elif bad:
                            kw["fault"] = {st: f"{r}!{times}"}
                        return s.blob(n, **kw)
                    ns = ("top", "mid", "low", "side")
                    if mode == "static":
                        for n in ns:
                            s.static(n, make(n, n == who))
                    else:
                        if mode == "reload":
                            for n in ns:
                                s.put(n, make(n, False))
                            s.call("load").tick(1200)
                        for n in ns:
                            if n != "side" or mode == "first":
                                s.put(n, make(n, n == who))
                    for i in range(times + 1):
                        s.call("load" if mode != "reload" else "reloadx").tick(300 if i else 0)
                    s.inv()
                    s.call("reload").tick(16001)
                    if mode != "static":
                        s.put("low", make("low", False)).put("mid", make("mid", False)).put("top", make("top", False))
                        s.call("reload").inv(0, False).tick(16001)
                    out.append(s)
    return out


def slow():
    """Loads in the course of which time passes: the free delay counts from the switch."""
    out = []
    for delay in (0, 20000):
        D = max(15000, delay)
        for g in range(0, 13):
            for ms in (D - 1, D + 1, 3 * D):
                for end in ("ok", "err"):
                    if end == "err" and (g % 4 or ms != D + 1):
                        continue
                    s = Sc(f"slow-{delay}-{g}-{ms}-{end}", gated=True, cb=True, delay=delay)
                    def put(*ns):
                        for n in ns:
                            s.put(n, s.blob(n, imps=[("Low", "any")] if n == "top" else [], lf=[n]))
                    put("low", "top", "keep")
                    s.call("load").step("fin", cl="a").tick(2000)
                    put("low", "top")
                    s.call("reloadx", x=end).step("go", cl="a", n=g).tick(ms).step("fin", cl="a")
                    s.tick(D - ms % D - 1 if ms < D else 1).tick(1)
                    s.tick(1001).tick(D - 1002).tick(1).tick(1001)
                    put("top")
                    s.call("reload").step("go", cl="a", n=g).tick(D - 1).step("fin", cl="a").tick(D - 1).tick(1).tick(1001)
                    out.append(s)
    return out


FIXED = dict(shapes=shapes, transient=transient, slow=slow, dense=dense, faults=faults, graphs=deps_small, kinds=deps_kinds, keep=keep, revert=revert, select_fixed=select_fixed, timing=timing,
             copies=copies, contract=contract, static_fixed=static_fixed)
RANDOM = dict(hist=hist, deps=deps_rand, retry=retry, select=select, vault=vaults, refs=refs, conc=conc, par=parallel, static=static_rand, many=many)


def vary(s, rng):
    """What plugin files look like and how they are written; faults that pass."""
    shape = rng.choice(["", "", "const", "const", "const", "mid"])
    mt = rng.choice([0, 0, 1000000000])
    for b in s.blobs:
        b["shape"] = shape
        for st in STAGES:
            if b["fault"].get(st, "ok") != "ok" and rng.random() < 0.3:
                b["fault"][st] += "!" + rng.choice("112")
    for x in s.steps:
        if x["op"] == "put" and x["b"] > 0:
            x["mt"] = mt
            if rng.random() < 0.5:
                x["how"] = "new"
    return s


def suite(name, seed, n=None):
    """The first n scenarios of a suite (n=None: all of a fixed suite). For fixed suites a smaller n takes a seeded sample."""
    if name in FIXED:
        a = FIXED[name]()
        if n is not None and n < len(a):
            a = random.Random(f"{name}/{seed}").sample(a, n)
        return a
    f = RANDOM[name]
    return [vary(f(random.Random(f"{name}/{seed}/{i}"), i), random.Random(f"vary/{name}/{seed}/{i}")) for i in range(n)]


if __name__ == "__main__":
    import sys, json
    seed = int(sys.argv[1])
    for spec in sys.argv[2:]:
        nm, _, k = spec.partition(":")
        for s in suite(nm, seed, int(k) if k else None):
            print(json.dumps(s.json(), ensure_ascii=False))
