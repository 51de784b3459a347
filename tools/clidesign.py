"""The design-level specification of the command line tool (spec/CliDesign.tla): configurations, exhaustive checking, flaws
built in, and the histories it explores as scenarios for the real tool."""
import json, os, re, sys, tempfile
from common import *
from cli import F, Raw, Plugin, World, base_plugin, REQUIRED

O = dict(prefix="live_", tags=[], inc=[], exc=[], leave=False, gobuild=True)


def opt(**kw):
    return dict(O, **kw)


def S(path, *decls, **kw):
    return F(path, decls=[("anchor", "Anchor")] + list(decls), **kw)


class V:
    """A version of a plugin's sources: files apart from the usual ones, what it lacks and what is wrong with it."""

    def __init__(self, *files, lacks=(), fault="none", gone=(), broken=False):
        self.files, self.lacks, self.fault, self.gone, self.broken = list(files), lacks, fault, list(gone), broken

    def all(self, p):
        fs = base_plugin(p, [r for r in REQUIRED if r not in self.lacks]) + self.files
        return fs + [Raw("sub/" + g, link="/nonexistent/" + g) for g in self.gone]


class Conf:
    def __init__(self, id, plugins, opts, ops, maxops, static=False, faults=(), sigs=0, workers=2, sout=(), live=False):
        self.id, self.plugins, self.opts, self.ops, self.maxops, self.static = id, plugins, opts, ops, maxops, static
        self.faults, self.sigs, self.workers, self.sout, self.live = faults, sigs, workers, sout, live

    def json(self, mut="none", emit=False):
        w = World("design-" + self.id, self.static)
        try:
            vs = {}
            for n, vers in self.plugins.items():
                vs[n] = []
                for v in vers:
                    p = w.plugins.get(n) or Plugin(n, static=self.static)
                    w.source(p, v.all(p))
                    vs[n].append(dict(files=w.ev[-1]["files"], fault=v.fault, gone=v.gone, broken=v.broken))
            if self.static:
                w.sfiles({n: "package sp\n" for n in self.sout})
            return dict(hdr=w.hdr(), vars=vs, opts=self.opts, ops=self.ops, maxops=self.maxops, faults=list(self.faults), sigs=self.sigs,
                        workers=self.workers, sout=w.ev[-1]["files"] if self.static else [], mut=mut, emit=emit)
        finally:
            w.close()


def live(n, x=""):
    return [S("sub/s.go", ("func", f"live_{n}{x}"), ("struct", f"live_{n}T{x}"))]


def confs():
    r = []
    # one build, a signal at every step, one of several tools fails, files that cannot be copied
    vers = [V(*live("a"), Raw("sub/x.txt", "x")), V(*live("a"), gone=["g1.go", "g2.go"], fault="copy"),
            V(*live("a"), F("bad.go", "aa", broken=True), broken=True, fault="compile"), V(*live("a"), lacks=["OnInit", "Import"])]
    r.append(Conf("signals", dict(aa=vers), [opt(), opt(leave=True), opt(gobuild=False)], ["edit", "dyn"], 2,
                  faults=["git", "req", "list", "build"], sigs=1, live=True))
    r.append(Conf("signals2", dict(aa=[V(*live("a"))]), [opt()], ["dyn"], 2, faults=["list"], sigs=2, workers=1, live=True))
    # what is compiled and registered
    vers = [V(*live("a"), S("on.go", ("func", "live_on"), cond=("+", "extra"), pkg="aa"), Raw("data.txt", "d"), F("sub/x_test.go", "sub", decls=[("func", "live_t")]),
              F("i.go", "aa", imps=[("@OWN@/sub", "_", '"'), ("@OWN@x/sub", "_", '"')])),
            V(*live("a"), S("b/b.go", ("struct", "live_a"))), V(S("b/b.go", ("nonstruct", "live_n"))),
            V(*live("b"), lacks=["Export"]),
            V(F("win.go", "aa", decls=[("func", "Export"), ("func", "live_x")], cond=("+", "extra")), lacks=["Export"]), V(F("sub/x.go", decls=[("func", "Export")]), lacks=["Export"])]
    r.append(Conf("select", dict(aa=vers), [opt(), opt(tags=["extra"], inc=[dict(k="suffix", s=".txt")]), opt(prefix="LIVE_A", gobuild=False)], ["edit", "dyn"], 4,
                  workers=1))
    # several versions
    r.append(Conf("versions", dict(aa=[V(*live("a"))], bb=[V(*live("b"))]), [opt(gobuild=False, leave=True), opt()], ["dyn", "commit", "wait", "stay"], 4, workers=1))
    # builds while another one stands still
    r.append(Conf("overlap", dict(aa=[V(*live("a"))], ab=[V(*live("b"))]), [opt(), opt(leave=True)], ["dyn", "overlap"], 3, faults=["list"], workers=1))
    # static linking
    ps = {"a": [V(*live("a")), V(S("sub/s.go", ("func", "live_a2")), S("y/s.go", ("func", "Hot_a"))), V(S("x/x.go", ("func", "live_d")), S("y/y.go", ("struct", "live_d")))],
          "a.b": [V(*live("ab"), Raw("hotswapbureau/notes.txt", "mine")), V(lacks=["OnFree"])]}
    r.append(Conf("static", ps, [opt(), opt(prefix="hot")], ["edit", "build", "clean", "drive"], 4, static=True, faults=["cut"],
                  sout=["sp.go", "hotswap.staticPluginInit.notes.txt"]))
    # a plugin that is generated for static linking is also built dynamically
    r.append(Conf("both", {"aa": [V(*live("a")), V(S("y/s.go", ("func", "live_a")))]}, [opt(), opt(prefix="hot")], ["edit", "build", "clean", "dyn", "drive"], 4, static=True,
                  faults=["cut", "list"], workers=1))
    return r


def big():
    r = confs()
    for c in r:
        c.maxops = {"signals": 6, "signals2": 5, "select": 7, "versions": 9, "static": 11, "both": 9, "overlap": 6}[c.id]
        if c.id == "overlap":
            c.ops = c.ops + ["commit"]
    return r


# flaws that can be built in, and the configuration in which each shows
FLAWS = {"abort-closed-twice": "signals", "workers-not-awaited": "signals", "listens-late": "signals", "failures-not-cleaned": "signals",
         "interrupts-not-cleaned": "signals", "built-in-place": "signals", "output-stays": "signals", "old-plugin-removed-first": "signals", "required-unchecked": "select",
         "required-anywhere": "select", "required-excluded-files": "select", "duplicates-unnoticed": "select", "duplicates-of-a-kind": "select",
         "types-unchecked": "select", "scan-without-tags": "select", "copies-tests": "select", "imports-by-prefix": "select",
         "left-overs-stay": "versions", "name-without-plugin": "versions", "name-without-commit": "versions", "name-without-time": "versions", "older-ones-removed": "overlap", "output-by-plugin": "overlap",
         "copies-generated": "both", "init-files-of-others": "static", "init-file-by-prefix": "static", "bureau-directory": "static", "no-removal": "static"}


def start(c, mut="none", workers=1, sim=0, seed=1, **kw):
    d = tempfile.mkdtemp(prefix="clidesign-", dir=scratch())
    with open(os.path.join(d, "c.json"), "w", encoding="utf-8") as f:
        json.dump(c.json(mut, sim > 0), f, ensure_ascii=False)
    args = ["-simulate", f"num={sim}", "-depth", "600", "-seed", str(seed)] if sim else []
    return tlc("CliDesign.tla", "CliDesignLive.cfg" if c.live and not sim else "CliDesign.cfg", env=dict(DESIGN=os.path.join(d, "c.json")), workers=workers, args=args, **kw)


def result(p):
    out = tlc_wait(p)
    ok = "Model checking completed. No error has been found." in out
    hist = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"SCEN", "((?:[^"\\]|\\.)*)">>', out)]
    bad = sorted(set(re.findall(r"C\d\d", (re.findall(r"viol = \{([^}]*)\}", out) or [""])[-1])))
    g, n = tlc_stats(out)
    return ok, g, n, hist, bad, out


SITES = {"git": ("git.1", 0), "stale": ("git.2", 1), "notify": ("git.2", 1), "req": ("go-list.1", 0), "collect": ("go-list.1", 1), "copy": (None, 0),
         "list": ("go-list.2", 0), "scan": ("go-list.2", 1), "gen": ("go-list.2", 1), "ready": ("go-list.2", 1), "publish": ("late.go-build.1", 1), "build": ("go-build.1", 0),
         "end": ("late.go-build.1", 1), "tidy": ("late.go-build.1", 1)}


def replay(conf, hist, seed):
    """A history as a scenario for the real tool. Where the design's step lies between two external tools, the signal is sent a moment
    after the first of them goes on."""
    import random, signal, time

    def f(w):
        r = random.Random(str(seed))
        w.autocommit = False
        ps = {}
        if conf.static:
            w.sfiles({n: "package sp\n" for n in conf.sout})
        for n in sorted(conf.plugins):
            ps[n] = Plugin(n, static=conf.static)
            w.source(ps[n], conf.plugins[n][0].all(ps[n]))
            w.write(f"plug/{n}x/sub/x.go", "package sub\n\nvar Anchor int\n")
        com, t, cur = 1, 0, {n: 0 for n in conf.plugins}
        steps = []
        for h in hist:
            if h.get("over"):
                h = dict(h, inside=steps[-h["over"]:])
                del steps[-h["over"]:]
            steps.append(h)

        def go(h, w=w, main=w):
            nonlocal com, t
            if h["op"] == "edit":
                v = conf.plugins[h["p"]][h["v"] - 1]
                cur[h["p"]] = h["v"] - 1
                w.source(ps[h["p"]], v.all(ps[h["p"]]))
            elif h["op"] == "drive":
                w.drive()
            elif h["op"] in ("build", "clean"):
                o = conf.opts[h["o"] - 1]
                kw = {}
                if h["cut"] >= 0:
                    site = ["git.1", "go-list.1", "gofmt.1", "gofmt.2", "gofmt.3", "gofmt.4"][h["cut"] if h["op"] == "build" else 0]
                    if r.random() < .5:
                        kw = dict(fault="killed", pause=site, plan=[(signal.SIGKILL, r.random() < .5)])
                    else:
                        kw = dict(fault="tool fails", fail=site)
                w.sta(ps[h["p"]], h["op"], relative=r.random() < .5, verbose=r.random() < .3, **o, **kw)
            elif h["op"] == "dyn":
                while com < h["com"]:
                    main.commit()
                    com += 1
                if t < h["t"]:
                    time.sleep(1.05)
                    t = h["t"]
                o = conf.opts[h["o"] - 1]
                kw = dict(fault=h["fault"], stay=h["stay"])
                tool = {"git": "git", "req": "go-list.1", "list": "go-list.2", "build": "go-build"}.get(h["fault"])
                if tool:
                    kw["fail"] = tool
                if h["sigs"]:
                    s1 = h["sigs"][0]
                    site, after = SITES[s1["at"]]
                    kw["sig"] = s1["s"]
                    plan = ["resume", r.choice([0.0, 0.0005, 0.002, 0.005, 0.02])] if after else []
                    plan.append((getattr(signal, "SIG" + s1["s"]), s1["group"]))
                    for s2 in h["sigs"][1:]:
                        plan += [r.choice([0.0, 0.001, 0.05, 0.3]), (getattr(signal, "SIG" + s2["s"]), s2["group"])]
                    plan += [r.choice([0.0, 0.01, 0.3]), "resume"]
                    kw["plan"] = plan
                    if site:
                        kw["pause"] = site
                    else:
                        kw["fifo"] = "sub/pipe.go"
                if h.get("inside"):
                    kw["pause"] = {"publish": "late.go-build.1", "build": "go-build.1"}.get(h["heldat"]) or SITES[h["heldat"]][0]
                    kw["plan"] = [lambda: [go(x, w.beside(), w) for x in h["inside"]], "resume"]
                w.dyn(ps[h["p"]], relative=r.random() < .5, verbose=r.random() < .2, **o, **kw)
        for h in steps:
            go(h)
        w.load()
    return f


class Histories:
    """Random histories of the design, made in the background: n of every configuration."""

    def __init__(self, want, seed):
        self.jobs = [(c, start(c, sim=want[c.id], seed=f"{seed}{i}")) for i, c in enumerate(big()) if want.get(c.id)]

    def scenarios(self):
        from cliscen import Scn
        out, seen, self.n = [], set(), {}
        for c, p in self.jobs:
            ok, g, n, hist, bad, txt = result(p)
            if "Error:" in txt or not hist:
                raise Trouble("the design does not hold in simulation:\n" + txt[-3000:])
            for i, h in enumerate(hist):
                k = c.id + json.dumps(h)
                if k not in seen and h:
                    seen.add(k)
                    self.n[c.id] = self.n.get(c.id, 0) + 1
                    out.append(Scn(f"history-{c.id}-{i}", replay(c, h, f"{c.id}{i}"), c.static))
        return out


# the configurations explored exhaustively, and the histories replayed, by the check of a property (quick)
EXPLORE = {"C21": ["select"], "C22": ["both"], "C23": ["select"], "C24": ["versions", "overlap"], "C25": ["signals"], "C26": ["select"]}
REPLAY = {"C21": dict(select=20, both=6), "C22": dict(static=40, both=15), "C23": dict(select=15, both=10, versions=6), "C24": dict(versions=15, select=8, overlap=12),
          "C25": dict(signals=40, signals2=20, versions=4), "C26": dict(select=25)}


def explore(prop, tier):
    cs = {c.id: c for c in confs()}
    ids = list(cs) if tier == "thorough" else EXPLORE.get(prop, [])
    return [(i, start(cs[i], workers=2)) for i in ids]


def explored(jobs):
    r = {}
    for id, p in jobs:
        ok, g, n, h, bad, out = result(p)
        if not ok:
            raise Trouble(f"the design does not hold in configuration {id}:\n" + out[-3000:])
        r[id] = dict(states=n, transitions=g)
    return r


def flaws(workers=4, only=None):
    cs = {c.id: c for c in confs()}
    r = {}
    for mut, id in FLAWS.items():
        if only and mut not in only:
            continue
        ok, g, n, h, bad, out = result(start(cs[id], mut=mut, workers=workers))
        r[mut] = dict(config=id, found=not ok and ("is violated" in out or "were violated" in out), properties=bad, states=n)
        if not r[mut]["found"]:
            r[mut]["out"] = out[-1500:]
    return r


if __name__ == "__main__":
    J = int(os.environ.get("J", "4"))
    if "-m" in sys.argv:
        for k, v in flaws(J, sys.argv[sys.argv.index("-m") + 1:]).items():
            print(k, v, flush=True)
        sys.exit(0)
    for c in confs():
        if len(sys.argv) > 1 and c.id not in sys.argv[1:]:
            continue
        t = time.time()
        ok, g, n, h, bad, out = result(start(c, workers=J))
        print(c.id, "held" if ok else "FAILED", g, n, bad, round(time.time() - t, 1), flush=True)
        if not ok:
            print(out[-5000:])
            break
