"""From the command line tool to the plugin manager: versions of plugins built by the real tool (one package, seconds apart by the tool's
clock), opened by the real Go runtime, loaded by the real manager; what they do is scripted as in all other scenarios, and TLC judges the traces."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
import cli, mgr, scen

VERSIONS = 5
T = 1790000000

PLUGIN = '''package @PKG@

import (
	"verif/harness/bridge"
	"verif/harness/plug/@NAME@/sub"

	"github.com/edwingeng/hotswap/vault"
)

var s = bridge.Opened(@NO@)

func init() { sub.S = s }

func OnLoad(data interface{}) error     { return s.OnLoad(data) }
func OnInit(v *vault.Vault) error       { return s.OnInit(v) }
func OnFree()                           { s.OnFree() }
func Export() interface{}               { return s.Export() }
func Import() interface{}               { return s.Import() }
func Reloadable() bool                  { return s.Reloadable() }
func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	return s.InvokeFunc(name, params...)
}
'''
SUB = '''package sub

import "verif/harness/bridge"

var S *bridge.Syms
'''


def live(name, v):
    """-> live functions and types of version v: [(name, in the sub-package?)]"""
    lf = [(f"live_{name}", False), (f"live_{name}_{v % 2}", True)][: v % 3]
    lt = [(f"live_T{name}", v % 2 == 0)] if v % 4 != 1 else []
    if v == VERSIONS:
        (lf if len(name) % 2 else lt).append(("live_common", True))
    return lf, lt


def source(name, v, no):
    lf, lt = live(name, v)
    out = {False: PLUGIN.replace("@PKG@", "p" + name.lower()).replace("@NAME@", name).replace("@NO@", str(no)), True: SUB}
    for n, s in lf:
        out[s] += f'\nfunc {n}() (int, string) {{ return {"S" if s else "s"}.Inst(), "{n}" }}\n'
    for n, s in lt:
        out[s] += f'\ntype {n} struct{{}}\n\nfunc (*{n}) HsLive() (int, string) {{ return {"S" if s else "s"}.Inst(), "{n}" }}\n'
    return out


def module(d):
    """A module that holds the harness and plugins. -> its directory, the environment of the tool"""
    mod = sub(d)
    h = os.path.join(VERIF, "harness")
    for f in os.listdir(h):
        p = os.path.join(h, f)
        if f.endswith(".go") or f == "go.sum":
            shutil.copy(p, mod)
    shutil.copytree(h + "/bridge", mod + "/bridge")
    open(mod + "/go.mod", "w").write(open(h + "/go.mod").read().replace("=> /repo", "=> " + REPO))
    env = goenv(GIT_CONFIG_GLOBAL="/dev/null", GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@v", GIT_COMMITTER_NAME="v", GIT_COMMITTER_EMAIL="v@v",
                TMPDIR=sub("e2e/tmp"))
    env.pop("hotswap:checkRequiredPluginFuncs", None)
    for c in (["git", "init", "-q", "."], ["git", "commit", "-q", "--allow-empty", "-m", "1"]):
        subprocess.run(c, cwd=mod, env=env, check=True)
    return mod, env


def place(mod, name, v, no):
    where = os.path.join(mod, "plug", name)
    src = source(name, v, no)
    os.makedirs(where + "/sub", exist_ok=True)
    open(where + "/plugin.go", "w").write(src[False])
    open(where + "/sub/sub.go", "w").write(src[True])


class Pool:
    def __init__(self, names):
        """Builds VERSIONS versions of each plugin, and the harness."""
        self.no = {(n, v): 1 + i * VERSIONS + v - 1 for i, n in enumerate(names) for v in range(1, VERSIONS + 1)}
        self.dir, env = sub("e2e/pool"), goenv()
        self.mod, self.env = module("e2e/m")
        src = open(env["GOROOT"] + "/src/plugin/plugin.go", encoding="utf-8").read()
        if src.count("\treturn open(path)\n") != 1:
            raise Trouble("plugin.Open is not as expected")
        src = src.replace("\treturn open(path)\n", "\tif VerifReal != nil {\n\t\treturn VerifReal(path, open)\n\t}\n\treturn open(path)\n")
        src += '''
var VerifReal func(path string, real func(path string) (*Plugin, error)) (*Plugin, error)
var VerifOpen func(path string, reopened bool) (map[string]any, error)

func VerifReset() {}
'''
        d = sub("e2e")
        open(d + "/plugin.go", "w").write(src)
        json.dump({"Replace": {env["GOROOT"] + "/src/plugin/plugin.go": d + "/plugin.go"}}, open(d + "/ov.json", "w"))
        self.exe = d + "/real.test"
        self.failed = []    # builds that failed

        def host():
            rc, out = run(["go", "test", "-tags", "real", "-trimpath", "-overlay", d + "/ov.json", "-c", "-o", self.exe, "."], cwd=self.mod, env=env, timeout=700)
            if rc or not os.path.exists(self.exe):
                raise Trouble("the harness does not build:\n" + out[-4000:])

        def versions(name):
            out = sub("e2e/out/" + name)
            for v in range(1, VERSIONS + 1):
                no = self.no[name, v]
                place(self.mod, name, v, no)
                rc, txt = run([cli.Tools.clock, "build", "plug/" + name, out], cwd=self.mod, env=dict(self.env, HS_CLOCK=str(T + v)), timeout=300)
                so = f"{out}/{name}.so"
                if rc or not os.path.exists(so):
                    self.failed.append((name, v, txt[-1500:]))
                    return
                os.rename(so, f"{self.dir}/{no}")
        # what all share is compiled once
        cli.prepare(clock=True)
        with ThreadPoolExecutor(CPU) as ex:
            for f in [ex.submit(host)] + [ex.submit(versions, n) for n in names]:
                f.result()

    def scenario(self, s):
        """A scenario of the suites, with real plugins; None if it cannot be made of them."""
        ver = {}
        for b in s.blobs:
            v = ver[b["n"]] = ver.get(b["n"], 0) + 1
            if v > VERSIONS or (b["n"], 1) not in self.no:
                return None
            lf, lt = live(b["n"], v)
            b.update(pool=self.no[b["n"], v], open="ok", miss=[], mist=[], fvar=[], lfk="ok", ltk="ok", lf=[x for x, _ in lf], lt=[x for x, _ in lt], shape="")
        s.id = "real-" + s.id
        s.opts["real"] = True
        return s


def scenarios(pool, seed, n):
    out, i = [], 0
    while len(out) < n:
        i += 1
        s = pool.scenario(scen.hist(random.Random(f"real-{seed}-{i}"), i, dict(odd=1 if i % 4 == 0 else 0, norel=0.3 if i % 3 else 0)))
        if s:
            out.append(s.json())
    return out


def go(rep, seed, n):
    """Builds, runs n scenarios, and reports."""
    pool = Pool(scen.NAMES)
    if pool.failed:
        return pool, [], ([], {})
    scens = scenarios(pool, seed, n)
    return pool, scens, mgr.go(rep, scens, pool.exe, "e", 60, dict(HS_POOL=pool.dir), one=True)


class Statics:
    def __init__(self, names):
        """Links one version of each plugin into the harness, with the real tool."""
        env = goenv()
        self.mod, self.env = module("e2e/s")
        self.no = {n: 1 + i for i, n in enumerate(names)}
        self.exe, self.failed = sub("e2e") + "/static.test", []
        if not cli.Tools.cli:
            cli.prepare()
        os.makedirs(self.mod + "/sp", exist_ok=True)
        for n in names:
            place(self.mod, n, 1 + self.no[n] % 4, self.no[n])
        for n in names + names[:2]:
            rc, txt = run([cli.Tools.cli, "build", "--staticLinking", "plug/" + n, "sp"], cwd=self.mod, env=self.env, timeout=300)
            if rc:
                self.failed.append((n, 1, txt[-1500:]))
                return
        ov = sub("e2e") + "/ovs.json"
        json.dump({"Replace": {env["GOROOT"] + "/src/plugin/plugin_dlopen.go": os.path.join(VERIF, "harness/overlay/plugin_dlopen.go.txt")}}, open(ov, "w"))
        rc, out = run(["go", "test", "-tags", "realstatic", "-overlay", ov, "-c", "-o", self.exe, "."], cwd=self.mod, env=env, timeout=700)
        if rc or not os.path.exists(self.exe):
            self.failed.append(("harness", 1, out[-3000:]))

    def scenario(self, s):
        for b in s.blobs:
            lf, lt = live(b["n"], 1 + self.no[b["n"]] % 4)
            b.update(pool=self.no[b["n"]], miss=[], lfk="ok", ltk="ok", lf=[x for x, _ in lf], lt=[x for x, _ in lt])
        s.id = "real-" + s.id
        return s


def gostatic(rep, seed, n):
    """Builds, runs n scenarios of static linking, and reports."""
    st = Statics(scen.NAMES)
    if st.failed:
        return st, [], ([], {})
    scens = [st.scenario(scen.static_rand(random.Random(f"real-{seed}-{i}"), i)).json() for i in range(n)]
    return st, scens, mgr.go(rep, scens, st.exe, "f", 60)
