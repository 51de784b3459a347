"""Engine for the command line tool (C21-C26): generated modules -> the real tool, compiler and loader -> traces -> TLC on CliTrace."""
import copy, hashlib, json, os, re, shutil, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from common import *

REQUIRED = ["OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable"]
GEN = {"hotswap.bureau.go", "hotswap.main.go", "hotswap.live.go"}

# ------------------------------------------------------------------------------------------------------------
# Sources: a model of a Go file and its text


class F:
    """A Go file. imps: (path, form, quote) with form "_" "." or an alias that is used; decls: (kind, name)."""

    def __init__(self, path, pkg=None, imps=(), decls=(), cond=("on", ""), top="", extra="", static=False, broken=False):
        *self.dir, self.name = path.split("/")
        self.pkg = pkg or (self.dir[-1] if self.dir else None)
        self.imps, self.decls, self.cond, self.top, self.extra, self.static, self.broken = list(imps), list(decls), cond, top, extra, static, broken

    def path(self):
        return "/".join(self.dir + [self.name])

    def text(self, plugin):
        pkg = self.pkg or plugin.pkg
        d = "/".join(self.dir) or "."
        o = [self.top] if self.top else []
        if self.cond[0] == "off" and not re.search(r"_(windows|plan9)\.go$", self.name):
            o.append("//go:build windows\n")
        elif self.cond[0] == "+":
            o.append(f"//go:build {self.cond[1]}\n")
        elif self.cond[0] == "-":
            o.append(f"//go:build !{self.cond[1]}\n")
        o.append(f"package {pkg}\n")
        vault = self.static and ("req", "OnInit") in self.decls
        imps = list(self.imps)
        for p, form, q in imps:
            a = form + " " if form else ""
            o.append(f"import {a}{q}{p}{q}")
        if vault:
            o.append('import hsvault "github.com/edwingeng/hotswap/vault"')
        for n, (p, form, q) in enumerate(imps):
            if form not in ("_", "."):
                o.append(f"var _ = {form or p.split('/')[-1]}.Anchor")
        for k, n in self.decls:
            if k == "req":
                o.append(req(n, self.static, plugin))
            elif k == "func":
                o.append(f'func {n}() string {{ return "{d}:{n}" }}')
            elif k == "method":
                o.append(f"type recv{n} struct{{}}\n\nfunc (*recv{n}) {n}() {{}}")
            elif k == "struct":
                o.append(f"type {n} struct {{\n\tA int `id:\"{d}:{n}\"`\n}}")
            elif k == "alias":
                o.append(f"type {n} = struct {{\n\tA int `id:\"{d}:{n}\"`\n}}")
            elif k == "empty":
                o.append(f"type {n} struct{{}}")
            elif k == "embed":
                o.append(f"type emb{n} struct {{ A int `id:\"{d}:{n}\"` }}\n\ntype {n} struct {{\n\temb{n}\n}}")
            elif k == "funcsig":
                o.append([f"func {n}(a int, b ...string) (int, error) {{ return a, nil }}", f"func {n}() {{}}", f"func {n}(f func(int) *struct{{}}) {{}}",
                          f"func {n}() (x, y map[string]interface{{}}) {{ return }}"][len(n) % 4])
            elif k == "group":
                o.append(f"type (\n\tother{n} int\n\t{n} struct {{ A int `id:\"{d}:{n}\"` }}\n)")
            elif k == "nonstruct":
                o.append(f"type {n} {['int', 'interface{ M() }', 'func()', 'map[string]int', '*int', '[]string'][len(n) % 6]}")
            elif k == "var":
                o.append(f"var {n} = func() string {{ return {json.dumps(n)} }}")
            elif k == "const":
                o.append(f"const {n} = 1")
            elif k == "local":
                o.append(f"func outer{n}() interface{{}} {{\n\ttype {n} struct{{}}\n\treturn {n}{{}}\n}}")
            elif k == "anchor":
                o.append("var Anchor int")
            else:
                raise ValueError(k)
        if self.extra:
            o.append(self.extra)
        if self.broken:
            o.append("var broken int = \"not an int\"")
        return "\n".join(o) + "\n"

    def model(self):
        return dict(cond=dict(k=self.cond[0], t=self.cond[1]),
                    decls=[dict(k={"group": "struct", "alias": "struct", "empty": "struct", "embed": "struct", "funcsig": "func"}.get(k, k), n=n) for k, n in self.decls])


def req(n, static, plugin):
    note = f'hsCalls = append(hsCalls, "{n}"); ' if static else ""
    return {
        "OnLoad": f"func OnLoad(data interface{{}}) error {{ {note}return nil }}",
        "OnInit": f"func OnInit(v {'*hsvault.Vault' if static else 'interface{}'}) error {{ {note}return nil }}",
        "OnFree": f"func OnFree() {{ {note} }}",
        "Export": f"func Export() interface{{}} {{ {note}return nil }}",
        "Import": f"func Import() interface{{}} {{ {note}return nil }}",
        "Reloadable": f"func Reloadable() bool {{ {note}return true }}",
        "InvokeFunc": f"func InvokeFunc(name string, params ...interface{{}}) (interface{{}}, error) {{ {note}return invoke(name), nil }}",
    }[n]


class Raw:
    """Any other file."""

    def __init__(self, path, data="", link=None):
        *self.dir, self.name = path.split("/")
        self.data, self.link = data, link

    def path(self):
        return "/".join(self.dir + [self.name])

    def text(self, plugin):
        return self.data

    def model(self):
        return dict(cond=dict(k="off", t=""), decls=[])


def sha(b):
    return hashlib.sha1(b if isinstance(b, bytes) else b.encode()).hexdigest()[:12]


def scan_go(src):
    """Package name, import paths and the text without them, from Go source: a small lexer, independent of the tool."""
    i, n, toks = 0, len(src), []
    phase, depth, prev = "pkg", 0, None
    spans, imps, pkg = [], [], None

    if src.startswith("\ufeff"):
        src, n = src[1:], n - 1

    def skip(i):
        while i < n:
            if src[i] in " \t\r\n;":
                i += 1
            elif src.startswith("//", i):
                j = src.find("\n", i)
                i = n if j < 0 else j
            elif src.startswith("/*", i):
                j = src.find("*/", i + 2)
                i = n if j < 0 else j + 2
            else:
                break
        return i

    def word(i):
        j = i
        while j < n and (src[j].isalnum() or src[j] == "_"):
            j += 1
        return j
    i = skip(0)
    j = word(i)
    if src[i:j] != "package":
        return None
    i = skip(j)
    j = word(i)
    pkg = src[i:j]
    spans.append((i, j))
    i = skip(j)

    def spec(i):
        i = skip(i)
        j = word(i)
        if j > i:
            i = skip(j)
        elif src[i] == ".":
            i = skip(i + 1)
        q = src[i]
        if q not in "\"`":
            return None
        j = src.index(q, i + 1)
        imps.append(src[i + 1:j])
        spans.append((i, j + 1))
        return j + 1
    while True:
        j = word(i)
        if src[i:j] != "import":
            break
        i = skip(j)
        if i < n and src[i] == "(":
            i = skip(i + 1)
            while src[i] != ")":
                k = spec(i)
                if k is None:
                    return None
                i = skip(k)
            i += 1
        else:
            k = spec(i)
            if k is None:
                return None
            i = k
        i = skip(i)
    out, p = [], 0
    for a, b in spans:
        out.append(src[p:a])
        p = b
    out.append(src[p:])
    return pkg, imps, "\0".join(out)


def observe(root, rel):
    """A file of a package as it is on disk."""
    *d, name = rel.split("/")
    p = os.path.join(root, rel)
    try:
        with open(p, "rb") as f:
            data = f.read()
    except OSError:
        data = b"unreadable"
    r = dict(dir=d, name=name, raw=sha(data), go=False, pkg="", imps=[], rest="")
    if name.endswith(".go"):
        s = None
        try:
            s = scan_go(data.decode("utf-8", "surrogateescape"))
        except (IndexError, ValueError):
            pass
        r["go"] = True
        if s:
            r.update(pkg=s[0], imps=[x.split("/") for x in s[1]], rest=sha(s[2].encode("utf-8", "surrogateescape")))
        else:
            r.update(rest=r["raw"])
    return r


def walk(root):
    r = []
    for d, ds, fs in os.walk(root):
        for f in fs:
            r.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(r)


def listing(root, **kw):
    return [dict(dir=x["dir"], name=x["name"], raw=x["raw"], **kw) for x in (observe(root, f) for f in walk(root))]


class Plugin:
    def __init__(self, name, where="plug", pkg=None, static=False):
        self.name, self.where, self.static = name, where, static
        self.pkg = pkg or re.sub(r"\W", "_", name)
        self.files = []

    def rel(self):
        return self.where + "/" + self.name


HELP = "func invoke(name string) interface{} { %s }\n"


def base_plugin(p, req=REQUIRED, split=False, inc=False, calls=True):
    """The usual root files of a plugin."""
    s = p.static
    r = []
    body = 'return "' + p.name + '"'
    imps = []
    extra = HELP % body
    if s:
        extra = "var hsCalls []string\n\nfunc invoke(name string) interface{} {\n\tif name == \"calls\" {\n\t\treturn hsCalls\n\t}\n\treturn nil\n}\n"
    half = len(req) // 2 if split else len(req)
    r.append(F("plugin.go", p.pkg, imps, [("req", x) for x in req[:half]], extra=extra, static=s))
    if split:
        r.append(F("more.go", p.pkg, [], [("req", x) for x in req[half:]], static=s))
    return r


# ------------------------------------------------------------------------------------------------------------
# A world: one Go module in scratch space, in which one scenario runs

SHIM = r'''#!/bin/sh
# stand-in on PATH: snapshots the package that is compiled, pauses or fails where the scenario says so, then runs the real tool
tool=@TOOL@
what=$tool
[ $tool = go ] && what="go-$1"
n=$(ls @CTL@/n.$what.* 2>/dev/null | wc -l)
: > @CTL@/n.$what.$((n+1))
if [ "$what" = go-build ]; then
  d=$(pwd)
  if [ -e @CTL@/parent ]; then
    P=$(cat @CTL@/parent)
    for x in "$P"/*; do [ -d "$x" ] && ! grep -qxF "${x##*/}" @CTL@/before && d=$x; done
  fi
  rm -rf @CTL@/snap; echo "$d" > @CTL@/cwd; cp -a "$d" @CTL@/snap
fi
if [ -e @CTL@/fail.$what ] || [ -e @CTL@/fail.$what.$((n+1)) ]; then echo "arranged failure of $what" >&2; exit 1; fi
if [ -e @CTL@/torn.$what ]; then
  out= last=
  for a; do [ "$last" = -o ] && out=$a; last=$a; done
  [ -n "$out" ] && echo torn > "$out"
  echo "arranged failure of $what" >&2
  exit 1
fi
if [ -e @CTL@/pause.$what.$((n+1)) ]; then
  : > @CTL@/paused
  i=0
  while [ ! -e @CTL@/resume ] && [ $i -lt 600 ]; do sleep 0.05; i=$((i+1)); done
fi
[ -e @CTL@/paused ] && [ -e @CTL@/die.$what ] && exit 1
if [ -e @CTL@/late.$what.$((n+1)) ]; then
  @REAL@ "$@"
  rc=$?
  : > @CTL@/paused
  i=0
  while [ ! -e @CTL@/resume ] && [ $i -lt 600 ]; do sleep 0.05; i=$((i+1)); done
  exit $rc
fi
exec @REAL@ "$@"
'''


class Tools:
    cli = host = clock = None    # clock: the tool with a clock that can be set
    lock = threading.Lock()


class World:
    def __init__(self, id, static=False, path=None, date=None):
        self.id, self.static = id, static
        self.root = sub("cli/" + re.sub(r"\W", "_", id))
        self.mod = self.root + "/m"
        self.ctl = self.root + "/ctl"
        self.bin = self.root + "/bin"
        self.dout = self.root + "/out"
        self.sdir = self.mod + "/sp"
        for d in (self.mod, self.ctl, self.bin, self.root + "/home", self.root + "/tmp"):
            os.makedirs(d, exist_ok=True)
        self.path = path or "example.com/" + re.sub(r"\W", "_", id)
        env = goenv()
        if static:
            src = open(os.path.join(VERIF, "harness/go.mod")).read()
            src = src.replace("module verif/harness", "module " + self.path).replace("=> /repo", "=> " + REPO)
            open(self.mod + "/go.mod", "w").write(src)
            shutil.copy(os.path.join(VERIF, "harness/go.sum"), self.mod + "/go.sum")
        else:
            open(self.mod + "/go.mod", "w").write(f"module {self.path}\n\ngo 1.18\n")
        self.shims()
        self.env = goenv(GIT_CONFIG_GLOBAL="/dev/null", GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@v", GIT_COMMITTER_NAME="v",
                         GIT_COMMITTER_EMAIL="v@v", TMPDIR=self.root + "/tmp")
        if date:
            self.env.update(GIT_COMMITTER_DATE=date, GIT_AUTHOR_DATE=date)
        self.env["PATH"] = self.bin + ":" + self.env["PATH"]
        self.env.pop("hotswap:checkRequiredPluginFuncs", None)
        self.genv = dict(self.env, PATH=goenv()["PATH"])
        self.plugins, self.ev, self.builds, self.ncommit, self.autocommit = {}, [], [], 0, True
        self.inner = False
        subprocess.run(["git", "init", "-q", "."], cwd=self.mod, env=self.genv, check=True)
        self.commit()

    def shims(self):
        for t in ("go", "git", "gofmt"):
            s = SHIM.replace("@TOOL@", t).replace("@CTL@", self.ctl).replace("@REAL@", shutil.which(t, path=goenv()["PATH"]))
            open(self.bin + "/" + t, "w").write(s)
            os.chmod(self.bin + "/" + t, 0o755)

    def beside(self):
        """The same world, for running the tool while a build in it stands still."""
        w = copy.copy(self)
        w.ctl, w.bin, w.inner, w.autocommit = self.ctl + "2", self.bin + "2", True, False
        os.makedirs(w.ctl, exist_ok=True)
        os.makedirs(w.bin, exist_ok=True)
        w.shims()
        w.env = dict(self.env, PATH=w.bin + ":" + self.genv["PATH"])
        return w

    def commit(self, n=1):
        self.ncommit += n
        subprocess.run(["git", "commit", "-q", "--allow-empty", "-m", str(self.ncommit)], cwd=self.mod, env=self.genv, check=True)

    def hdr(self):
        return dict(base=[dict(p=p.name, path=(self.path + "/" + p.rel()).split("/")) for p in self.plugins.values()])

    def write(self, rel, text):
        p = os.path.join(self.mod, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    def own(self, p):
        return self.path + "/" + p.rel()

    def source(self, p, files):
        """(Re)places the user's files of a plugin; what was generated stays."""
        self.plugins[p.name] = p
        root = os.path.join(self.mod, p.rel())
        for f in p.files:
            try:
                os.remove(os.path.join(root, f.path()))
            except OSError:
                pass
        os.makedirs(root, exist_ok=True)
        p.files = files
        ms = []
        for f in files:
            path = os.path.join(root, f.path())
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if getattr(f, "link", None):
                os.symlink(f.link, path)
            else:
                t = f.text(p)
                with open(path, "wb") as h:
                    h.write(t if isinstance(t, bytes) else t.replace("@OWN@", self.own(p)).replace("@MOD@", self.path).encode())
            o = observe(root, f.path())
            o.update(f.model())
            ms.append(o)
        self.ev.append(dict(e="src", p=p.name, files=ms))

    def outfiles(self, files):
        os.makedirs(self.dout, exist_ok=True)
        for n, t in files.items():
            open(os.path.join(self.dout, n), "w").write(t)
        self.ev.append(dict(e="out", files=self.outlist()))

    def outlist(self):
        return [dict(name="/".join(x["dir"] + [x["name"]]), raw=x["raw"]) for x in listing(self.dout)] if os.path.isdir(self.dout) else []

    def sfiles(self, files):
        os.makedirs(self.sdir, exist_ok=True)
        for n, t in files.items():
            p = os.path.join(self.sdir, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        self.mine = getattr(self, "mine", set()) | {tuple(n.split("/")) for n in files}
        self.ev.append(dict(e="sout", files=[f for f in listing(self.sdir) if (*f["dir"], f["name"]) in self.mine]))

    # -- running the tool

    def reset(self):
        for f in os.listdir(self.ctl):
            p = os.path.join(self.ctl, f)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)

    def flag(self, name):
        open(os.path.join(self.ctl, name), "w").close()

    def tool(self, args, cwd=None, sig=None, group=False, timeout=120, fifo=None, plan=None, clock=None):
        """-> exit status, output. sig: sent once a stand-in pauses, or once the tool reads the named pipe fifo.
        plan: what to do then instead: "resume", signals (signal, group), times to wait, and functions to call."""
        fd, self.missed = [], []

        def ready():
            if not fifo:
                return os.path.exists(self.ctl + "/paused")
            try:
                fd.append(os.open(fifo, os.O_WRONLY | os.O_NONBLOCK))
            except OSError:
                return False
            return True
        out = self.root + "/log"
        with open(out, "wb") as lf:
            p = subprocess.Popen([Tools.clock if clock else Tools.cli, *args], cwd=cwd or self.mod, env=dict(self.env, HS_CLOCK=str(clock)) if clock else self.env, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                 start_new_session=True)
            self.twice = False
            if plan is None and (sig or fifo):
                plan = []
                for x in (sig if isinstance(sig, list) else [sig] if sig else []):
                    plan += [(x, group), 0.3]
                plan.append("resume")
            if plan:
                t = time.time()
                while not ready() and p.poll() is None and time.time() - t < 60:
                    time.sleep(0.01)
                for a in plan:
                    if a == "resume":
                        self.flag("resume")
                        if fd:
                            try:
                                os.write(fd[0], b"package sub\n" if fifo.endswith(".go") else b"x")
                            except BrokenPipeError:
                                pass
                            os.close(fd.pop())
                    elif isinstance(a, float):
                        time.sleep(a)
                    elif callable(a):
                        if p.poll() is None:
                            a()
                        else:
                            self.missed.append(a)
                    elif p.poll() is None:
                        try:
                            os.killpg(p.pid, a[0]) if a[1] else os.kill(p.pid, a[0])
                        except ProcessLookupError:
                            pass
                self.flag("resume")
                if fd:
                    os.close(fd.pop())
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        txt = open(out, "rb").read().decode("utf-8", "replace")
        self.killed = rc is not None and rc < 0
        return -1 if rc is None else 1 if rc else 0, txt

    @staticmethod
    def named(txt):
        return [r for r in REQUIRED if re.search(r"\b" + r + r"\b", txt)]

    def opts(self, prefix="live_", tags=(), inc=(), exc=(), leave=False, gobuild=True, defprefix=True, **kw):
        return dict(prefix=prefix, tags=list(tags), inc=list(inc), exc=list(exc), leave=leave, gobuild=gobuild)

    @staticmethod
    def rex(ps):
        r = []
        for p in ps:
            q = re.escape(p["s"]).replace("/", "/")
            r.append({"all": ".*", "suffix": q + "$", "prefix": "^" + q, "sub": q, "exact": "^" + q + "$"}[p["k"]])
        return "|".join(r)

    def flags(self, o, order=0):
        f = []
        if o["prefix"] != "live_" or order % 2:
            f += ["--livePrefix", o["prefix"]] if order % 3 else ["--livePrefix=" + o["prefix"]]
        if o["inc"]:
            f += ["--include", self.rex(o["inc"])]
        if o["exc"]:
            f += ["--exclude", self.rex(o["exc"])]
        if o["leave"]:
            f += ["--leaveTemps"]
        if not o["gobuild"]:
            f += ["--goBuild=false"]
        return f

    def dyn(self, p, fault="none", sig="none", group=False, pause=None, fail=None, die=None, relative=True, verbose=False, outdir=None, cwd=None,
            extra=(), fifo=None, plan=None, stay=False, clock=None, **kw):
        o = self.opts(**kw)
        if self.autocommit and self.builds:
            self.commit()       # so that no two builds have the same commit and second
        self.reset()
        pdir = os.path.join(self.mod, p.rel())
        parent = os.path.dirname(pdir)
        before = {x: os.stat(os.path.join(parent, x)).st_ino for x in os.listdir(parent)}
        with open(self.ctl + "/before", "w", encoding="utf-8") as f:
            f.write("\n".join(before) + "\n")
        with open(self.ctl + "/parent", "w", encoding="utf-8") as f:
            f.write(parent)
        if fail:
            self.flag(fail if fail.startswith("torn.") else "fail." + fail)
        if pause:
            self.flag(pause if pause.startswith("late.") else "pause." + pause)
        if die:
            die = die.split(".")[0]
            self.flag("die." + die)
        args = ["build"] + self.flags(o, len(self.ev)) + list(extra)
        if verbose:
            args.append("-v")
        cwd = cwd or self.mod
        args += [os.path.relpath(pdir, cwd) if relative else pdir, outdir or (os.path.relpath(self.dout, cwd) if relative else self.dout)]
        if o["tags"]:
            args += ["--", "-tags", ",".join(o["tags"])]
        signo = {"INT": signal.SIGINT, "TERM": signal.SIGTERM, "none": None, "INT2": [signal.SIGINT, signal.SIGINT]}[sig]
        hide = set()
        if self.inner:      # what the build that stands still has in the output directory
            known = {x["name"] for e in self.ev if e["e"] in ("dyn", "out") for x in e["out" if e["e"] == "dyn" else "files"]}
            hide = {x["name"] for x in self.outlist()} - known
        t = t0 = time.time()
        ncommit, nbuilds = self.ncommit, len(self.builds)
        if clock:
            t = clock
        if fifo:
            fifo = os.path.join(pdir, fifo)
            os.mkfifo(fifo)
        rc, txt = self.tool(args, cwd=cwd, sig=signo, group=group, fifo=fifo, plan=plan, clock=clock)
        t2 = t + time.time() - t0
        if fifo:
            os.remove(fifo)
        temps = [x for x in os.listdir(parent) if before.get(x) != os.stat(os.path.join(parent, x)).st_ino]
        if plan and self.killed and len([a for a in plan if isinstance(a, tuple)]) > 1:
            sig = "twice"
        snap, tmp = None, []
        if os.path.isdir(self.ctl + "/snap"):
            snap = self.ctl + "/snap"
            cwdf = open(self.ctl + "/cwd").read().strip()
            tmp = (self.path + "/" + os.path.relpath(os.path.realpath(cwdf), os.path.realpath(self.mod))).split("/")
        elif len(temps) == 1 and not o["gobuild"]:
            snap = os.path.join(parent, temps[0])
            tmp = (self.path + "/" + os.path.relpath(snap, self.mod)).split("/")
        files = [observe(snap, f) for f in walk(snap)] if snap and rc == 0 or snap and fault == "none" else []
        ev = dict(e="dyn", p=p.name, o=o, fault=fault, sig=sig, exit=rc, named=self.named(txt), after=listing(pdir), out=[x for x in self.outlist() if x["name"] not in hide],
                  temps=len(temps), snap=dict(ok=bool(snap), files=files), tmp=tmp, commit=ncommit, inner=self.inner, over=list(range(nbuilds + 1, len(self.builds) + 1)), t=int(t), t2=int(t2), log=txt[-1500:])
        so = os.path.join(self.dout, p.name + ".so")
        if rc == 0 and o["gobuild"] and os.path.exists(so):
            keep = f"{self.root}/v{len(self.builds) + 1}.so"
            shutil.copy(so, keep)
            ev["so"] = keep
        self.builds.append(ev)
        self.ev.append(ev)
        for x in temps:
            if stay:
                self.write(os.path.relpath(os.path.join(parent, x, "sub/stale.go"), self.mod), "package sub\n\nfunc live_stale() {}\n")
            else:
                shutil.rmtree(os.path.join(parent, x), ignore_errors=True)
        for f in self.missed:   # the build ended before it was to stand still
            f()
        return ev

    def sta(self, p, op="build", fault="none", fail=None, relative=True, verbose=False, pause=None, plan=None, **kw):
        o = self.opts(**kw)
        self.reset()
        if pause:
            self.flag("pause." + pause)
        if fail:
            self.flag("fail." + fail)
        args = ["build", "--staticLinking"] + self.flags(o, len(self.ev)) + (["--clean"] if op == "clean" else []) + (["-v"] if verbose else [])
        pdir = os.path.join(self.mod, p.rel())
        args += [os.path.relpath(pdir, self.mod), os.path.relpath(self.sdir, self.mod)] if relative else [pdir, self.sdir]
        if o["tags"]:
            args += ["--", "-tags", ",".join(o["tags"])]
        rc, txt = self.tool(args, plan=plan)
        fs = listing(self.sdir, w="out")
        for q in self.plugins.values():
            fs += listing(os.path.join(self.mod, q.rel()), w=q.name)
        ev = dict(e="sta", p=p.name, op=op, o=o, fault=fault, exit=rc, named=self.named(txt), fs=fs, log=txt[-1500:])
        self.ev.append(ev)
        return ev

    # -- what was built

    def load(self, side=()):
        """Loads every plugin built so far into one process. side: numbers of builds whose state is counted up, in this order."""
        todo, seen = [], set()
        for i, b in enumerate(self.builds):
            if "so" in b and tuple(b["tmp"]) not in seen:     # builds of one commit in one second are the same plugin
                seen.add(tuple(b["tmp"]))
                todo.append((i + 1, b["so"]))
        if not todo:
            return
        spec = dict(files=[f for _, f in todo], side=[[n for n, (i, _) in enumerate(todo) if i == s][0] for s in side])
        rc, txt = run([Tools.host, json.dumps(spec)], timeout=120, env=self.genv, cwd=self.root)
        m = re.search(r"^RESULT (.*)$", txt, re.M)
        res = json.loads(m.group(1)) if m else None
        for n, (i, f) in enumerate(todo):
            r = res["plugins"][n] if res else dict(ok=False, err=txt[-800:])
            reg, where = [], []
            for x in r.get("reg") or []:
                d = x["id"].rsplit(":", 1)[0]
                if d == "@":
                    d = "/".join(x["pkg"].split("/")[len(self.builds[i - 1]["tmp"]):])
                reg.append(dict(k=x["k"], n=x["n"], dir=[] if d in (".", "") else d.split("/")))
                if x["id"] and x["id"].rsplit(":", 1)[-1] != x["n"]:
                    reg[-1]["dir"] = ["WRONG", x["id"]]
                if x["pkg"]:
                    where.append(x["pkg"].split("/"))
            self.ev.append(dict(e="load", b=i, ok=r["ok"], reg=reg, where=where, err=r.get("err", "")))
        if side:
            cnt = []
            for i in sorted(set(side)):
                n = [m for m, (j, _) in enumerate(todo) if j == i][0]
                cnt.append(dict(b=i, calls=list(side).count(i), got=(res or {}).get("side", {}).get(str(n), -1)))
            self.ev.append(dict(e="side", cnt=cnt))
        for _, f in todo:
            pass

    def drive(self):
        """Compiles the output package of static linking into a program that loads its plugins."""
        self.write("drv/main.go", DRIVER.replace("@SP@", self.path + "/sp"))
        exe = self.root + "/drv"
        rc, txt = run(["go", "run", "./drv"], cwd=self.mod, env=self.genv, timeout=300)
        m = re.search(r"^RESULT (.*)$", txt, re.M)
        reg = []
        for r in (json.loads(m.group(1)) or []) if m else []:
            live = []
            for x in r["live"] or []:
                d = x["id"].rsplit(":", 1)[0]
                if d == "@":
                    q = self.plugins.get(r["key"])
                    d = x["pkg"][len(self.path + "/" + q.rel()) + 1:] if q else "?"
                live.append(dict(k=x["k"], n=x["n"], dir=[] if d in (".", "") else d.split("/")))
                if x["id"] and x["id"].rsplit(":", 1)[-1] != x["n"]:
                    live[-1]["dir"] = ["WRONG", x["id"]]
            reg.append(dict(p=r["key"], name=r["name"], live=live, wrong=r["wrong"] or []))
        shutil.rmtree(self.mod + "/drv", ignore_errors=True)
        self.ev.append(dict(e="drive", ok=bool(m), reg=reg, err="" if m else txt[-1500:]))

    def trace(self):
        ev = []
        for e in self.ev:
            ev.append({k: v for k, v in e.items() if k not in ("so",)})
        return dict(id=self.id, hdr=self.hdr(), ev=ev)

    def close(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.root], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.root, ignore_errors=True)


LISTING = r'''
type item struct {
	K   string `json:"k"`
	N   string `json:"n"`
	ID  string `json:"id"`
	Pkg string `json:"pkg"`
}

func list(fs map[string]interface{}, ts map[string]func() interface{}) []item {
	var a []item
	for n, f := range fs {
		it := item{K: "func", N: n}
		v := reflect.ValueOf(f)
		if v.Kind() == reflect.Func && !v.IsNil() {
			name := runtime.FuncForPC(v.Pointer()).Name()
			if g, ok := f.(func() string); ok {
				it.ID = g()
			} else {
				it.ID = "@:" + name[strings.LastIndex(name, ".")+1:]
			}
			if i := strings.LastIndex(name, "."); i > 0 && strings.Contains(name, "/") && !strings.HasPrefix(name, "plugin/") {
				it.Pkg = unescape(name[:i])
			}
		} else {
			it.ID = "?:not a function"
		}
		a = append(a, it)
	}
	for n, f := range ts {
		it := item{K: "type", N: n, ID: "?:not a type"}
		t := reflect.TypeOf(f())
		if u := f(); t != nil && t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct && !reflect.ValueOf(u).IsNil() {
			if fd, ok := t.Elem().FieldByName("A"); ok {
				it.ID = fd.Tag.Get("id")
			} else if t.Elem().NumField() == 0 {
				it.ID = "@:" + t.Elem().Name()
			}
			if p := t.Elem().PkgPath(); strings.Contains(p, "/") && !strings.HasPrefix(p, "plugin/") {
				it.Pkg = p
			}
			if f() == u && t.Elem().Size() > 0 {
				it.ID = "?:the same object twice"
			}
		}
		a = append(a, it)
	}
	sort.Slice(a, func(i, j int) bool { return a[i].K+a[i].N < a[j].K+a[j].N })
	return a
}

func unescape(s string) string { return strings.ReplaceAll(s, "%2e", ".") }
'''

HOST = r'''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"plugin"
	"reflect"
	"runtime"
	"sort"
	"strings"
)
''' + LISTING + r'''
type result struct {
	OK  bool   `json:"ok"`
	Err string `json:"err"`
	Reg []item `json:"reg"`
}

func one(file string) (r result, pl *plugin.Plugin) {
	defer func() {
		if x := recover(); x != nil {
			r = result{Err: fmt.Sprint(x)}
		}
	}()
	p, err := plugin.Open(file)
	if err != nil {
		return result{Err: err.Error()}, nil
	}
	a, err := p.Lookup("HotswapLiveFuncs")
	if err != nil {
		return result{Err: err.Error()}, nil
	}
	b, err := p.Lookup("HotswapLiveTypes")
	if err != nil {
		return result{Err: err.Error()}, nil
	}
	for _, n := range []string{"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable"} {
		if _, err := p.Lookup(n); err != nil {
			return result{Err: err.Error()}, nil
		}
	}
	return result{OK: true, Reg: list(a.(func() map[string]interface{})(), b.(func() map[string]func() interface{})())}, p
}

func main() {
	var in struct {
		Files []string
		Side  []int
	}
	if err := json.Unmarshal([]byte(os.Args[1]), &in); err != nil {
		panic(err)
	}
	var out struct {
		Plugins []result       `json:"plugins"`
		Side    map[string]int `json:"side"`
	}
	out.Side = map[string]int{}
	var pls []*plugin.Plugin
	for _, f := range in.Files {
		r, p := one(f)
		out.Plugins = append(out.Plugins, r)
		pls = append(pls, p)
	}
	for _, n := range in.Side {
		if pls[n] == nil {
			continue
		}
		f, _ := pls[n].Lookup("InvokeFunc")
		v, _ := f.(func(string, ...interface{}) (interface{}, error))("inc")
		if x, ok := v.(int); ok {
			out.Side[fmt.Sprint(n)] = x
		}
	}
	b, _ := json.Marshal(out)
	fmt.Printf("\nRESULT %s\n", b)
}
'''

DRIVER = r'''package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/slog"
	sp "@SP@"
)
''' + LISTING + r'''
type result struct {
	Key   string   `json:"key"`
	Name  string   `json:"name"`
	Live  []item   `json:"live"`
	Wrong []string `json:"wrong"`
}

func main() {
	var out []result
	for k, p := range sp.HotswapStaticPlugins {
		r := result{Key: k, Name: p.Name}
		sw := hotswap.NewPluginManagerSwapper("", hotswap.WithLogger(slog.NewDumbLogger()),
			hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{k: p}))
		if _, err := sw.LoadPlugins(nil); err != nil {
			r.Wrong = append(r.Wrong, err.Error())
			out = append(out, r)
			continue
		}
		m := sw.Current()
		r.Live = list(m.LiveFuncs, m.LiveTypes)
		pl := m.FindPlugin(k)
		if pl == nil {
			r.Wrong = append(r.Wrong, "not found")
			out = append(out, r)
			continue
		}
		v, err := pl.InvokeFunc("calls")
		calls, _ := v.([]string)
		at := map[string][]int{}
		for i, c := range calls {
			at[c] = append(at[c], i)
		}
		for _, c := range []string{"Export", "Import", "OnLoad", "OnInit", "InvokeFunc"} {
			if len(at[c]) != 1 {
				r.Wrong = append(r.Wrong, fmt.Sprint(c, " called ", len(at[c]), " times"))
			}
		}
		if len(r.Wrong) == 0 && (at["Export"][0] > at["Import"][0] || at["OnLoad"][0] > at["OnInit"][0]) || len(at["OnFree"]) > 0 || err != nil {
			r.Wrong = append(r.Wrong, fmt.Sprint("calls: ", calls, err))
		}
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	b, _ := json.Marshal(out)
	fmt.Printf("\nRESULT %s\n", b)
}
'''


CLOCK = '''
var verifClock struct {
	once sync.Once
	off  Duration
}

// Now is the time of the clock that HS_CLOCK (seconds since 1970) sets when the program starts.
func Now() Time {
	verifClock.once.Do(func() {
		s, _ := syscall.Getenv("HS_CLOCK")
		n := int64(0)
		for _, c := range []byte(s) {
			n = n*10 + int64(c-'0')
		}
		if n != 0 {
			verifClock.off = Duration(n-realNow().Unix()) * Second
		}
	})
	if verifClock.off == 0 {
		return realNow()
	}
	return realNow().Round(0).Add(verifClock.off)
}

func realNow() Time {'''


def prepare(clock=False):
    env = goenv()
    d = sub("clibuild")

    def build_clock():
        std = env["GOROOT"] + "/src/time/time.go"
        src = open(std, encoding="utf-8").read()
        if src.count("//go:linkname Now\n") != 1 or src.count("\nfunc Now() Time {") != 1:
            raise Trouble("time.Now is not as expected")
        src = src.replace("//go:linkname Now\n", "").replace("\nfunc Now() Time {", CLOCK)
        src = src.replace('\nimport (\n', '\nimport (\n\t"sync"\n\t"syscall"\n', 1)
        open(d + "/time.go", "w", encoding="utf-8").write(src)
        json.dump({"Replace": {std: d + "/time.go"}}, open(d + "/clock.json", "w"))
        rc, out = run(["go", "build", "-overlay", d + "/clock.json", "-o", d + "/hotswapclock", "./cli/hotswap"], cwd=REPO, env=env, timeout=700)
        if rc:
            raise Trouble("the tool does not build with a clock of its own:\n" + out[-3000:])
        Tools.clock = d + "/hotswapclock"

    def build_cli():
        exe = d + "/hotswap"
        rc, out = run(["go", "build", "-o", exe, "./cli/hotswap"], cwd=REPO, env=env, timeout=700)
        if rc:
            raise Trouble("the tool does not build:\n" + out[-3000:])
        Tools.cli = exe

    def build_host():
        h = sub("clibuild/host")
        open(h + "/go.mod", "w").write("module host\n\ngo 1.18\n")
        open(h + "/main.go", "w").write(HOST)
        rc, out = run(["go", "build", "-trimpath", "-o", d + "/hostbin", "."], cwd=h, env=env, timeout=700)
        if rc:
            raise Trouble("the host does not build:\n" + out[-3000:])
        Tools.host = d + "/hostbin"
    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(f) for f in [build_cli, build_host] + [build_clock] * clock]:
            f.result()


def validate(traces, parts=2):
    import math
    d = sub("clitr")
    procs, outs = [], []
    k = max(1, math.ceil(len(traces) / parts))
    for i in range(0, len(traces), k):
        o = f"{d}/t{i}.jsonl"
        with open(o, "w", encoding="utf-8") as f:
            for n, t in enumerate(traces[i:i + k]):
                f.write(json.dumps(dict(t, n=i + n), ensure_ascii=False) + "\n")
        outs.append(o)
        procs.append(tlc("CliTrace.tla", "CliTrace.cfg", env=dict(TRACE=o), heap="3g"))
    bad, events = {}, 0
    for p in procs:
        txt = tlc_wait(p)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+), (\d+)>>', txt)
        if not m or m.group(1) != m.group(2):
            raise Trouble("TLC did not read the traces to their end:\n" + txt[-3000:])
        events += int(m.group(1))
        for b in re.finditer(r'<<"BAD", (\d+), (\d+), \{([^}]*)\}>>', txt):
            bad.setdefault(int(b.group(1)), []).append((int(b.group(2)), re.findall(r"C\d\d", b.group(3))))
    return bad, events


def check(prop):
    import cliscen, clidesign
    rep = Report(prop)
    hists = clidesign.Histories({k: v * (4 if TIER == "thorough" else 1) for k, v in clidesign.REPLAY[prop].items()}, SEED)
    design = clidesign.explore(prop, TIER)
    scens = cliscen.scenarios(prop, SEED, TIER) + hists.scenarios()
    prepare(clock=any(s.id.startswith("clock") for s in scens))

    def one(s):
        w = World(s.id, s.static)
        try:
            s.run(w)
            return w.trace()
        finally:
            w.close()
    with ThreadPoolExecutor(CPU) as ex:
        together = list(ex.map(one, [s for s in scens if not s.alone]))
    traces = together + [one(s) for s in scens if s.alone]
    bad, events = validate(traces)
    if prop == "C24" or TIER == "thorough" and prop == "C21":
        import e2e
        pool, more, _ = e2e.go(rep, SEED, 16 if TIER != "thorough" else 150)
        rep.add(real_plugins=dict(versions_built=len(pool.no) if not pool.failed else 0, scenarios=len(more), failed_builds=[f[:2] for f in pool.failed]))
    dd = clidesign.explored(design)
    rep.add(design_configurations=dd, histories_of_the_design_replayed=hists.n)
    if TIER == "thorough":
        rep.add(design_flaws_found={k: v["found"] for k, v in clidesign.flaws(CPU).items()})
    kinds = {}
    for t in traces:
        for e in t["ev"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    rep.add(traces_validated_against_impl=len(traces), states=events + 1 + sum(x["states"] for x in dd.values()),
            transitions=events + sum(x["transitions"] for x in dd.values()), events_by_kind=kinds, scenarios=len(scens))
    for n, t in enumerate(traces):
        for ev, props in bad.get(n, []):
            if prop in props:
                e = t["ev"][ev - 1]
                rep.violation(t["id"], f"scenario {t['id']}, event {ev}: " + json.dumps({k: v for k, v in e.items() if k in
                              ("e", "p", "op", "o", "fault", "sig", "exit", "named", "temps", "ok", "err", "reg", "log")}, ensure_ascii=False)[:600],
                              dict(property=prop, trace=t, event=ev, bad=bad[n]))
                break
    for t in traces[:: max(1, len(traces) // 3)][:3]:
        rep.sample(dict(scenario=t["id"], events=[{k: v for k, v in e.items() if k in ("e", "p", "op", "o", "exit", "fault", "sig", "temps", "ok")} for e in t["ev"][:10]]))
    rep.assume = ["the real tool, Go compiler and plugin loader run on generated modules; TLC judges what they did against spec/CliCore.tla",
                  "on the real tool signals are sent while an external tool runs (a stand-in on PATH holds it) or a moment after it ends; at every step of the design they are explored in spec/CliDesign.tla"]
    return rep
