"""What all engines share: environment, scratch space, running Go and TLC, findings, evidence."""
import atexit, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HS_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CPU = max(2, min(8, os.cpu_count() or 2))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


class Trouble(Exception):
    """The check itself does not work."""


def goenv(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", CGO_ENABLED="1",
             GOROOT="/opt/veriftools/go1.27.3", GOPATH="/root/go", GOCACHE="/root/.cache/go-build",
             GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="safe.directory", GIT_CONFIG_VALUE_0="*",
             LC_ALL="C.UTF-8")
    e["PATH"] = e["GOROOT"] + "/bin:" + "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.pop("GOOS", None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = "/tmp"
        try:
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize > (4 << 30) and os.access("/dev/shm", os.W_OK):
                base = "/dev/shm"
        except OSError:
            pass
        _scratch = tempfile.mkdtemp(prefix="hsverif-", dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(130))
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode("utf-8", "replace")


JARS = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar"), key=lambda j: "tla2tools" not in j))


def tlc(spec, cfg, env=None, workers=1, args=(), heap="2g", timeout=800, metadir=None, specdir=SPEC):
    """Starts TLC; returns the process, whose output goes to a file."""
    metadir = metadir or tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    out = os.path.join(metadir, "out.txt")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + metadir,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(metadir, "states"), "-noGenerateSpecTE",
           "-config", cfg, *args, spec]
    p = subprocess.Popen(cmd, cwd=specdir, env=e, stdout=open(out, "wb"), stderr=subprocess.STDOUT)
    p.hs_out, p.hs_t, p.hs_dir = out, time.time() + timeout, metadir
    return p


def tlc_wait(p):
    try:
        p.wait(max(1, p.hs_t - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Trouble("TLC ran out of time")
    return open(p.hs_out, encoding="utf-8", errors="replace").read()


def tlc_stats(out):
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out.split("Model checking completed")[-1])
    ms = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not ms:
        return 0, 0
    g, d = ms[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


# -------------------------------------------------------------------------------------------------------------
# findings

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(prop):
    """Lines 'known: property=C99 <key> | <what fails>' of the known-findings file."""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) (\S+) \| (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


class Report:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.viol = []          # (key, replay path, text)
        self.seen_known = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assume = []
        self.known = known(prop)
        self.rdir = os.path.join(VERIF, "evidence", "replay", prop)
        shutil.rmtree(self.rdir, ignore_errors=True)

    def violation(self, key, text, replay):
        """key identifies what failed; replay is an object that is stored for reproducing it."""
        if key in self.known:
            self.seen_known[key] = self.known[key]
            return
        os.makedirs(self.rdir, exist_ok=True)
        path = os.path.join(self.rdir, re.sub(r"[^\w.-]+", "_", key)[:80] + ".json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(replay, f, ensure_ascii=False, indent=1)
        self.viol.append((key, path, text))

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in self.cov:
                self.cov[k] += v
            else:
                self.cov[k] = v

    def sample(self, s, n=4):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(s)

    def finish(self):
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assume, wall_s=round(time.time() - T0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        os.replace(p + ".tmp", p)
        for k, v in sorted(self.seen_known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {v}")
        for key, path, text in self.viol[:20]:
            print(f"VIOLATION property={self.prop} replay={path}")
            print("   " + text)
        print(f"{self.prop}: {len(self.viol)} violation(s), {self.cov['traces_validated_against_impl']} traces of the code, "
              f"{self.cov['states']} states, {ev['wall_s']} s")
        return 1 if self.viol else 0
