"""Makes and confirms the planted bugs of seeds_*.py: seedtool.py [-f] [id...]. Each is confirmed in a scratch copy of /repo that is
mounted at /repo in a mount namespace of its own: demo passes without the patch; with it the code builds, the stable tests pass, the demo fails."""
import importlib, json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")


def defs():
    r = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeds_*.py"))):
        r.update(importlib.import_module(os.path.basename(f)[:-3]).SEEDS)
    return r


def make(id, d, full=True):
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo, out = work + "/repo", work + "/out"
        subprocess.check_call(["cp", "-a", "/repo", repo])
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        os.mkdir(out)
        kit = os.path.join(HERE, d.get("kit", "seedkit"))
        for f in os.listdir(kit):
            shutil.copy(os.path.join(kit, f), out)
        for name, txt in d["files"].items():
            with open(os.path.join(out, name), "w") as f:
                f.write(txt)
            if name.endswith(".sh"):
                os.chmod(os.path.join(out, name), 0o755)
        for file, old, new in d["edits"]:
            p = os.path.join(repo, file)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{id}: {file}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        bad = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; gofmt -l *.go cli internal vault; "], cwd=repo, capture_output=True, text=True).stdout
        diff = subprocess.check_output(["git", "-C", repo, "diff"]).decode()
        open(out + "/patch.diff", "w").write(diff)
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        with open(out + "/meta.json", "w") as f:
            json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), f, indent=1)
        sh = f"""
mount --bind {repo} /repo || exit 90
cd /repo
bash /opt/vp/build.sh > {work}/b0 2>&1 || exit 91
timeout 300 bash {out}/demo.sh > {work}/d0 2>&1 || exit 92
git -C /repo apply {out}/patch.diff || exit 93
bash /opt/vp/build.sh > {work}/b1 2>&1 || exit 94
timeout 300 bash {out}/demo.sh > {work}/d1 2>&1 && exit 95
"""
        if full:
            sh += f"bash /opt/vp/test.sh {work}/t.json > {work}/t.log 2>&1\n"
        rc = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True)
        def tail(f):
            try:
                return open(work + "/" + f).read()[-1500:]
            except OSError:
                return ""
        if rc.returncode >= 90:
            what = {90: "mount", 91: "build", 92: "demo fails on the unchanged tree", 93: "apply", 94: "patched build", 95: "demo passes with the patch"}[rc.returncode]
            return f"{id}: {what}\n" + rc.stderr[-500:] + tail({91: "b0", 92: "d0", 94: "b1", 95: "d1"}.get(rc.returncode, "x"))
        if full:
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]["passed"] if isinstance(json.load(open("/opt/vp/BASELINE.json"))["stable"], dict) else json.load(open("/opt/vp/BASELINE.json"))["stable"]
            t = json.load(open(work + "/t.json"))
            passed = t["passed"] if "passed" in t else [k for k, v in t.items() if v == "passed"]
            miss = [x for x in base if x not in passed]
            if miss:
                return f"{id}: breaks existing tests: {miss}" + tail("t.log")
        dst = os.path.join(SEEDED, id)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return f"{id}: ok" + (" (gofmt: " + bad + ")" if bad else "") + "\n      demo: " + " / ".join([l for l in tail("d1").splitlines() if "demo_test.go" in l or "panic:" in l or "DEMO" in l][:3])
    finally:
        subprocess.run(["chmod", "-R", "u+w", work], capture_output=True)
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    full = "-n" not in sys.argv
    D = defs()
    todo = [i for i in D if (i in args if args else not os.path.exists(os.path.join(SEEDED, i)))]
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for r in ex.map(lambda i: make(i, D[i], full), todo):
            print(r, flush=True)
