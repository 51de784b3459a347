"""Runs checks against planted bugs: seedrun.py [-a] [id...]; -a: the checks of all properties of that engine instead of the property's own."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for id in ids:
    d = f"{V}/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    work = tempfile.mkdtemp(prefix="run-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", work + "/repo"])
    subprocess.check_call(["git", "-C", work + "/repo", "apply", d + "/patch.diff"])
    n = int(meta["property"][1:])
    props = [meta["property"]] if "-a" not in sys.argv else [f"C{i:02d}" for i in (range(1, 21) if n <= 20 else range(21, 27))]
    for p in props:
        t = time.time()
        sh = f"""mount --bind {work}/repo /repo && mkdir -p {work}/ev && mount --bind {work}/ev {V}/evidence && cd {V} && bin/check {p}"""
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True)
        first = [l for l in r.stdout.splitlines() if l.startswith("   ")][:1]
        ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
        print(f"{'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode} {id} {p} {time.time()-t:.0f}s {first[0][:200] if first else r.stdout[-300:]+r.stderr[-300:]}", flush=True)
    subprocess.run(["chmod", "-R", "u+w", work], capture_output=True)
    shutil.rmtree(work, ignore_errors=True)
