"""python3 tools/blind.py FILE [id...]: bugs written from the properties and the code alone (tools/blind/*.py), tried
against the property's check in a scratch copy (development only).  A missed one is then run against the existing tests."""
import json, os, subprocess, sys
T = os.environ.get("PHX_BLIND", "/tmp/phx-blind")
R = T + "/repo"
if not os.path.isdir(R):
    os.makedirs(T, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", R])
    for f in ("build", "test"):
        s = open(f"/opt/vp/{f}.sh").read().replace("cd /repo", f"cd {R}").replace("/repo/target", f"{R}/target").replace("/opt/vp/build.sh", f"{T}/build.sh")
        open(f"{T}/{f}.sh", "w").write(s)
git = lambda *a: subprocess.check_call(["git", "-C", R, *a], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
git("fetch", "/repo", "HEAD"); git("checkout", "--", "."); git("checkout", "--detach", "FETCH_HEAD")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
log = open(T + "/log.txt", "a")
for d in ns["B"]:
    name, prop, edits = d[0], d[1], d[2]
    if only and name not in only:
        continue
    git("checkout", "--", ".")
    bad = None
    for f, old, new in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        if old not in s:
            bad = f"not found in {f}: {old[:60]!r}"
            break
        open(p, "w").write(s.replace(old, new, 1))
    if bad:
        print(f"{name}: {bad}", flush=True)
        continue
    env = dict(os.environ, PHX_REPO=R, VERIF_TIER="quick", VERIF_SEED=os.environ.get("SEED", "1"))
    r = subprocess.run([sys.executable, "-m", "phx.check", prop], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    lines = [l[:230] for l in r.stdout.split("\n") if "diverge" in l or l.startswith("ERROR") or l.startswith("note")]
    first = [l[:120] for l in r.stdout.split("\n") if "behaviours," in l]
    tests = ""
    if r.returncode != 1:
        subprocess.run(["bash", T + "/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["bash", T + "/test.sh", T + "/t.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            t = json.load(open(T + "/t.json"))
            tests = f" tests: {len(t['passed'])} pass, fail {t['failed'][:3]}"
        except Exception as e:
            tests = f" tests: {e}"
    msg = f"{'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR '} {prop} {name}: {(lines or first or ['?'])[0]}{tests}"
    if r.returncode == 2:
        msg += r.stdout[-600:]
    print(msg, flush=True)
    log.write(msg + "\n"); log.flush()
git("checkout", "--", ".")
