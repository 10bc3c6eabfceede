#!/usr/bin/env python3
"""Self-test of the checks: applies one edit at a time to a scratch copy of /repo and runs checks on it.

    mut.py [-jN] [name substring ...]
Edits are in tools/mutations.py. The scratch copies are under /tmp/mut (remove them when done)."""
import os, shutil, subprocess, sys, importlib.util, threading, queue
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
spec = importlib.util.spec_from_file_location("mutations", here + "/mutations.py")
M = importlib.util.module_from_spec(spec); spec.loader.exec_module(M)
D = "/tmp/mut"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
J = next((int(a[2:]) for a in sys.argv[1:] if a.startswith("-j")), 6)
allprops = sorted(f[:3].upper() for f in os.listdir(f"{V}/checks") if f.startswith("c") and f.endswith(".py"))
todo = queue.Queue()
for m in M.MUTATIONS:
    if args and not any(a in m["name"] or a in m["props"] for a in args): continue
    todo.put(m)
J = min(J, todo.qsize())
bad = []
out = threading.Lock()


def worker(i):
    d = f"{D}/{i}"
    if os.path.exists(f"{d}/repo"): shutil.rmtree(f"{d}/repo")
    os.makedirs(d, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", f"{d}/repo"], check=True)
    if not os.path.exists(f"{d}/work"):
        subprocess.run(["cp", "-a", f"{V}/work", f"{d}/work"], check=True)
    env = dict(os.environ, KHV_REPO=f"{d}/repo", KHV_WORK=f"{d}/work", KHV_EVIDENCE=f"{d}/evidence")
    while True:
        try: m = todo.get_nowait()
        except queue.Empty: return
        saved = {}
        try:
            for f, old, new in m["edits"]:
                p = f"{d}/repo/{f}"
                s = open(p).read()
                saved.setdefault(p, s)
                if old not in s:
                    with out: print(f"BAD {m['name']}: TEXT NOT FOUND in {f}: {old[:60]!r}", flush=True); bad.append(m["name"])
                    break
                n = m.get("nth")
                if n:
                    k = -1
                    for _ in range(n): k = s.index(old, k + 1)
                    s = s[:k] + new + s[k + len(old):]
                else:
                    s = s.replace(old, new, 1)
                open(p, "w").write(s)
            else:
                props = m["props"] if m["expect"] == "catch" else allprops
                for pr in [p for p in props if os.path.exists(f"{V}/checks/{p.lower()}.py")]:
                    r = subprocess.run(["timeout", "400", "python3", f"{V}/check.py", pr], env=env, capture_output=True, text=True)
                    caught = r.returncode == 1
                    good = caught == (m["expect"] == "catch")
                    if r.returncode not in (0, 1): good = False
                    keys = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ") and not l.startswith("      ")]
                    if any(k.startswith(("anchor:", "engine:", "floor:")) for k in keys) and m["expect"] == "catch": keys.append("(STRUCTURAL)")
                    with out:
                        print(f"{'ok ' if good else 'BAD'} {m['name']} {pr} rc={r.returncode} {keys[:4]}", flush=True)
                        if not good:
                            bad.append(m["name"])
                            if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-1500:])
                            elif m["expect"] == "quiet": print(r.stdout[-1500:])
        finally:
            for p, s in saved.items(): open(p, "w").write(s)


ts = [threading.Thread(target=worker, args=(i,)) for i in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
print(f"{len(bad)} bad: {bad}")
sys.exit(1 if bad else 0)
