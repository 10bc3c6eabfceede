"""mkseed.py DEF.py...: makes /verif/seeded/<id>/ from a definition (ID, PROP, NEEDS, BREAKS, EDITS, and DEMO / CORE / BEEKEM sources)
and confirms it: builds, stable tests pass, the demonstration passes without and fails with the change, and which checks catch it."""
import json, os, shutil, subprocess, sys
V, R = "/verif", "/repo"
sys.path.insert(0, V + "/tools")
import claims


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean(): sh(f"git -C {R} checkout -- .")


def demo(d, tgt):
    e = dict(os.environ, DEMO_TARGET=tgt)
    return sh(f"bash {d}/demo.sh", cwd=R, env=e)


for f in sys.argv[1:]:
    if f.startswith("-"): continue
    g = {}
    exec(open(f).read(), g)
    d = f"{V}/seeded/{g['ID']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copy(f"{V}/tools/demo/run.sh", f"{d}/demo.sh"); shutil.copy(f"{V}/tools/demo/Cargo.lock.demo", d)
    for k, n in (("DEMO", "demo.rs"), ("CORE", "core.append"), ("BEEKEM", "beekem.append")):
        if k in g: open(f"{d}/{n}", "w").write(g[k])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    bad = []
    try:
        assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo dirty"
        r = demo(d, "/tmp/wbt")
        if r.returncode: bad.append("demo fails on the clean tree: " + (r.stdout + r.stderr)[-1800:])
        for p, old, new in g["EDITS"]:
            s = open(f"{R}/{p}").read()
            if s.count(old) != 1: bad.append(f"{p}: {s.count(old)} matches of {old[:80]!r}"); continue
            open(f"{R}/{p}", "w").write(s.replace(old, new))
        if bad: print(g["ID"], "FAILED", *bad, sep="\n  "); continue
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        # removed lines must be original ones
        B = sh(f"git -C {R} log --format=%H --grep='^base$'").stdout.split()[0]
        for p in {e[0] for e in g["EDITS"]}:
            orig = set(sh(f"git -C {R} show {B}:{p}").stdout.splitlines())
            gone = [l[1:] for l in sh(f"git -C {R} diff -- {p}").stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            own = [l for l in gone if l not in orig]
            if own: bad.append(f"{p}: changes lines of our own: {own[:3]}")
            if not gone: bad.append(f"{p}: note: no original line removed (insertion only)")
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: bad.append("build: " + (r.stdout + r.stderr)[-1500:])
        sh("bash /opt/vp/test.sh /tmp/out.json")
        b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/out.json"))
        miss = [t for t in b["stable"] if t not in o["passed"]]
        if miss: bad.append(f"tests fail: {miss[:5]}")
        r = demo(d, "/tmp/wbt")
        if r.returncode == 0: bad.append("demo passes with the change")
        else: print("   demo:", "\n   ".join((r.stdout + r.stderr).strip().splitlines()[-14:])[:900])
        for c in (claims.CLAIM if "--all" in sys.argv else [g["PROP"]]):
            if c not in claims.CLAIM and not os.path.exists(f"{V}/checks/{c.lower()}.py"): print("   no check for", c); continue
            r = sh(f"python3 {V}/check.py {c}", env=dict(os.environ, KHV_EVIDENCE="/tmp/ev"))
            print(f"   {c}: exit {r.returncode}", "; ".join(l.strip() for l in r.stdout.splitlines() if l.startswith("  "))[:700])
    finally:
        clean()
    print(g["ID"], "FAILED" if [x for x in bad if "note" not in x] else "ok", *bad, sep="\n  ")
