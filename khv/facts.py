"""Builds the fact extractor and extracts facts (MIR, ADTs, impls) of the current /repo tree.

Facts are cached by a hash of the source tree and of the extractor, so they always describe the
current working tree of /repo."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KHV_REPO", "/repo")
WORK = os.environ.get("KHV_WORK", os.path.join(VERIF, "work"))
LEFT_OUT = {"keyhive_wasm"}


class Broken(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise Broken(f"{' '.join(cmd)} failed in {cwd}")
    return p.stdout


def members():
    text = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
    ms = tomllib.loads(text)["workspace"]["members"]
    return text, [m for m in ms if m not in LEFT_OUT]


def tree_hash():
    h = hashlib.sha256()
    text, ms = members()
    h.update(text.encode())
    files = []
    for m in ms:
        for root, dirs, fs in os.walk(f"{REPO}/{m}"):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "node_modules", "pkg"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".md")):
                    files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    for f in (f"{VERIF}/driver/src/main.rs", f"{VERIF}/driver/Cargo.toml", f"{VERIF}/khv/Cargo.lock"):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24], len(files)


def mirror():
    ws = f"{WORK}/ws"
    os.makedirs(ws, exist_ok=True)
    text, ms = members()
    for x in LEFT_OUT:
        text = re.sub(r"^members\s*=\s*\[.*?\]",
                      lambda m: re.sub(rf'[ \t]*"{x}/?"[ \t]*,?[ \t]*\n?', "", m.group(0)), text, count=1, flags=re.M | re.S)
    for entry in list(os.scandir(ws)):
        if entry.is_symlink():
            os.unlink(entry.path)
    for m in ms:
        os.symlink(f"{REPO}/{m}", f"{ws}/{m}")
    with open(f"{ws}/Cargo.toml", "w", encoding="utf-8") as f:
        f.write(text)
    shutil.copyfile(f"{VERIF}/khv/Cargo.lock", f"{ws}/Cargo.lock")
    return ws, ms


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = f"{WORK}/driver"
    run(["cargo", "build", "--offline"], f"{VERIF}/driver", e)
    return f"{WORK}/driver/debug/khv-driver"


def extract():
    """Returns (facts_dir, info). Rebuilds what is missing."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(f"{WORK}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h, nfiles = tree_hash()
        out = f"{WORK}/facts/{h}"
        if not os.path.exists(f"{out}/DONE"):
            drv = build_driver()
            ws, ms = mirror()
            shutil.rmtree(f"{WORK}/facts", ignore_errors=True)
            os.makedirs(out)
            e = env()
            sysroot = run(["rustc", "--print", "sysroot"], WORK, e).strip()
            e["LD_LIBRARY_PATH"] = f"{sysroot}/lib"
            e["CARGO_TARGET_DIR"] = f"{WORK}/target"
            for m in ms:
                for n in {m, m.replace("_", "-"), m.replace("-", "_")}:
                    # force the members through the driver: old and new layout of cargo's build directory
                    for d in glob.glob(f"{WORK}/target/debug/.fingerprint/{n}-*") + glob.glob(f"{WORK}/target/debug/build/{n}"):
                        shutil.rmtree(d)
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["KHV_FACTS_DIR"] = out
            run(["cargo", "check", "--workspace", "--lib", "--offline"], ws, e)
            got = sorted(os.path.basename(p)[:-5] for p in glob.glob(f"{out}/*.json"))
            want = {"beekem", "keyhive_core", "keyhive_crypto"}
            if not want <= set(got):
                raise Broken(f"facts missing for {sorted(want - set(got))}")
            open(f"{out}/DONE", "w").write(json.dumps({"crates": got, "files": nfiles}))
        info = json.load(open(f"{out}/DONE"))
        info["hash"] = h
        return out, info
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    try:
        d, i = extract()
        print(d, i)
    except Broken as x:
        print("BROKEN", x)
        sys.exit(2)
