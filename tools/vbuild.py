"""Prepare the analysable program: a copy of /repo's workspace (without the member that cannot be
built offline), type-checked with the nightly compiler that the analysis driver links against.

Only two syntactic adaptations are made to the copy: the identifier `gen` (a keyword in the edition
the driver compiles the crate under) is written `r#gen` in method calls.  Everything that is decided
is decided on that copy's type-checked program and on /repo's kernel assembly text."""
import hashlib, json, os, re, shutil, subprocess, sys, fcntl, tomllib, time

REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(BASE, ".build"))
WS = os.path.join(BUILD, "ws")
TARGET = os.path.join(BUILD, "target")
DRIVER = os.path.join(BUILD, "driver")
ENGINE = os.path.join(BASE, "engine")
MEMBERS_OUT = {"zero"}
NEED_ZERO = {"consistent-with-header", "simulate-execution", "block_processing", "common"}


def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def sync_ws():
    root = open(f"{REPO}/Cargo.toml").read()
    members = [m for m in tomllib.loads(root)["workspace"]["members"] if m not in MEMBERS_OUT]
    for m in MEMBERS_OUT:
        root = re.sub(r'(?m)^\s*"%s",\n' % m, "", root, count=1)
    root = re.sub(r"(?m)^(paladin-core|zero)\s*=.*\n", "", root)
    put(f"{WS}/Cargo.toml", root)
    want = {f"{WS}/Cargo.toml", f"{WS}/Cargo.lock", f"{WS}/Cargo.lock.repo"}
    lock = open(f"{REPO}/Cargo.lock").read()
    if put(f"{WS}/Cargo.lock.repo", lock) or not os.path.exists(f"{WS}/Cargo.lock"):
        put(f"{WS}/Cargo.lock", lock)
    for m in members:
        for d, dirs, files in os.walk(f"{REPO}/{m}"):
            rel = os.path.relpath(d, REPO)
            dirs[:] = [x for x in dirs if x not in ("target", ".git", "tests", "benches", "examples")
                       or (x in ("tests", "benches", "examples") and "/src" in d)]
            for f in files:
                src = os.path.join(d, f)
                dst = os.path.join(WS, rel, f)
                if os.path.islink(src) and not os.path.exists(src):
                    continue
                data = open(src, "rb").read()
                if rel == m and f == "Cargo.toml":
                    data = strip_manifest(data.decode(), m).encode()
                elif f.endswith(".rs") and m == "evm_arithmetization":
                    data = re.sub(rb"\.gen(::<|\()", rb".r#gen\1", data)
                if not (os.path.exists(f"{ENGINE}/harness/{m}.rs") and dst == f"{WS}/{m}/src/" + harness_parent(m)):
                    put(dst, data)
                want.add(dst)
        # abstract arguments for the analysed functions of this crate, seen by the analysis driver only
        hp = f"{ENGINE}/harness/{m}.rs"
        if os.path.exists(hp):
            h = open(hp).read()
            parent = f"{m}/src/" + harness_parent(m)
            put(f"{WS}/{m}/src/verif_harness.rs", h)
            put(f"{WS}/{parent}", read(f"{REPO}/{parent}") + HARNESS_MOD)
            want |= {f"{WS}/{m}/src/verif_harness.rs", f"{WS}/{parent}"}
    for d, dirs, files in os.walk(WS):
        for f in files:
            p = os.path.join(d, f)
            if p not in want:
                os.remove(p)


HARNESS_MOD = """
#[cfg(verif_harness)]
#[path = "verif_harness.rs"]
#[allow(missing_docs)]
pub mod verif_harness;
"""


def harness_parent(m):
    return re.match(r"//! in (\S+)\n", read(f"{ENGINE}/harness/{m}.rs")).group(1)


def read(p):
    try:
        return open(p).read()
    except OSError:
        return ""


def strip_manifest(t, m):
    if m == "trace_decoder":
        t = re.sub(r"(?m)^zero(\.workspace)?\s*=.*\n", "", t)
        t = re.sub(r',\s*"zero/[^"]*"', "", t)
    parts = re.split(r"(?m)^(?=\[)", t)
    parts = [p for p in parts if not p.startswith(("[[test]]", "[[bench]]", "[[example]]"))]
    return "".join(parts)


def nightly_sysroot():
    return subprocess.check_output(["rustup", "run", "nightly", "rustc", "--print", "sysroot"], text=True).strip()


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


def build_driver():
    h = hashlib.sha256()
    for f in sorted(os.listdir(f"{ENGINE}/src")):
        h.update(f.encode() + open(f"{ENGINE}/src/{f}", "rb").read())
    stamp = h.hexdigest()
    sf = DRIVER + ".stamp"
    if os.path.exists(DRIVER) and os.path.exists(sf) and open(sf).read() == stamp:
        return
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    r = subprocess.run([f"{ENGINE}/build.sh", DRIVER], env=e, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        raise SystemExit("driver build failed")
    open(sf, "w").write(stamp)


def cargo_check():
    e = env()
    sr = nightly_sysroot()
    e["RUSTUP_TOOLCHAIN"] = "nightly-2024-09-24"
    e["RUSTC"] = sr + "/bin/rustc"
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["RUSTFLAGS"] = "-Awarnings -Zalways-encode-mir -Zinline-mir=no -Zmir-opt-level=1"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["VERIF_RECORD"] = os.path.join(BUILD, "args")
    e["LD_LIBRARY_PATH"] = sr + "/lib"
    os.makedirs(e["VERIF_RECORD"], exist_ok=True)
    r = subprocess.run(["cargo", "check", "--workspace", "--offline", "--lib"], cwd=WS, env=e,
                       capture_output=True, text=True)
    return r


def prepare(log=sys.stderr):
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        t1 = time.time()
        sync_ws()
        r = cargo_check()
        if r.returncode:
            print(r.stderr[-6000:], file=log)
            raise SystemExit("workspace does not type-check under the analysis compiler")
    print(f"[vbuild] driver {t1-t:.1f}s workspace {time.time()-t1:.1f}s", file=log)


def analyse(crate, roots, out, extra=None):
    """run the driver over `crate` for the given roots (list of names); returns parsed JSON"""
    rec = json.load(open(os.path.join(BUILD, "args", crate + ".json")))
    e = dict(rec["env"])
    for k in ("CARGO_MAKEFLAGS", "MAKEFLAGS", "MFLAGS"):
        e.pop(k, None)
    e["VERIF_ANALYSE"] = "1"
    e["VERIF_OUT"] = out
    e["VERIF_ROOTS"] = ",".join(roots)
    e["LD_LIBRARY_PATH"] = nightly_sysroot() + "/lib"
    e.update(extra or {})
    args = [a for a in rec["args"]]
    if os.path.exists(f"{ENGINE}/harness/{crate}.rs") and any(r.startswith("h::") for r in roots):
        args += ["--cfg", "verif_harness"]
    return subprocess.Popen([DRIVER] + args, env=e, cwd=rec["cwd"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


if __name__ == "__main__":
    prepare()
