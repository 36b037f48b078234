"""Builds what a check needs from the current working tree of /repo: the contracts' release wasm
files (in dependency order, as they embed one another) and, if missing, the harness.

Freshness is decided by content, never by time stamps: a stamp records the hash of everything a
contract is compiled from, and cargo's fingerprints are dropped when that changed."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PHX_REPO", "/repo")
TARGET = os.path.join(REPO, "target")
WASM = os.path.join(TARGET, "wasm32-unknown-unknown", "release")
STAMPS = os.path.join(TARGET, "verif-stamps")
BIN = os.path.join(ROOT, "build", "target", "release", "phx-world")

# contract -> (directory, package, wasm file, cargo options); in build order
CONTRACTS = {
    "token": ("token", "soroban-token-contract", "soroban_token_contract.wasm", []),
    "rewards": ("stake_rewards", "phoenix-stake-rewards", "phoenix_stake_rewards.wasm", []),
    "stake": ("stake", "phoenix-stake", "phoenix_stake.wasm", []),
    "pool": ("pool", "phoenix-pool", "phoenix_pool.wasm", []),
    "stable": ("pool_stable", "phoenix-pool-stable", "phoenix_pool_stable.wasm", []),
    "factory": ("factory", "phoenix-factory", "phoenix_factory.wasm", []),
    "multihop": ("multihop", "phoenix-multihop", "phoenix_multihop.wasm", []),
    "trader": ("trader", "phoenix-trader", "phoenix_trader.wasm", []),
    "vesting": ("vesting", "phoenix-vesting", "phoenix_vesting.wasm", ["--all-features"]),
}
FILES = {k: v[2] for k, v in CONTRACTS.items()}


class BuildError(Exception):
    pass


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "absent"


def source_files(d):
    out = []
    for base, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "target", "test_snapshots"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".json", ".wasm")) and f != "tests.rs":
                out.append(os.path.join(base, f))
    return out


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, REPO).encode() + b"\0" + sha(p).encode() + b"\0")
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def imports(name):
    """wasm files a contract's non-test sources embed"""
    d = os.path.join(REPO, "contracts", CONTRACTS[name][0], "src")
    found = set()
    for p in source_files(d):
        if p.endswith(".rs"):
            with open(p) as f:
                found |= set(re.findall(r"[a-z0-9_]+\.wasm", f.read()))
    return {k for k, f in FILES.items() if f in found and k != name}


def drop_fingerprints(pkg):
    fp = os.path.join(WASM, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.fullmatch(re.escape(pkg) + r"-[0-9a-f]{16}", d):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def package_name(toml):
    with open(toml) as f:
        m = re.search(r'^name\s*=\s*"([^"]+)"', f.read(), re.M)
    return m.group(1) if m else None


def read(path):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return None


def write(path, text):
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)


def wasm(names, log=sys.stderr):
    """Makes the wasm files of the named contracts (and of what they embed) up to date."""
    os.makedirs(STAMPS, exist_ok=True)
    need, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n not in need:
            need.add(n)
            todo += imports(n)
    with open(os.path.join(STAMPS, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        pk = os.path.join(REPO, "packages")
        common = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
        common += source_files(pk)
        ch = tree_hash(common)
        stamp = os.path.join(STAMPS, "packages")
        if read(stamp) != ch:
            for d in sorted(os.listdir(pk)):
                t = os.path.join(pk, d, "Cargo.toml")
                if os.path.exists(t):
                    drop_fingerprints(package_name(t))
            write(stamp, ch)
        for n in CONTRACTS:
            if n not in need:
                continue
            d, pkg, out, opts = CONTRACTS[n]
            deps = sorted(imports(n))
            h = hashlib.sha256((ch + tree_hash(source_files(os.path.join(REPO, "contracts", d)))
                                + "".join(sha(os.path.join(WASM, FILES[x])) for x in deps)).encode()).hexdigest()
            stamp = os.path.join(STAMPS, n)
            path = os.path.join(WASM, out)
            if read(stamp) == h + " " + sha(path):
                continue
            if os.path.exists(stamp):
                os.remove(stamp)
            drop_fingerprints(pkg)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--release", "--target",
                                "wasm32-unknown-unknown", "-p", pkg] + opts, cwd=REPO, env=env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or not os.path.exists(path):
                raise BuildError(f"building {pkg} failed:\n" + r.stdout[-4000:])
            write(stamp, h + " " + sha(path))
            print(f"built {out}", file=log)
    return need


def harness():
    src = [os.path.join(ROOT, "harness", x) for x in ("Cargo.toml", "Cargo.lock", "src/main.rs")]
    h = "".join(sha(p) for p in src)
    stamp = os.path.join(ROOT, "build", "harness.stamp")
    if read(stamp) == h and os.path.exists(BIN):
        return
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    with open(os.path.join(ROOT, "build", "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(ROOT, "build", "target")
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"],
                           cwd=os.path.join(ROOT, "harness"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("building the harness failed:\n" + r.stdout[-4000:])
        write(stamp, h)


if __name__ == "__main__":
    harness()
    wasm(CONTRACTS)
