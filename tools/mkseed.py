"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (development only; no check uses it)."""
import glob, json, os, subprocess, sys, textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/phx-seed-wt"

DEMO = """#!/bin/bash
# A test of the {dir} contract that holds on the unchanged tree and fails with the change.
set -e
here=$(cd "$(dirname "$0")" && pwd)
scratch=/tmp/phx-demo-{id}
rm -rf /tmp/phx-demo-{id}
trap 'rm -rf /tmp/phx-demo-{id}' EXIT
mkdir -p $scratch
cp -a Cargo.toml Cargo.lock contracts packages $scratch/
ln -s "$PWD/target" $scratch/target
cp "$here/demo.rs" $scratch/contracts/{dir}/src/{testdir}phx_demo.rs
{modline}
export HOME=${{HOME:-/root}} RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=0
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
cd $scratch
cargo test --offline --locked -p {pkg} {feat} phx_demo -- --nocapture > $scratch/log 2>&1 || {{ tail -n 40 $scratch/log; exit 1; }}
grep -q "test result: ok. [1-9]" $scratch/log || {{ tail -n 20 $scratch/log; exit 3; }}
"""

PKG = {"pool": "phoenix-pool", "pool_stable": "phoenix-pool-stable", "stake": "phoenix-stake", "token": "soroban-token-contract",
       "vesting": "phoenix-vesting", "factory": "phoenix-factory", "multihop": "phoenix-multihop",
       "stake_rewards": "phoenix-stake-rewards", "trader": "phoenix-trader"}


def sh(*a, **k):
    return subprocess.run(a, check=True, text=True, stdout=subprocess.PIPE, **k).stdout


def make(d):
    if not os.path.exists(WT):
        sh("git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD")
    sh("git", "-C", WT, "checkout", "-q", "--detach", sh("git", "-C", "/repo", "rev-parse", "HEAD").strip())
    sh("git", "-C", WT, "checkout", "-q", "--", ".")
    for f, old, new in d["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        old, new = textwrap.dedent(old).strip("\n"), textwrap.dedent(new).strip("\n")
        # match ignoring the common indentation
        lines = s.split("\n")
        ol = old.split("\n")
        hits = []
        for i in range(len(lines) - len(ol) + 1):
            ind = len(lines[i]) - len(lines[i].lstrip()) - (len(ol[0]) - len(ol[0].lstrip()))
            if ind >= 0 and all((l == (" " * ind + o if o.strip() else o)) for l, o in zip(lines[i:i + len(ol)], ol)):
                hits.append((i, ind))
        if len(hits) != 1:
            raise SystemExit(f"{d['id']}: {len(hits)} matches in {f} for\n{old}")
        i, ind = hits[0]
        lines[i:i + len(ol)] = [(" " * ind + n if n.strip() else n) for n in new.split("\n")] if new else []
        open(p, "w").write("\n".join(lines))
    out = os.path.join(ROOT, "seeded", d["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(sh("git", "-C", WT, "diff"))
    sh("git", "-C", WT, "checkout", "-q", "--", ".")
    c = d["dir"]
    only = d.get("only")
    if c == "token":
        testdir, mod = "", f'echo "#[cfg(test)] mod phx_demo;" >> $scratch/contracts/{c}/src/lib.rs'
    elif only:
        testdir, mod = "tests/", f'printf "mod phx_demo;\\n" > $scratch/contracts/{c}/src/tests.rs' if only == "demo" else f'printf "mod setup;\\nmod phx_demo;\\n" > $scratch/contracts/{c}/src/tests.rs'
    else:
        testdir, mod = "tests/", f'echo "mod phx_demo;" >> $scratch/contracts/{c}/src/tests.rs'
    feat = "--features minter" if c == "vesting" else ""
    open(os.path.join(out, "demo.sh"), "w").write(DEMO.format(id=d["id"], dir=c, pkg=PKG[c], testdir=testdir, modline=mod, feat=feat))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.rs"), "w").write(textwrap.dedent(d["demo"]).lstrip())
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("wrote", out)


defs = {}
for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
    ns = {}
    ns["f"] = f
    exec(open(f).read(), ns)
    for d in ns["SEEDS"]:
        defs[d["id"]] = d
for i in (sys.argv[1:] or defs):
    make(defs[i])
sh("git", "-C", "/repo", "worktree", "remove", "--force", WT)
