"""Mutation runs (development only): python3 tools/mutate.py SEED COUNT [path prefix...]

Applies small random changes to the contracts in a scratch copy of /repo (/tmp/phx-mut/repo), replays the behaviours the
quick checks use, and, where nothing diverges, runs the existing tests.  Results: /tmp/phx-mut/log.jsonl."""
import json, os, random, re, subprocess, sys, time

COPY = "/tmp/phx-mut/repo"
os.environ["PHX_REPO"] = COPY
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if not os.path.isdir(COPY):
    os.makedirs("/tmp/phx-mut", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", COPY])
from phx import build, core, registry  # noqa: E402
from phx.core import Job  # noqa: E402
from phx.registry import Dex, Life, Rewards, Stable, Stake, Token, Trader, Vesting, Xyk  # noqa: E402

X = [(Xyk, "step", 96, 40), (Xyk, "lpStep", 96, 40), (Xyk, "adminStep", 96, 30)]
S = [(Stable, "step", 96, 40), (Stable, "lpStep", 96, 40), (Stable, "adminStep", 96, 30), (Stable, "step", 64, 30, "initQuotes")]
K = [(Stake, "step", 128, 50), (Stake, "adminStep", 96, 40)]
T = [(Token, "step", 128, 60), (Token, "adminStep", 96, 40)]
R = [(Rewards, "step", 128, 40), (Rewards, "fundStep", 96, 40)]
V = [(Vesting, "step", 96, 50), (Vesting, "createStep", 128, 40), (Vesting, "minterStep", 96, 50)]
F = [(Dex, "adminStep", 120, 30), (Dex, "holderStep", 80, 40)]
M = [(Dex, "routeStep", 96, 40)]
D = [(Trader, "step", 120, 40)]
L = [(Life, "step", 96, 40)]
JOBS = {"contracts/pool/": X + L, "contracts/pool_stable/": S + L, "contracts/stake/": K + L, "contracts/token/": T + L,
        "contracts/vesting/": V + L, "contracts/factory/": F + L, "contracts/multihop/": M + L, "contracts/stake_rewards/": R + L,
        "contracts/trader/": D + L, "packages/phoenix/": X + S + V + R + K + L, "packages/curve/": V + R,
        "packages/decimal/src/decimal.rs": X + R + K, "packages/decimal/src/decimal256.rs": S}


def production(path):
    """line numbers outside tests and comments"""
    lines = open(path).read().split("\n")
    out, skip = [], None
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l) or re.match(r"\s*#\[cfg\(any\(test", l):
            skip = len(l) - len(l.lstrip())
            continue
        if skip is not None:
            if l.startswith(" " * skip + "}"):
                skip = None
            elif l.rstrip().endswith(";") and len(l) - len(l.lstrip()) == skip:
                skip = None
            continue
        if not re.match(r"\s*(//|#\[|use |pub use |mod |pub mod )", l):
            out.append(i)
    return lines, out


SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
        (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "), (r"\.sub\(", ".add("), (r"\.mul\(", ".div("), (r"\.div\(", ".mul("),
        (r"\.add\(", ".sub("), (r"token_a", "token_b"), (r"token_b", "token_a"), (r"_a\b", "_b"), (r"_b\b", "_a"),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"if !", "if "), (r"if ([a-z])", r"if !\1"),
        (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b60\b", "61"), (r"\b10_?000\b", "9999"),
        (r"sender", "env.current_contract_address()"), (r"config\.fee_recipient", "sender"), (r"&Some\(", "&None::<i128>.or("),
        (r"offer_", "ask_"), (r"ask_", "offer_"), (r"max_", "min_"), (r"\.checked_sub\(", ".checked_add("),
        (r"min_([a-z_]+)", r"max_\1"), (r"first", "last"), (r"\.pop_front\(", ".pop_back("), (r"push_back", "push_front")]


def mutants(path):
    lines, ok = production(path)
    good = set(ok)
    for i in ok:
        l = lines[i]
        if re.search(r"log!|panic_with_error|events\(\)|publish\(|^\s*\"", l):
            continue
        code = l.split("//")[0]
        for a, b in SUBS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code and not re.search(r"\bfn\b|struct|enum|->", code):
                    yield (i, i, new)
        # deletion of a whole statement
        if re.match(r"\s*[a-zA-Z_:.&*]+.*", code) and not re.match(r"\s*(let|return|if|else|for|match|pub|fn|while|const|impl|struct|\})", code):
            j, depth = i, 0
            while j < len(lines) and j < i + 12 and j in good:
                c = lines[j].split("//")[0]
                depth += sum(c.count(x) for x in "([{") - sum(c.count(x) for x in ")]}")
                if depth < 0:
                    break
                if depth == 0 and c.rstrip().endswith(";"):
                    prev = lines[i - 1].split("//")[0].rstrip()
                    if prev.endswith((";", "{", "}")) or not prev:
                        yield (i, j, "")
                    break
                j += 1
        # deletion of a guard
        if re.match(r"\s*if .*\{$", code):
            ind = len(l) - len(l.lstrip())
            for j in range(i + 1, min(i + 14, len(lines))):
                if lines[j].startswith(" " * ind + "}"):
                    if lines[j].strip() == "}" and any("panic" in x for x in lines[i:j]):
                        yield (i, j, "")
                    break


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    e = build.env()
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    build.wasm(build.CONTRACTS)
    r = sh(["timeout", "600", "cargo", "test", "--workspace", "--exclude", "phoenix-trader", "--features", "phoenix-vesting/minter", "--offline",
            "--locked", "--", "--test-threads", "8"], cwd=COPY, env=e)
    bad = re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M)
    return bad[:5] if r.returncode else [], r.returncode, r.stdout[-600:]


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    want = sys.argv[3:] or list(JOBS)
    sh(["git", "-C", COPY, "checkout", "-q", "--", "."])
    files = []
    for d in ("contracts", "packages"):
        for b, _, fs in os.walk(os.path.join(COPY, d)):
            if "/src" in b and "/tests" not in b:
                files += [os.path.join(b, f) for f in fs if f.endswith(".rs") and f not in ("error.rs", "tests.rs", "test.rs", "lib.rs")]
    files += [os.path.join(COPY, "packages/curve/src/lib.rs")]
    rnd = random.Random(seed)
    pool = {}
    for p in sorted(set(files)):
        rel = os.path.relpath(p, COPY)
        key = next((k for k in want if rel.startswith(k)), None)
        if key:
            pool.setdefault(key, []).extend((rel, m) for m in mutants(p))
    print({k: len(v) for k, v in pool.items()}, flush=True)
    log = open("/tmp/phx-mut/log.jsonl", "a")
    seen = set()
    keys = sorted(pool)
    for n in range(count):
        key = keys[n % len(keys)]
        rel, (i, j, new) = rnd.choice(pool[key])
        if (rel, i, j, new) in seen:
            continue
        seen.add((rel, i, j, new))
        path = os.path.join(COPY, rel)
        src = open(path).read()
        lines = src.split("\n")
        old = "\n".join(lines[i:j + 1])
        lines[i:j + 1] = [new] if new else []
        rec = {"file": rel, "line": i + 1, "old": old, "new": new}
        t0 = time.time()
        try:
            open(path, "w").write("\n".join(lines))
            jobs = [x for k, v in JOBS.items() if rel.startswith(k) for x in v]
            try:
                build.wasm(sorted({c for a, *_ in jobs for c in a.contracts}), log=open(os.devnull, "w"))
            except build.BuildError as e:
                rec["result"] = "does not build"
                continue
            rec["t_build"] = round(time.time() - t0, 1)
            found = {}
            for a, step, m, k, *init in jobs:
                job = Job(a, m, k, step=step, init=(init or ["init"])[0], opts={"parts": 8})
                r = core.run_jobs("ANY", [job], 1, 8, 200)
                if r["other"]:
                    for o in r["other"]:
                        for pr in o["props"]:
                            found[pr] = found.get(pr, 0) + 1
                    rec["msg"] = min(r["other"], key=lambda x: x["at_step"])["message"][:300]
                    rec["by"] = a.spec + "." + step
                if r["errors"]:
                    rec["error"] = r["errors"][0][:500]
                if r["other"]:
                    break
            rec["props"] = found
            if found:
                rec["result"] = "detected"
            else:
                bad, rc, tail = tests()
                rec["result"] = "killed by tests only" if rc else "SURVIVES"
                rec["tests"] = bad
                if rc and not bad:
                    rec["tail"] = tail
        finally:
            open(path, "w").write(src)
            rec["t"] = round(time.time() - t0, 1)
            if rec.get("result") != "does not build":
                log.write(json.dumps(rec) + "\n"); log.flush()
                print(rec["result"], rec["t"], rel, i + 1, repr(old.strip()[:100]), "->", repr(new.strip()[:100]), rec.get("by"), rec.get("props"), flush=True)


if __name__ == "__main__":
    main()
