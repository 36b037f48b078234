"""Generates behaviours of a specification with quint and replays them into the real contracts."""
import collections
import glob
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import tempfile
import time
import traceback

from . import build, itf
from .world import World, HarnessError, decode

ROOT = build.ROOT
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")


# what the contracts announce; announcements about other things are left to the contracts
ANNOUNCED = {(t, f) for t, fs in {
    "initialize": ["XYK LP token_a", "XYK LP token_b", "LP Share token staking contract", "LP factory contract",
                   "StakingRewards rewards distribution contract", "Multihop factory with admin: "],
    "provide_liquidity": ["sender", "token_a", "token_a-amount", "token_b", "token_b-amount"],
    "withdraw_liquidity": ["sender", "shares_amount", "return_amount_a", "return_amount_b"],
    "swap": ["sender", "sell_token", "offer_amount", "actual received amount", "buy_token", "return_amount",
             "spread_amount", "referral_fee_amount"],
    "create": ["liquidity_pool"],
    "bond": ["user", "token", "amount"], "unbond": ["user", "token", "amount"],
    "create_distribution_flow": ["asset"], "distribute_rewards": ["asset", "amount"],
    "withdraw_rewards": ["user", "reward_token", "reward_amount"], "stake_rewards": ["add_user"],
    "calculate_bond": ["user"], "calculate_unbond": ["user"],
    "fund_reward_distribution": ["asset", "amount", "start_time", "end_time"],
    "Initialize": ["Vesting contract with admin: "], "Claim": ["Claimed tokens: "],
    "Mint": ["sender: ", "Minted tokens: "], "Burn": ["Burned from: ", "Burned tokens: "],
    "Update minter": ["Updated minter to: "], "Update minter capacity": ["Updated minter capacity to: "],
    "Trader: Initialize": ["admin: ", "contract name: ", "pairs: ", "PHO token: "],
    "Trader: Trade Token": ["user: ", "offer asset: ", "amount received: "],
}.items() for f in fs}
WORDS = [["mint"], ["burn"], ["transfer"], ["approve"], ["set_admin"], ["clawback"]]


class SpecError(Exception):
    """quint failed, or the specification violates one of its own properties."""


class Div(Exception):
    """The implementation left the specification: which properties that concerns, and how."""

    def __init__(self, props, msg):
        super().__init__(msg)
        self.props = set(props)
        self.msg = msg


class Stop(Exception):
    """Nothing more can be compared on this behaviour (a value beyond the contract's integers)."""


class Adapter:
    """Maps a specification to calls of the contracts.  Subclasses set the class attributes and
    implement start (deploy what the initial state describes) and step (perform a call and raise
    Div if the outcome is not the specified one)."""
    spec = ""            # module and file name
    contracts = []       # wasm files needed
    invariants = []      # checked by quint on every generated state
    steps = ("step",)    # the step actions there are

    def __init__(self, world, focus):
        self.w = world
        self.focus = focus      # the property being decided
        self.stats = collections.Counter()

    def start(self, s):
        raise NotImplementedError

    def step(self, before, s):
        raise NotImplementedError

    def finish(self, s):
        pass

    # -- helpers ------------------------------------------------------------------------------
    def expect(self, props, what, got, want):
        self.stats["comparisons"] += 1
        if got != want:
            raise Div(props, f"{what}: the specification says {show(want)}, the code says {show(got)}")

    def heard(self, r, s, by, names, label):
        """compares what the call announced with what the specification says: by maps the emitting
        contracts, names every other address to the specification's names; the order does not count, and
        neither do announcements the specification has no words for"""
        def flat(v, strs, ints):
            if isinstance(v, (list, tuple)):
                for x in v:
                    flat(x, strs, ints)
            elif isinstance(v, bool):
                strs.append(str(v))
            elif isinstance(v, int):
                ints.append(v)
            elif v is not None:
                strs.append(names.get(v, by.get(v, v)) if isinstance(v, str) else repr(v))
        got = collections.Counter()
        for c, topics, data in r.events or []:
            c, topics, data = decode(c), decode(topics), decode(data)
            if c not in by:
                continue
            about, n = [], []
            flat(topics, about, n)
            if tuple(about[:2]) not in ANNOUNCED and about[:1] not in WORDS:
                self.stats["cov:announcements of another kind, not compared"] += 1
                continue
            strs, ints = [], []
            flat(data, strs, ints)
            got[(by[c], *about, "names", *strs, "states", *ints)] += 1
        want = collections.Counter((e.by, *e.about, "names", *e.names, "states", *e.amounts) for e in s.ev)
        self.stats["cov:announcements compared"] += sum(want.values())
        self.expect({"E01"}, f"{label}: announcements", sorted(map(repr, (got - want).elements())),
                    sorted(map(repr, (want - got).elements())))

    def note(self, op, out):
        self.stats["op:" + op] += 1
        if out.ok:
            self.stats["ok:" + op] += 1
        for w in (() if out.ok else out.why):
            self.stats[f"refused:{op}:{w}"] += 1


def show(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


class Job:
    """One batch of random behaviours: quint parameters plus how to replay them."""

    def __init__(self, adapter, samples, steps, step="step", init="init", main=None, weight=1, opts=None):
        self.adapter, self.samples, self.steps = adapter, samples, steps
        self.step, self.init, self.main = step, init, main or adapter.spec
        self.opts = opts or {}


def quint_cmd(job, seed, n, out):
    a = job.adapter
    cmd = ["quint", "run", os.path.join(SPEC, a.spec + ".qnt"), "--main=" + job.main,
           "--init=" + job.init, "--step=" + job.step, f"--max-samples={n}", f"--max-steps={job.steps}",
           f"--seed={seed}", f"--n-traces={n}", "--out-itf=" + os.path.join(out, "t_{seq}.itf.json"), "--verbosity=1"]
    inv = job.opts.get("invariants", list(a.invariants))
    if inv:
        cmd += ["--invariants"] + inv
    return cmd


def generate(job, seed, n, out):
    e = dict(os.environ)
    e["NODE_OPTIONS"] = "--max-old-space-size=3000"
    r = subprocess.run(quint_cmd(job, seed, n, out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    files = sorted(glob.glob(os.path.join(out, "t_*.itf.json")))
    if r.returncode != 0 or not files:
        raise SpecError(f"quint run {job.adapter.spec} ({job.step}, seed {seed}) failed:\n" + r.stdout[-3000:])
    return files


def replay_states(adapter, states):
    """Replays one behaviour; returns (calls replayed, Div or None, index)"""
    i = 0
    try:
        adapter.start(states[0])
        for i in range(1, len(states)):
            adapter.step(states[i - 1], states[i])
        adapter.finish(states[-1])
    except Stop:
        adapter.stats["cov:behaviours cut short at the range of the integers"] += 1
        return i, None
    except Div as d:
        return i, d
    return len(states) - 1, None


def worker(arg):
    prop, job, seed, n, deadline = arg
    res = {"states": 0, "transitions": 0, "traces": 0, "stats": collections.Counter(), "viol": [], "other": [],
           "samples": [], "calls": 0, "error": None, "hashes": []}
    out = tempfile.mkdtemp(prefix="phx-", dir=tmpdir())
    w = None
    try:
        files = generate(job, seed, n, out)
        w = World(build.BIN, build.WASM, {k: build.FILES[k] for k in job.adapter.contracts})
        for f in files:
            if time.time() > deadline:
                res["stats"]["behaviours skipped for time"] += 1
                continue
            st = itf.states(f)
            res["states"] += len(st)
            ad = job.adapter(w, prop)
            ad.opts = job.opts
            k, d = replay_states(ad, st)
            res["transitions"] += k
            res["traces"] += 1
            res["stats"].update(ad.stats)
            res["hashes"] += [hashlib.sha1(repr((x.s, x.call)).encode()).digest()[:8] for x in st[1:]]
            if len(res["samples"]) < 1:
                res["samples"].append([brief(x) for x in st[1:6]])
            if d is not None:
                rec = {"adapter": job.adapter.__module__, "class": job.adapter.__name__, "spec": job.adapter.spec,
                       "step": job.step, "seed": seed, "props": sorted(d.props), "message": d.msg,
                       "at_step": k, "opts": job.opts, "itf": json.load(open(f))}
                rec["itf"]["states"] = rec["itf"]["states"][:k + 1]
                (res["viol"] if prop in d.props else res["other"]).append(rec)
        res["calls"] = w.calls
    except (SpecError, HarnessError, build.BuildError) as e:
        res["error"] = str(e)
    except Exception:
        res["error"] = traceback.format_exc()
    finally:
        if w:
            w.close()
        shutil.rmtree(out, ignore_errors=True)
    return res


def brief(st):
    c = {k: v for k, v in st.call.items() if v not in (None, "", 0, False)}
    o = {"ok": st.out.ok, "why": sorted(st.out.why)}
    for k in ("r1", "r2", "ret"):
        if k in st.out and st.out.ok:
            o[k] = st.out[k]
    return json.loads(json.dumps({"call": c, "out": o}, default=str))


def tmpdir():
    d = os.path.join(WORK, "tmp")
    os.makedirs(d, exist_ok=True)
    return d


def spread(*key):
    """a seed for quint; nearby quint seeds give overlapping samples, so they are spread out"""
    return int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:6], "big") * 2


def run_jobs(prop, jobs, seed, procs, budget):
    """jobs are split over the processes; returns merged results"""
    deadline = time.time() + budget
    tasks = []
    for ji, j in enumerate(jobs):
        parts = max(1, min(j.opts.get("parts", procs), j.samples))
        for p in range(parts):
            n = j.samples // parts + (1 if p < j.samples % parts else 0)
            if n:
                tasks.append((prop, j, spread(seed, prop, ji, p), n, deadline))
    tot = {"states": 0, "transitions": 0, "traces": 0, "stats": collections.Counter(), "viol": [], "other": [],
           "samples": [], "calls": 0, "errors": [], "hashes": set()}
    with multiprocessing.Pool(procs) as pool:
        for r in pool.imap_unordered(worker, tasks):
            for k in ("states", "transitions", "traces", "calls"):
                tot[k] += r[k]
            tot["stats"].update(r["stats"])
            for k in ("viol", "other", "samples"):
                tot[k] += r[k]
            tot["hashes"].update(r["hashes"])
            if r["error"]:
                tot["errors"].append(r["error"])
    return tot


def save_replay(prop, rec):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(rec["itf"]["states"], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(rec, f)
    return p
