"""spec/rewards.qnt against contracts/stake_rewards."""
from ..core import Adapter, Div
from ..world import addr, hexbytes, i128, string, struct, u32, u64, u128

ACCTS = ["u1", "u2", "u3", "adm", "rew"]
USERS = ["u1", "u2", "u3"]
OWN = {"initialize": {"R03"}, "fund": {"R01"}, "distribute": {"R01", "R02"}, "addUser": {"R02"}, "bond": {"R02"},
       "unbond": {"R02"}, "claim": {"R02"}, "donate": {"R01"}, "update": {"R03"}}
GUARD = {"auth": {"R03"}, "twice": {"R03"}, "time": {"R03"}, "min": {"R03"}, "complexity": {"R03"}, "funds": {"R01"},
         "duration": {"R01", "R03"}, "behind": {"R01"}}


class Rewards(Adapter):
    spec = "rewards"
    contracts = ["token", "rewards"]
    invariants = ["accounted", "solvent", "linear", "endsFree", "withinReleased", "releasesVested", "noRetroactive",
                  "joinsAtZero", "proportional", "claimPaysReported", "neverNegative", "byStaking", "fundedByAdmin",
                  "bounded", "configFixed", "conserved", "rejectedIsNoop", "announced"]

    def start(self, s):
        w = self.w
        w.new()
        names = ["u1", "u2", "u3", "adm", "stk", "minter"]
        self.a = dict(zip(names, w.gen(len(names))))
        self.frame = w.make_frame()
        self.t = w.register("token", [addr(self.a["minter"]), u32(7), string("REW"), string("REW")])
        for x, b in s.s.bal.items():
            if b:
                w.call(self.t, "mint", addr(self.a[x]), i128(b))
        self.k = self.a["rew"] = w.register("rewards", [])
        self.h = w.upload("rewards")
        self.name = {v: k for k, v in self.a.items()}

    @staticmethod
    def info(stakes, total):
        return struct(stakes=[struct(stake=i128(x), stake_timestamp=u64(t)) for x, t in stakes], reward_debt=u128(0),
                      last_reward_time=u64(0), total_stake=i128(total))

    def stakes(self, st, u):
        return [(x.amt, x.ts) for x in st.stakes[u]]

    def of(self, st, u):
        l = self.stakes(st, u)
        return self.info(l, sum(x for x, _ in l))

    def step(self, before, s):
        c, o, st, pre = s.call, s.out, s.s, before.s
        w, a, k, op = self.w, self.a, self.k, c.op
        self.note(op, o)
        w.ledger(ts=pre.now)
        total = sum(x for u in USERS for x, _ in self.stakes(pre, u))
        target, fn, args = {
            "initialize": lambda: (k, "initialize", [addr(a["adm"]), addr(a["stk"]), addr(self.t), u32(c.maxc),
                                                     i128(c.minReward), i128(c.minBond)]),
            "fund": lambda: (k, "fund_distribution", [u64(c.t), u64(c.d), i128(c.x)]),
            "distribute": lambda: (k, "distribute_rewards", [i128(total)]),
            "addUser": lambda: (k, "add_user", [addr(a[c.who]), self.of(pre, c.who)]),
            "bond": lambda: (k, "calculate_bond", [addr(a[c.who]), self.info(
                self.stakes(pre, c.who) + [(c.x, pre.now)], sum(x for x, _ in self.stakes(pre, c.who)))]),
            "unbond": lambda: (k, "calculate_unbond", [addr(a[c.who]), self.of(pre, c.who), i128(pre.stakes[c.who][c.i].amt)]),
            "claim": lambda: (k, "withdraw_rewards", [addr(a[c.who]), self.of(pre, c.who)]),
            "donate": lambda: (self.t, "transfer", [addr(a[c.who]), addr(k), i128(c.x)]),
            "update": lambda: (k, "update", [hexbytes(self.h)]),
        }[op]()
        r = w.call(target, fn, *args, unsigned=not c.signed, au=True, ev=self.focus == "E01")
        own, label = OWN[op], f"{op} by {c.who}" if c.who else op
        if r.ok != o.ok:
            if r.ok:
                props = set(own)
                for g in o.why:
                    props = props | GUARD.get(g, own)
                raise Div(props, f"{label} was accepted, the specification refuses it ({', '.join(sorted(o.why))})")
            raise Div(own | ({"R03"} if op == "fund" else set()), f"{label} failed ({r.err}), the specification accepts it")
        if o.ok and c.signed:
            roots = {(self.name.get(z, z), q == target and f == fn) for z, q, f in r.auth_roots()}
            self.expect({"R03"}, f"{label}: accounts whose authorisation of exactly this call is required",
                        roots, {(z, True) for z in o.auth})
        self.observe(s, own, label)
        if o.ok and self.focus == "E01":
            self.heard(r, s, {k: "rew"}, {**self.name, self.t: "rt"}, label)

    def observe(self, s, own, label):
        st, k, a, w = s.s, self.k, self.a, self.w
        if not st.inited:
            return
        w.ledger(ts=st.now)
        qs = [(self.t, "balance", [addr(a[x])]) for x in ACCTS]
        qs += [(k, "query_config", []), (k, "query_admin", []), (k, "query_distributed_reward", [addr(self.t)]),
               (k, "query_undistributed_reward", [addr(self.t)])]
        n = len(qs)
        total = sum(x for u in USERS for x, _ in self.stakes(st, u))
        qs += [(k, "query_annualized_reward", [i128(total)])]
        known = [u for u in USERS if st.known[u]]
        qs += [(k, "query_withdrawable_reward", [addr(a[u]), self.of(st, u)]) for u in known]
        rs = w.multi(self.frame, qs)
        got = [r.ret if r.ok else None for r in rs]
        for x, v in zip(ACCTS, got):
            self.expect(own | {"R01"}, f"{label}: balance of {x}", v, st.bal[x])
        g = st.cfg
        self.expect({"R03"}, f"{label}: configuration", [got[5] and got[5]["config"], self.name.get(got[6])],
                    [{"staking_contract": a["stk"], "reward_token": self.t, "max_complexity": g.maxc,
                      "min_reward": g.minReward, "min_bond": g.minBond}, "adm"])
        self.expect({"R01"} | own, f"{label}: distributed in total", got[7], st.dist)
        self.expect({"R01"} | own, f"{label}: not distributed yet", got[8], st.bal["rew"] - st.wd)
        ap = got[n]
        self.expect({"R01", "R02"}, f"{label}: yearly release per point",
                    None if ap is None else [ap["asset"] == self.t, self.decimal(ap["amount"])],
                    None if s.apr < 0 else [True, s.apr])
        for u, q in zip(known, got[n + 1:]):
            self.expect({"R02"} | own, f"{label}: withdrawable rewards of {u}",
                        q and [q["reward_address"] == self.t, q["reward_amount"]], [True, s.owed[u]])
            self.stats["cov:claimable amounts compared"] += 1
            self.stats["cov:claimable amounts above zero"] += s.owed[u] > 0

    @staticmethod
    def decimal(t):
        whole, _, frac = t.partition(".")
        return int(whole) * 10**18 + int((frac + "0" * 18)[:18])
