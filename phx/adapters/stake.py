"""spec/stake.qnt against contracts/stake."""
from ..core import Adapter, Div
from ..world import addr, hexbytes, i128, string, u32, u64

ACCTS = ["u1", "u2", "u3", "mgr", "own", "adm", "stk"]
USERS = ["u1", "u2", "u3"]
OWN = {"initialize": {"K04"}, "bond": {"K01"}, "unbond": {"K01"}, "create": {"K04"}, "distribute": {"K03"},
       "claim": {"K02", "K03"}, "donate": {"K01", "K03"}, "update": {"K04"}}
GUARD = {"auth": {"K04"}, "role": {"K04"}, "exists": {"K04"}, "noflow": {"K04", "K03"}, "twice": {"K04"},
         "minreward": {"K04"}, "complexity": {"K04"}, "funds": {"K01", "K03"}, "nostake": {"K01"}, "arg": {"K03"}}


class Stake(Adapter):
    spec = "stake"
    contracts = ["token", "stake"]
    invariants = ["totalMatches", "stakesCovered", "unbondReturnsOwn", "stakesOnlyByOwner", "claimedOnce",
                  "claimPaysReported", "solvent", "paidWithinGiven", "flowsByRole", "flowsUnique", "validConfig",
                  "configFixed", "rejectedIsNoop", "announced"]

    def start(self, s):
        w = self.w
        w.new()
        toks = self.toks = sorted(s.s.toks)
        names = ["u1", "u2", "u3", "mgr", "own", "adm", "minter"]
        self.a = dict(zip(names, w.gen(len(names))))
        self.frame = w.make_frame()
        self.tok = {t: w.register("token", [addr(self.a["minter"]), u32(7), string(t), string(t)]) for t in toks}
        for x, b in s.s.bal.items():
            for t in toks:
                n = b[t] + (sum(k.amt for k in s.s.users[x].stakes) if t == "lp" and x in USERS else 0)
                if n and x != "stk":
                    w.call(self.tok[t], "mint", addr(self.a[x]), i128(n))
        self.k = self.a["stk"] = w.register("stake", [])
        self.h = w.upload("stake")
        self.name = {v: k for k, v in self.a.items()}
        self.tname = {v: k for k, v in self.tok.items()}
        if s.s.inited:
            self.past(s.s)

    def past(self, st):
        """what happened before the behaviour starts"""
        w, a, g = self.w, self.a, st.cfg
        w.ledger(ts=0)
        do = lambda fn, *args: self.expect({"K01", "K04"}, f"{fn} before the behaviour starts", w.call(self.k, fn, *args).ok, True)
        do("initialize", addr(a[g.admin]), addr(self.tok["lp"]), i128(g.minBond), i128(g.minReward), addr(a[g.manager]),
           addr(a[g.owner]), u32(g.maxc))
        for t, u, n in sorted(((k.ts, u, i) for u in USERS for i, k in enumerate(st.users[u].stakes)), key=lambda z: z[0]):
            w.ledger(ts=t)
            do("bond", addr(a[u]), i128(st.users[u].stakes[n].amt))
        for t in st.flows:
            do("create_distribution_flow", addr(a[g.manager]), addr(self.tok[t]))

    def step(self, before, s):
        c, o, st, pre = s.call, s.out, s.s, before.s
        w, a, k, op = self.w, self.a, self.k, c.op
        self.note(op, o)
        w.ledger(ts=pre.now)
        target, fn, args = {
            "initialize": lambda: (k, "initialize", [addr(a[c.adm]), addr(self.tok["lp"]), i128(c.c1), i128(c.c2),
                                                     addr(a[c.mgr]), addr(a[c.own]), u32(c.c3)]),
            "bond": lambda: (k, "bond", [addr(a[c.who]), i128(c.x)]),
            "unbond": lambda: (k, "unbond", [addr(a[c.who]), i128(c.x), u64(c.ts)]),
            "create": lambda: (k, "create_distribution_flow", [addr(a[c.who]), addr(self.tok[c.tok])]),
            "distribute": lambda: (k, "distribute_rewards", [addr(a[c.who]), i128(c.x), addr(self.tok[c.tok])]),
            "claim": lambda: (k, "withdraw_rewards", [addr(a[c.who])]),
            "donate": lambda: (self.tok[c.tok], "transfer", [addr(a[c.who]), addr(k), i128(c.x)]),
            "update": lambda: (k, "update", [hexbytes(self.h)]),
        }[op]()
        r = w.call(target, fn, *args, unsigned=not c.signed, au=True, ev=self.focus == "E01")
        label = f"{op} by {c.who}"
        own = OWN[op]
        if r.ok != o.ok:
            if r.ok:
                props = set(own) if not o.why & {"auth", "role"} else {"K04"}
                for g in o.why:
                    props |= GUARD.get(g, own)
                if op in ("bond", "unbond"):
                    props |= {"K01"}
                raise Div(props, f"{label} was accepted, the specification refuses it ({', '.join(sorted(o.why))})")
            raise Div(own | ({"K04"} if op in ("create", "distribute") else set()),
                      f"{label} failed ({r.err}), the specification accepts it")
        if o.ok and c.signed:
            roots = {(self.name.get(z, z), q == target and f == fn) for z, q, f in r.auth_roots()}
            if op == "claim":
                # whether the staker has to sign a claim of its own rewards is not specified
                roots -= {(c.who, True)}
            self.expect({"K04"} | own, f"{label}: accounts whose authorisation of exactly this call is required",
                        roots, {(z, True) for z in o.auth})
        self.observe(before, s, own, label)
        if o.ok and self.focus == "E01":
            self.heard(r, s, {k: "stk"}, {**self.name, **self.tname}, label)

    def observe(self, before, s, own, label):
        st, k, a, w = s.s, self.k, self.a, self.w
        if not st.inited:
            return
        w.ledger(ts=st.now)
        qs = [(k, "query_config", []), (k, "query_admin", []), (k, "query_total_staked", [])]
        for u in USERS:
            qs += [(k, "query_staked", [addr(a[u])]), (k, "query_withdrawable_rewards", [addr(a[u])])]
        for t in self.toks:
            qs += [(self.tok[t], "balance", [addr(a[x])]) for x in ACCTS]
        rs = w.multi(self.frame, qs)
        for (_, f, _), r in zip(qs, rs):
            if not r.ok:
                raise Div({"K02", "K03"} if f == "query_withdrawable_rewards" else {"K01"} | own,
                          f"{label}: {f} failed afterwards")
        got = [r.ret for r in rs]
        g = st.cfg
        self.expect({"K04"}, f"{label}: configuration",
                    [got[0]["config"], self.name.get(got[1])],
                    [{"lp_token": self.tok["lp"], "min_bond": g.minBond, "min_reward": g.minReward,
                      "manager": a[g.manager], "owner": a[g.owner], "max_complexity": g.maxc}, g.admin])
        i = 9
        for t in self.toks:
            for x in ACCTS:
                p = {"bond": {"K01"}, "unbond": {"K01"}}.get(s.call.op, {"K03", "K02"})
                if t == "lp" and x == "stk":
                    p = p | {"K01"}
                self.expect(p | own, f"{label}: {t} balance of {x}", got[i], st.bal[x][t])
                i += 1
        self.expect({"K01"}, f"{label}: total staked", got[2], st.total)
        for j, u in enumerate(USERS):
            q = got[3 + 2 * j]
            self.expect({"K01"}, f"{label}: stakes of {u}",
                        [[x["stake"], x["stake_timestamp"]] for x in q["stakes"]], [[x.amt, x.ts] for x in st.users[u].stakes])
            self.expect({"K01"}, f"{label}: total stake of {u}", q["total_stake"], sum(x.amt for x in st.users[u].stakes))
            self.expect({"K02"}, f"{label}: last claim of {u}", q["last_reward_time"], st.users[u].last)
            got_r = [[self.tname.get(x["reward_address"]), x["reward_amount"]] for x in got[4 + 2 * j]["rewards"]]
            self.expect({"K02", "K03"}, f"{label}: withdrawable rewards of {u}", got_r,
                        [[t, s.owed[u][t]] for t in st.flows])
