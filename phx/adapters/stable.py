"""spec/stable.qnt against contracts/pool_stable."""
from ..core import Adapter, Div, Stop
from ..world import addr, hexbytes, i128, i64, in_order, opt, string, struct, u32, u64, u128

ACCTS = ["u1", "u2", "u3", "adm", "adm2", "fee", "fee2", "pool", "sink"]
OPPROP = {"swap": "S01", "provide": "S02", "withdraw": "S02", "config": "S06", "initialize": "S06",
          "upgrade": "S06", "update": "S06", "donate": "S03"}
LIMITS = {"deadline", "min", "spread", "fee", "slipmax", "spreadmax", "arg", "minliq", "empty", "price"}


class Stable(Adapter):
    spec = "stable"
    contracts = ["token", "stake", "stable"]
    invariants = ["swapParity", "swapKeepsInvariant", "swapFee", "backed", "conserved", "noDebt", "depositSyncs",
                  "supply", "noDilution", "proRata", "limits", "rejectedIsNoop", "validConfig", "onlyAdminConfigures",
                  "ampFixed", "paidByAuthorised", "quoted", "announced"]

    def start(self, s):
        w = self.w
        w.new()
        names = [a for a in ACCTS if a != "pool"]
        got = w.gen(len(names) + 3)
        self.a = dict(zip(names, got))
        minter, self.factory, self.manager = got[len(names):]
        # the pool wants its tokens in address order: decimals are assigned to freshly sorted addresses
        self.ta, self.tb = in_order(w.gen(2))
        for t, d, tax in ((self.ta, s.s.decA, s.s.taxA), (self.tb, s.s.decB, s.s.taxB)):
            if tax:
                w.register("taxed", [u32(d), i128(tax), addr(self.a["sink"])], at=t)
                self.stats["cov:tokens that keep a part of transfers"] += 1
            else:
                w.register("token", [addr(minter), u32(d), string("T"), string("T")], at=t)
        self.frame = w.make_frame()
        for u, b in s.s.bal.items():
            for t, v in ((self.ta, b.a), (self.tb, b.b)):
                if v:
                    w.call(t, "mint", addr(self.a[u]), i128(v))
        self.sh, self.th, self.ph = w.upload("stake"), w.upload("token"), w.upload("stable")
        self.pool = self.a["pool"] = w.register("stable", [])
        self.name = {v: k for k, v in self.a.items()}
        self.lp = None
        self.stats[f"cov:decimals {min(s.s.decA, s.s.decB)}/{max(s.s.decA, s.s.decB)}"] += 1

    # ------------------------------------------------------------------------------------------
    def call(self, c):
        a = self.a
        op = c.op
        if op == "initialize":
            ta, tb = (self.ta, self.tb) if c.tok == "ab" else (self.tb, self.ta)
            info = struct(admin=addr(a[c.sAdmin]), fee_recipient=addr(a[c.sFeeTo]), max_allowed_slippage_bps=i64(c.c2),
                          max_allowed_spread_bps=i64(c.c3), max_referral_bps=i64(0), default_slippage_bps=i64(c.n1),
                          swap_fee_bps=i64(c.c1),
                          stake_init_info=struct(manager=addr(self.manager), max_complexity=u32(7), min_bond=i128(1),
                                                 min_reward=i128(1)),
                          token_init_info=struct(token_a=addr(ta), token_b=addr(tb)))
            return self.pool, "initialize", [hexbytes(self.sh), hexbytes(self.th), info, addr(self.factory), u32(7),
                                             string("Pool share"), string("PHX-LP"), u64(c.n3), i64(c.n2)]
        if op == "provide":
            return self.pool, "provide_liquidity", [addr(a[c.who]), i128(c.x), i128(c.y), opt(i64, c.slip),
                                                    opt(u64, c.dl), opt(u128, c.ms)]
        if op == "swap":
            return self.pool, "swap", [addr(a[c.who]), addr(self.token(c.tok)), i128(c.x), opt(i128, c.ox),
                                       opt(i64, c.slip), opt(u64, c.dl), opt(i64, c.fee)]
        if op == "withdraw":
            return self.pool, "withdraw_liquidity", [addr(a[c.who]), i128(c.x), i128(c.n1), i128(c.n2), opt(u64, c.dl)]
        if op == "donate":
            return self.token(c.tok), "transfer", [addr(a[c.who]), addr(a[c.sFeeTo]), i128(c.x)]
        if op == "config":
            return self.pool, "update_config", [
                addr(a[c.who]), addr(a[c.sAdmin]) if c.sAdmin else None, opt(i64, c.c1),
                addr(a[c.sFeeTo]) if c.sFeeTo else None, opt(i64, c.c2), opt(i64, c.c3)]
        if op in ("upgrade", "update"):
            return self.pool, op, [hexbytes(self.ph)]
        raise AssertionError(op)

    def token(self, t):
        return {"a": self.ta, "b": self.tb, "lp": self.lp or self.frame}[t]

    def guard_props(self, op, why):
        out = {OPPROP[op]}
        for g in why:
            if g in LIMITS:
                out.add("S04")
            if g in ("auth", "admin"):
                out |= {"S06", "S03"}
            if g == "funds":
                out.add("S03")
        return out

    def step(self, before, s):
        c, o, st, pre = s.call, s.out, s.s, before.s
        op, own = c.op, OPPROP[c.op]
        self.note(op, o)
        w = self.w
        w.ledger(ts=pre.now)
        target, fn, args = self.call(c)
        r = w.call(target, fn, *args, unsigned=not c.signed, au=True, ev=self.focus == "E01")
        label = f"{op} by {c.who}"
        if r.ok != o.ok:
            if r.ok:
                if o.why == {"range"}:
                    raise Stop()
                raise Div(self.guard_props(op, o.why), f"{label} was accepted, the specification refuses it "
                          f"({', '.join(sorted(o.why))})")
            raise Div({own, "S04"} if op in ("swap", "provide", "withdraw") else {own},
                      f"{label} failed ({r.err}), the specification accepts it")
        self.stats["comparisons"] += 1
        if not o.ok:
            if self.focus == "S05" or self.stats["refused calls observed"] % 4 == 0:
                self.observe(st, own, s.q if self.focus == "S05" else None, label + " (refused)")
            self.stats["refused calls observed"] += 1
            return
        if c.signed:
            roots = {(self.name.get(x, x), k == target and f == fn) for x, k, f in r.auth_roots()}
            self.expect({"S06", "S03", own}, f"{label}: accounts whose authorisation of exactly this call is required",
                        roots, {(x, True) for x in o.auth})
        if op == "initialize":
            q = w.multi(self.frame, [(self.pool, "query_share_token_address", []),
                                     (self.pool, "query_stake_contract_address", [])])
            if not all(x.ok for x in q):
                raise Div({"S06", "S05"}, "address queries failed after initialisation")
            self.lp, self.stake = q[0].ret, q[1].ret
            d = w.multi(self.frame, [(self.lp, "decimals", [])])[0]
            self.expect({"S06", "S02"}, "decimals of the pool share", d.ret, max(st.decA, st.decB))
        if op == "swap":
            self.expect({"S01"}, f"{label}: amount returned", r.ret, o.r1)
        if op == "withdraw":
            self.expect({"S02"}, f"{label}: amounts returned", r.ret, [o.r1, o.r2])
        self.observe(st, own, s.q, label)
        if self.focus == "E01":
            self.heard(r, s, {self.pool: "pool"}, {**self.name, self.ta: "a", self.tb: "b"}, label)

    def observe(self, st, own, q, label):
        if self.lp is None:
            return
        w, pool = self.w, self.pool
        qs = [(pool, "query_pool_info", []), (pool, "query_config", []), (pool, "query_total_issued_lp", []),
              (pool, "query_pool_info_for_factory", [])]
        for t in (self.ta, self.tb, self.lp):
            qs += [(t, "balance", [addr(self.a[x])]) for x in ACCTS]
        rs = w.multi(self.frame, qs)
        for (k, f, _), r in zip(qs, rs):
            if not r.ok:
                raise Div({"S05", own}, f"{label}: {f} failed afterwards")
        info, cfg, total, fac = (r.ret for r in rs[:4])
        bal = [r.ret for r in rs[4:]]
        n = len(ACCTS)
        for i, x in enumerate(ACCTS):
            b = st.bal[x]
            self.expect({own, "S03"}, f"{label}: token balances of {x}", [bal[i], bal[n + i]], [b.a, b.b])
        for i, x in enumerate(ACCTS):
            self.expect({"S02", own}, f"{label}: LP balance of {x}", bal[2 * n + i], st.bal[x].lp)
        self.expect({own, "S03", "S05"}, f"{label}: recorded reserves",
                    [info["asset_a"]["amount"], info["asset_b"]["amount"]], [st.ra, st.rb])
        self.expect({"S02", "S05", own}, f"{label}: recorded shares", info["asset_lp_share"]["amount"], st.total)
        self.expect({"S02", "S05"}, f"{label}: query_total_issued_lp", total, st.total)
        self.expect({"S05"}, f"{label}: pool information addresses",
                    [info["asset_a"]["address"], info["asset_b"]["address"], info["asset_lp_share"]["address"],
                     info["stake_address"]], [self.ta, self.tb, self.lp, self.stake])
        k = st.cfg
        self.expect({"S06", "S05"}, f"{label}: stored configuration",
                    [cfg["token_a"], cfg["token_b"], cfg["share_token"], cfg["stake_contract"], cfg["total_fee_bps"],
                     self.name.get(cfg["fee_recipient"]), cfg["max_allowed_slippage_bps"], cfg["max_allowed_spread_bps"],
                     cfg["default_slippage_bps"]],
                    [self.ta, self.tb, self.lp, self.stake, k.fee, k.feeTo, k.maxSlip, k.maxSpread, k.defSlip])
        self.expect({"S05"}, f"{label}: pool information for the factory",
                    [fac["pool_address"], fac["pool_response"], fac["total_fee_bps"]], [pool, info, k.fee])
        if q is not None and q.on and q.x > 0 and st.total > 0:
            self.quotes(st, q, label)

    def quotes(self, st, q, label):
        w, pool = self.w, self.pool
        wb, wa = q.y * st.rb // 10000, q.y * st.ra // 10000
        sh = q.y * st.total // 10000
        qs = [(pool, "simulate_swap", [addr(self.ta), i128(q.x)]), (pool, "simulate_swap", [addr(self.tb), i128(q.x)]),
              (pool, "simulate_reverse_swap", [addr(self.ta), i128(wb)]),
              (pool, "simulate_reverse_swap", [addr(self.tb), i128(wa)]),
              (pool, "query_share", [i128(sh)])]
        rs = w.multi(self.frame, qs)
        for r, e, d, x in ((rs[0], q.sab, "a", q.x), (rs[1], q.sba, "b", q.x)):
            got = [r.ret[f] for f in ("ask_amount", "commission_amount", "spread_amount", "total_return")] if r.ok else None
            want = [e.ret, e.comm, e.spread, e.ret + e.comm + e.spread] if e.ok else None
            self.expect({"S05"}, f"{label}: simulate_swap of {x} {d}", got, want)
            self.stats["cov:swap quotes " + ("compared" if e.ok else "refused by both")] += 1
        for r, e, d, x in ((rs[2], q.ra, "a", wb), (rs[3], q.rb, "b", wa)):
            got = [r.ret[f] for f in ("offer_amount", "commission_amount", "spread_amount")] if r.ok else None
            want = [e.offer, e.comm, e.spread] if e.ok else None
            self.expect({"S05"}, f"{label}: simulate_reverse_swap paying {d}, wanting {x}", got, want)
            self.stats["cov:reverse quotes " + ("compared" if e.ok else "refused by both")] += 1
        r = rs[4]
        if max(sh, st.total) * 10 ** 18 < 2 ** 127:
            got = [[x["address"], x["amount"]] for x in r.ret] if r.ok else None
            self.expect({"S05", "S02"}, f"{label}: query_share of {sh}", got, [[self.ta, q.sh.a], [self.tb, q.sh.b]])
