"""spec/xyk.qnt against contracts/pool."""
from ..core import Adapter, Div, Stop
from ..world import addr, hexbytes, i128, i64, in_order, opt, string, struct, sym, u32, u64

ACCTS = ["u1", "u2", "u3", "adm", "adm2", "fee", "fee2", "pool", "sink"]
OPPROP = {"swap": "P01", "provide": "P03", "withdraw": "P04", "config": "P07", "initialize": "P07",
          "upgrade": "P07", "update": "P07", "donate": "P02"}
LIMITS = {"deadline", "min", "slip", "spread", "fee", "slipmax", "spreadmax", "both"}


def pool_init_args(stake_hash, token_hash, ta, tb, admin, fee_to, fee, maxslip, maxspread, maxref, default, maxfee,
                   factory, manager, min_bond=1, min_reward=1, max_complexity=7, info_default=None):
    info = struct(admin=addr(admin), fee_recipient=addr(fee_to), max_allowed_slippage_bps=i64(maxslip),
                  max_allowed_spread_bps=i64(maxspread), max_referral_bps=i64(maxref),
                  default_slippage_bps=i64(default if info_default is None else info_default),
                  swap_fee_bps=i64(fee),
                  stake_init_info=struct(manager=addr(manager), max_complexity=u32(max_complexity),
                                         min_bond=i128(min_bond), min_reward=i128(min_reward)),
                  token_init_info=struct(token_a=addr(ta), token_b=addr(tb)))
    return [hexbytes(stake_hash), hexbytes(token_hash), info, addr(factory), u32(7), string("Pool share"),
            string("PHX-LP"), i64(default), i64(maxfee)]


class Xyk(Adapter):
    spec = "xyk"
    contracts = ["token", "stake", "pool"]
    invariants = ["swapKeepsProduct", "swapPriceBound", "backed", "conserved", "noDebt", "depositSyncs", "supply",
                  "noDilution", "locked", "proRata", "takesAtMostDesired", "limits", "rejectedIsNoop", "validConfig",
                  "onlyAdminConfigures", "paidByAuthorised", "quoted", "announced"]

    def start(self, s):
        w = self.w
        w.new()
        names = [a for a in ACCTS if a != "pool"]
        got = w.gen(len(names) + 3)
        self.a = dict(zip(names, got))
        minter, self.factory, self.manager = got[len(names):]
        da, db = self.decimals(s)
        self.ta, self.tb = in_order(w.gen(2))
        for t, d, tax in ((self.ta, da, s.s.taxA), (self.tb, db, s.s.taxB)):
            if tax:
                w.register("taxed", [u32(d), i128(tax), addr(self.a["sink"])], at=t)
                self.stats["cov:tokens that keep a part of transfers"] += 1
            else:
                w.register("token", [addr(minter), u32(d), string("T"), string("T")], at=t)
        self.frame = w.make_frame()
        for u, b in s.s.bal.items():
            for t, v in ((self.ta, b.a), (self.tb, b.b)):
                if v:
                    w.call(t, "mint", addr(self.a[u]), i128(v))
        self.sh, self.th, self.ph = w.upload("stake"), w.upload("token"), w.upload("pool")
        self.pool = self.a["pool"] = w.register("pool", [])
        self.name = {v: k for k, v in self.a.items()}
        self.lp = None

    def decimals(self, s):
        # the pool does not look at them
        return (7, 7) if s.s.bal["u1"].a < 10 ** 12 else (6, 9)

    # ------------------------------------------------------------------------------------------
    def call(self, c):
        a = self.a
        op = c.op
        if op == "initialize":
            ta, tb = (self.ta, self.tb) if c.tok == "ab" else (self.tb, self.ta)
            return self.pool, "initialize", pool_init_args(
                self.sh, self.th, ta, tb, a[c.sAdmin], a[c.sFeeTo], c.c1, c.c2, c.c3, c.c4, c.n1, c.n2,
                self.factory, self.manager)
        if op == "provide":
            return self.pool, "provide_liquidity", [
                addr(a[c.who]), opt(i128, c.ox), opt(i128, c.omx), opt(i128, c.oy), opt(i128, c.omy),
                opt(i64, c.slip), opt(u64, c.dl)]
        if op == "swap":
            return self.pool, "swap", [addr(a[c.who]), addr(self.token(c.tok)), i128(c.x), opt(i128, c.ox),
                                       opt(i64, c.slip), opt(u64, c.dl), opt(i64, c.fee)]
        if op == "withdraw":
            return self.pool, "withdraw_liquidity", [addr(a[c.who]), i128(c.x), i128(c.n1), i128(c.n2), opt(u64, c.dl)]
        if op == "donate":
            return self.token(c.tok), "transfer", [addr(a[c.who]), addr(a[c.sFeeTo]), i128(c.x)]
        if op == "config":
            return self.pool, "update_config", [
                addr(a[c.sAdmin]) if c.sAdmin else None, opt(i64, c.c1),
                addr(a[c.sFeeTo]) if c.sFeeTo else None, opt(i64, c.c2), opt(i64, c.c3), opt(i64, c.c4)]
        if op == "upgrade":
            return self.pool, "upgrade", [hexbytes(self.ph), i64(c.n1)]
        if op == "update":
            return self.pool, "update", [hexbytes(self.ph)]
        raise AssertionError(op)

    def token(self, t):
        return {"a": self.ta, "b": self.tb, "lp": self.lp or self.frame}[t]

    def guard_props(self, op, why):
        own = OPPROP[op]
        out = {own}
        for g in why:
            if g in LIMITS or g in ("arg", "minliq", "empty", "price"):
                out.add("P05")
            if g == "auth":
                out |= {"P07", "P02"}
            if g == "funds":
                out.add("P02")
        return out

    def step(self, before, s):
        c, o, st, pre = s.call, s.out, s.s, before.s
        op, own = c.op, OPPROP[c.op]
        self.note(op, o)
        w = self.w
        w.ledger(ts=pre.now)
        target, fn, args = self.call(c)
        r = w.call(target, fn, *args, unsigned=not c.signed, au=True, ev=self.focus == "E01")
        label = f"{op} by {c.who}"
        if r.ok != o.ok:
            if r.ok:
                if o.why == {"range"}:
                    raise Stop()
                raise Div(self.guard_props(op, o.why), f"{label} was accepted, the specification refuses it "
                          f"({', '.join(sorted(o.why))})")
            raise Div({own, "P05"} if op in ("swap", "provide", "withdraw") else {own},
                      f"{label} failed ({r.err}), the specification accepts it")
        self.stats["comparisons"] += 1
        if not o.ok:
            if self.focus == "P06" or self.stats["refused calls observed"] % 4 == 0:
                self.observe(st, own, s.q if self.focus == "P06" else None, label + " (refused)")
            self.stats["refused calls observed"] += 1
            return
        if c.signed:
            roots = {(self.name.get(x, x), k == target and f == fn) for x, k, f in r.auth_roots()}
            self.expect({"P07", "P02", own}, f"{label}: accounts whose authorisation of exactly this call is required",
                        roots, {(x, True) for x in o.auth})
        if op == "initialize":
            q = w.multi(self.frame, [(self.pool, "query_share_token_address", [])])[0]
            if not q.ok:
                raise Div({"P07", "P06"}, "query_share_token_address failed after initialisation")
            self.lp = q.ret
        if op == "swap":
            self.expect({"P01"}, f"{label}: amount returned", r.ret, o.r1)
        if op == "withdraw":
            self.expect({"P04"}, f"{label}: amounts returned", r.ret, [o.r1, o.r2])
        self.observe(st, own, s.q if self.focus in ("P06", "P04") else None, label)
        if self.focus == "E01":
            self.heard(r, s, {self.pool: "pool"}, {**self.name, self.ta: "a", self.tb: "b"}, label)

    def observe(self, st, own, q, label):
        if self.lp is None:
            return
        w, pool = self.w, self.pool
        qs = [(pool, "query_pool_info", []), (pool, "query_config", []), (pool, "query_total_issued_lp", []),
              (pool, "query_pool_info_for_factory", [])]
        for t in (self.ta, self.tb, self.lp):
            qs += [(t, "balance", [addr(self.a[x])]) for x in ACCTS]
        rs = w.multi(self.frame, qs)
        for (k, f, _), r in zip(qs, rs):
            if not r.ok:
                raise Div({"P06", own}, f"{label}: {f} failed afterwards")
        info, cfg, total, fac = (r.ret for r in rs[:4])
        bal = [r.ret for r in rs[4:]]
        n = len(ACCTS)
        for i, x in enumerate(ACCTS):
            b = st.bal[x]
            self.expect({own, "P02"}, f"{label}: token balances of {x}", [bal[i], bal[n + i]], [b.a, b.b])
        for i, x in enumerate(ACCTS):
            self.expect({"P03", "P04", own}, f"{label}: LP balance of {x}", bal[2 * n + i], st.bal[x].lp)
        self.expect({own, "P02", "P06"}, f"{label}: recorded reserves",
                    [info["asset_a"]["amount"], info["asset_b"]["amount"]], [st.ra, st.rb])
        self.expect({"P03", "P04", "P06", own}, f"{label}: recorded shares", info["asset_lp_share"]["amount"], st.total)
        self.expect({"P03", "P04", "P06"}, f"{label}: query_total_issued_lp", total, st.total)
        self.expect({"P06"}, f"{label}: pool information addresses",
                    [info["asset_a"]["address"], info["asset_b"]["address"], info["asset_lp_share"]["address"]],
                    [self.ta, self.tb, self.lp])
        k = st.cfg
        self.expect({"P07", "P06"}, f"{label}: stored configuration",
                    [cfg["token_a"], cfg["token_b"], cfg["share_token"], cfg["total_fee_bps"], self.name.get(cfg["fee_recipient"]),
                     cfg["max_allowed_slippage_bps"], cfg["max_allowed_spread_bps"], cfg["max_referral_bps"]],
                    [self.ta, self.tb, self.lp, k.fee, k.feeTo, k.maxSlip, k.maxSpread, k.maxRef])
        self.expect({"P06"}, f"{label}: pool information for the factory",
                    [fac["pool_address"], fac["pool_response"], fac["total_fee_bps"]], [pool, info, k.fee])
        if q is not None and st.total > 0:
            self.quotes(st, q, label)

    def quotes(self, st, q, label):
        w, pool = self.w, self.pool
        wb, wa = q.y * st.rb // 10000, q.y * st.ra // 10000
        sh = q.y * st.total // 10000
        qs = [(pool, "simulate_swap", [addr(self.ta), i128(q.x)]), (pool, "simulate_swap", [addr(self.tb), i128(q.x)]),
              (pool, "simulate_reverse_swap", [addr(self.tb), i128(wb)]),
              (pool, "simulate_reverse_swap", [addr(self.ta), i128(wa)]),
              (pool, "query_share", [i128(sh)])]
        rs = w.multi(self.frame, qs)
        for r, e, d, x in ((rs[0], q.sab, "a", q.x), (rs[1], q.sba, "b", q.x)):
            if max(e.spread + e.ret, q.x * max(st.ra, st.rb) // min(st.ra, st.rb)) >= 2 ** 126:
                continue
            got = [r.ret[f] for f in ("ask_amount", "commission_amount", "spread_amount", "total_return")] if r.ok else None
            want = [e.ret, e.comm, e.spread, e.ret + e.comm + e.spread] if e.ok else None
            self.expect({"P06"}, f"{label}: simulate_swap of {x} {d}", got, want)
        for r, e, d, x, ask in ((rs[2], q.rb, "b", wb, st.rb), (rs[3], q.ra, "a", wa, st.ra)):
            if max(abs(e.offer * ask), st.ra * st.rb, x * 10 ** 18 * 10000 // max(1, 10000 - st.cfg.fee)) >= 2 ** 126:
                self.stats["cov:reverse quotes beyond 128 bits, not compared"] += 1
                continue
            got = [r.ret[f] for f in ("offer_amount", "commission_amount", "spread_amount")] if r.ok else None
            want = [e.offer, e.comm, e.spread] if e.ok else None
            self.expect({"P06"}, f"{label}: simulate_reverse_swap for {x} {d}", got, want)
        r = rs[4]
        if sh * 10 ** 18 >= 2 ** 126 or max(st.ra, st.rb) * 10 ** 18 >= 2 ** 126:
            return
        got = [[x["address"], x["amount"]] for x in r.ret] if r.ok else None
        self.expect({"P06", "P04"}, f"{label}: query_share of {sh}", got, [[self.ta, q.sh.a], [self.tb, q.sh.b]])
        self.stats["cov:quotes compared"] += 5
