"""spec/dex.qnt against contracts/factory, the pools and stakes it creates, and contracts/multihop."""
from ..core import Adapter, Div
from ..itf import R
from ..world import addr, hexbytes, i128, i64, in_order, opt, string, struct, u32, u64

USERS = ["u1", "u2", "u3"]
HOLD = ["u1", "u2", "u3", "fee", "fee2", "router"]
TOKENS = ["t1", "t2", "t3", "t4"]
POOLOPS = {"provide", "withdraw", "bond", "unbond", "claim", "lpSend", "donate", "poolFee"}
OWN = {"fInit": {"F02"}, "create": {"F01", "F03"}, "whitelist": {"F02"}, "hashes": {"F02"}, "fUpdate": {"F02"},
       "mswap": {"M01"}, "mquote": {"M03"}, "mrquote": {"M03"}, "mInit": {"M02"}, "mUpdate": {"M02"}}
GUARD = {"create": {"auth": {"F02"}, "white": {"F02"}, "exists": {"F01"}, "code": {"F02", "F03"}},
         "mswap": {"funds": {"M01"}, "price": {"M01"}, "arg": {"M01", "M02"}}}


class Dex(Adapter):
    spec = "dex"
    contracts = ["token", "stake", "pool", "stable", "factory", "multihop"]
    invariants = ["onePerPair", "registryGrows", "createdByWhitelisted", "onlyAdmin", "whitelistExact", "validPools",
                  "portfolioSound", "supply", "backed", "conserved", "noDebt", "routerEmpty", "chain", "othersUntouched",
                  "routeSound", "rejectedIsNoop", "quotesAreNoops", "announced"]

    def start(self, s):
        w = self.w
        w.new()
        names = USERS + ["fee", "fee2", "adm", "adm2", "mgr", "minter"]
        self.a = dict(zip(names, w.gen(len(names))))
        self.tok = dict(zip(TOKENS, in_order(w.gen(4))))
        for t, ad in self.tok.items():
            w.register("token", [addr(self.a["minter"]), u32(s.s.dec[t]), string(t.upper()), string(t.upper())], at=ad)
        self.frame = w.make_frame()
        for u in USERS:
            for t in TOKENS:
                w.call(self.tok[t], "mint", addr(self.a[u]), i128(s.s.bal[u][t]))
        h = {n: w.upload(n) for n in self.contracts}
        self.own_hash, self.hop_hash = h["factory"], h["multihop"]
        self.hash = {"lp": {"good": h["pool"], "junk": h["token"]}, "stable": {"good": h["stable"], "junk": h["token"]},
                     "stake": {"good": h["stake"], "junk": h["token"]}, "token": {"good": h["token"], "junk": h["stake"]}}
        self.f = w.register("factory", [])
        self.name = {v: k for k, v in self.a.items()}
        self.tname = {v: k for k, v in self.tok.items()}
        self.pools = []
        self.router = None
        if s.s.inited:
            self.past(s.s)

    def past(self, st):
        """the market a behaviour starts with: every pool created and given its first deposit"""
        w = self.w
        w.ledger(ts=st.now)

        def do(c, pre):
            target, fn, args = self.call(c, pre)
            r = w.call(target, fn, *args)
            self.expect({"F01", "F02", "F03", "M01"}, f"{c.op} before the behaviour starts", r.ok, True)
            return r
        c = R(op="fInit", who="adm", add=list(st.white), x=st.lpDec)
        self.results(c, None, do(c, st), st, "fInit")
        for i, p in enumerate(st.pools):
            u = next(u for u in USERS if p.lp[u])
            c = R(op="create", who="u1", a=p.a, b=p.b, stable=p.stable, amp=p.amp if p.stable else None, fee=p.fee,
                      maxSlip=p.maxSlip, maxSpread=p.maxSpread, maxRef=p.maxRef, defSlip=p.defSlip, infoSlip=p.defSlip,
                      maxFee=10000, feeTo=p.feeTo, admin=p.admin, manager=p.manager, minBond=p.minBond,
                      minReward=p.minReward, maxc=p.maxc)
            self.results(c, None, do(c, st), st, f"creation of pool {i}")
            for t, n in ((p.a, p.ra), (p.b, p.rb)):
                w.call(self.tok[t], "mint", addr(self.a[u]), i128(n))
            do(R(op="provide", who=u, i=i, x=p.ra, y=p.rb), st)

    # ------------------------------------------------------------------------------------------
    def ops(self, route):
        return [struct(ask_asset=addr(self.tok[h.a]), offer_asset=addr(self.tok[h.o]),
                       ask_asset_min_amount=opt(i128, h.min)) for h in route]

    def call(self, c, pre):
        a, op, f = self.a, c.op, self.f
        if op == "fInit":
            g = {k: hexbytes(v["good"]) for k, v in self.hash.items()}
            return f, "initialize", [addr(a[c.who]), hexbytes(self.hop_hash), g["lp"], g["stable"], g["stake"], g["token"],
                                     [addr(a[x]) for x in c.add], u32(c.x)]
        if op == "create":
            info = struct(admin=addr(a[c.admin]), swap_fee_bps=i64(c.fee), fee_recipient=addr(a[c.feeTo]),
                          max_allowed_slippage_bps=i64(c.maxSlip), default_slippage_bps=i64(c.infoSlip),
                          max_allowed_spread_bps=i64(c.maxSpread), max_referral_bps=i64(c.maxRef),
                          token_init_info=struct(token_a=addr(self.tok[c.a]), token_b=addr(self.tok[c.b])),
                          stake_init_info=struct(min_bond=i128(c.minBond), min_reward=i128(c.minReward),
                                                 manager=addr(a[c.manager]), max_complexity=u32(c.maxc)))
            n = len(self.pools)
            return f, "create_liquidity_pool", [addr(a[c.who]), info, string(f"Share {n}"), string(f"LP{n}"),
                                                u32(1 if c.stable else 0), opt(u64, c.amp), i64(c.defSlip), i64(c.maxFee)]
        if op == "whitelist":
            return f, "update_whitelisted_accounts", [addr(a[c.who]), [addr(a[x]) for x in c.add], [addr(a[x]) for x in c.rem]]
        if op == "hashes":
            g = [hexbytes(self.hash[k][x]) if x else None for k, x in (("lp", c.h1), ("stake", c.h2), ("token", c.h3))]
            return f, "update_wasm_hashes", g
        if op == "fUpdate":
            return f, "update", [hexbytes(self.own_hash), hexbytes(self.hash["stable"][c.h1])]
        if op in ("mswap", "mquote", "mrquote"):
            pt = u32(1 if c.stable else 0)
            if op == "mswap":
                return self.router, "swap", [addr(a[c.who]), self.ops(c.route), opt(i64, c.slip), i128(c.x), pt,
                                             opt(u64, c.dl), opt(i64, c.okFee)]
            return self.router, "simulate_swap" if op == "mquote" else "simulate_reverse_swap", [self.ops(c.route), i128(c.x), pt]
        if op == "mInit":
            return self.router, "initialize", [addr(a[c.who]), addr(self.f)]
        if op == "mUpdate":
            return self.router, "update", [hexbytes(self.hop_hash)]
        p, q = self.pools[c.i], pre.pools[c.i]
        who = addr(a[c.who])
        if op == "provide":
            return p["pool"], "provide_liquidity", [who, i128(c.x), None, i128(c.y), None, None, None] if not q.stable \
                else [who, i128(c.x), i128(c.y), None, None, None]
        if op == "withdraw":
            return p["pool"], "withdraw_liquidity", [who, i128(c.x), i128(1), i128(1), None]
        if op == "lpSend":
            return p["lp"], "transfer", [who, addr(a[c.admin]), i128(c.x)]
        if op == "bond":
            return p["stake"], "bond", [who, i128(c.x)]
        if op == "claim":
            return p["stake"], "withdraw_rewards", [who]
        if op == "unbond":
            return p["stake"], "unbond", [who, i128(c.x), u64(c.y)]
        if op == "donate":
            return self.tok[q.a], "transfer", [who, addr(p["pool"]), i128(c.x)]
        if op == "poolFee":
            return p["pool"], "update_config", [who, None, i64(c.fee), None, None, None] if q.stable else \
                [None, i64(c.fee), None, None, None, None]
        raise AssertionError(op)

    def own(self, op):
        # what a pool does is judged by other checks; here it only disturbs what users can redeem
        return OWN.get(op, {"F04"})

    def guard_props(self, op, why):
        out = set()
        for g in why:
            if g == "auth" and op in ("mswap", "mUpdate"):
                out.add("M02")
            elif op in POOLOPS:
                return {"other"}
            elif op == "create":
                out |= GUARD["create"].get(g, {"F03"})
            elif op == "mswap":
                out |= GUARD["mswap"].get(g, {"M02"})
            elif op in ("mquote", "mrquote"):
                out |= {"M03"} if g == "price" else {"M02"}
            else:
                out |= OWN[op]
        return out

    def step(self, before, s):
        c, o, st, pre = s.call, s.out, s.s, before.s
        w, op = self.w, c.op
        self.note(op, o)
        w.ledger(ts=pre.now)
        if op.startswith("m") and self.router is None:
            raise Div({"F02"}, "no router after initialisation")
        target, fn, args = self.call(c, pre)
        r = w.call(target, fn, *args, unsigned=not c.signed, au=True, ev=self.focus == "E01")
        label = f"{op} by {c.who}" if c.who else op
        if not o.ok and o.why == {"range"}:
            return
        if r.ok != o.ok:
            if r.ok:
                raise Div(self.guard_props(op, o.why), f"{label} was accepted, the specification refuses it "
                          f"({', '.join(sorted(o.why))})")
            props = {"create": {"F01", "F02", "F03"}, "mswap": {"M01", "M02"}, "mquote": {"M03", "M02"},
                     "mrquote": {"M03", "M02"}}.get(op, {"other"} if op in POOLOPS else OWN.get(op))
            raise Div(props, f"{label} failed ({r.err}), the specification accepts it")
        self.stats["comparisons"] += 1
        if o.ok and c.signed and op not in POOLOPS:
            roots = {(self.name.get(x, x), k == target and f == fn) for x, k, f in r.auth_roots()}
            self.expect({"M02", "M01"} if op == "mswap" else {"F02"} if op == "create" else OWN[op],
                        f"{label}: accounts whose authorisation of exactly this call is required",
                        roots, {(x, True) for x in o.auth})
        if o.ok:
            self.results(c, o, r, st, label)
        if st.inited and (o.ok or self.stats["refused calls observed"] % 3 == 0):
            self.observe(st, s.pf, op, label)
        self.stats["refused calls observed"] += not o.ok
        if o.ok and self.focus == "E01":
            by = {self.f: "factory", self.router: "router"}
            by.update({q[k]: k[0] + str(i) for i, q in enumerate(self.pools) for k in ("pool", "stake")})
            self.heard(r, s, by, {**self.name, **self.tname, **{q["lp"]: f"l{i}" for i, q in enumerate(self.pools)}}, label)

    def results(self, c, o, r, st, label):
        w, op = self.w, c.op
        if op == "fInit":
            g = w.multi(self.frame, [(self.f, "get_config", [])])[0]
            if not g.ok:
                raise Div({"F02"}, f"{label}: no configuration afterwards")
            self.router = g.ret["multihop_address"]
            self.a["router"] = self.router
            self.name[self.router] = "router"
        elif op == "create":
            self.stats[f"cov:{'stable' if c.stable else 'constant-product'} pools created"] += 1
            self.created(r.ret, c, st.lpDec, st.dec, label)
        elif op in ("mquote", "mrquote"):
            fwd = op == "mquote"
            q = r.ret
            self.expect({"M03"}, f"{label}: quoted amount", q["ask_amount" if fwd else "offer_amount"], o.rs[0])
            self.expect({"M03"}, f"{label}: quoted fees", q["commission_amounts"],
                        [[(h.o if fwd else h.a).upper(), o.rs[1 + 2 * i]] for i, h in enumerate(c.route)])
            self.expect({"M03"}, f"{label}: quoted spreads", q["spread_amount"],
                        [o.rs[2 + 2 * i] for i in range(len(c.route))])
        if op in ("mswap", "mquote", "mrquote"):
            self.stats[f"cov:{op} over {len(c.route)} hops"] += 1

    def created(self, pool, c, lp_dec, decs, label):
        """F03: everything a new pool was asked to be"""
        w, a = self.w, self.a
        rs = w.multi(self.frame, [(pool, "query_config", []), (pool, "query_share_token_address", []),
                                  (pool, "query_stake_contract_address", [])])
        if not all(x.ok for x in rs):
            raise Div({"F03", "F01"}, f"{label}: the new pool answers no queries")
        cfg, lp, stake = (x.ret for x in rs)
        known = {x for q in self.pools for x in q.values()} | set(self.tok.values()) | set(self.a.values())
        self.expect({"F03", "F01"}, f"{label}: new addresses", len({pool, lp, stake} - known), 3)
        n = len(self.pools)
        self.pools.append({"pool": pool, "lp": lp, "stake": stake})
        rs = w.multi(self.frame, [(stake, "query_config", []), (stake, "query_admin", []), (lp, "decimals", []),
                                  (lp, "name", []), (lp, "symbol", [])])
        if not all(x.ok for x in rs):
            raise Div({"F03"}, f"{label}: the new stake or LP token answers no queries")
        sc, sa, dec, nm, sy = (x.ret for x in rs)
        self.expect({"F03"}, f"{label}: pool tokens and limits",
                    [cfg["token_a"], cfg["token_b"], cfg["share_token"], cfg["stake_contract"], cfg["total_fee_bps"],
                     cfg["fee_recipient"], cfg["max_allowed_slippage_bps"], cfg["max_allowed_spread_bps"],
                     cfg["default_slippage_bps" if c.stable else "max_referral_bps"], cfg["pool_type"]],
                    [self.tok[c.a], self.tok[c.b], lp, stake, c.fee, a[c.feeTo], c.maxSlip, c.maxSpread,
                     c.infoSlip if c.stable else c.maxRef, 1 if c.stable else 0])
        self.expect({"F03"}, f"{label}: staking contract",
                    [sc["config"], sa],
                    [{"lp_token": lp, "min_bond": c.minBond, "min_reward": c.minReward, "manager": a[c.manager],
                      "owner": self.f, "max_complexity": c.maxc}, a[c.admin]])
        self.expect({"F03"}, f"{label}: LP token", [nm, sy], [f"Share {n}", f"LP{n}"])
        if c.stable:
            self.expect({"F03"}, f"{label}: decimals of the LP token", dec, max(decs[c.a], decs[c.b]))
        else:
            self.expect({"F03"}, f"{label}: decimals of the LP token", dec, lp_dec)

    def observe(self, st, pf, op, label):
        w, f, a = self.w, self.f, self.a
        own = self.own(op)
        n = len(st.pools)
        qs = [(f, "query_pools", []), (f, "query_all_pools_details", []), (f, "get_config", []), (f, "get_admin", [])]
        pairs = [(x, y) for x in TOKENS for y in TOKENS]
        qs += [(f, "query_for_pool_by_token_pair", [addr(self.tok[x]), addr(self.tok[y])]) for x, y in pairs]
        qs += [(self.tok[t], "balance", [addr(a[x])]) for x in HOLD for t in TOKENS]
        for i, p in enumerate(st.pools):
            q = self.pools[i]
            qs += [(self.tok[p.a], "balance", [addr(q["pool"])]), (self.tok[p.b], "balance", [addr(q["pool"])]),
                   (f, "query_pool_details", [addr(q["pool"])])]
            qs += [(q["lp"], "balance", [addr(x)]) for x in [a["u1"], a["u2"], a["u3"], q["pool"]]]
        deep = self.focus == "F04"
        if deep:
            qs += [(f, "query_user_portfolio", [addr(a[u]), flag]) for u in USERS for flag in (True, False)]
        rs = iter(w.multi(self.frame, qs))

        def get(props, what):
            r = next(rs)
            if not r.ok:
                raise Div(props, f"{label}: {what} failed afterwards")
            return r.ret
        lst = get({"F01"}, "query_pools")
        det = get({"F03", "F01"}, "query_all_pools_details")
        cfg = get({"F02"}, "get_config")
        adm = get({"F02"}, "get_admin")
        self.expect({"F01"}, f"{label}: pool list", lst, [q["pool"] for q in self.pools])
        self.expect({"F02"}, f"{label}: administrator and whitelist",
                    [self.name.get(adm), self.name.get(cfg["admin"]), [self.name.get(x) for x in cfg["whitelisted_accounts"]]],
                    ["adm", "adm", list(st.white)])
        self.expect({"F02"}, f"{label}: code and router", [cfg["lp_wasm_hash"], cfg["stake_wasm_hash"], cfg["token_wasm_hash"],
                                                           cfg["multihop_address"], cfg["lp_token_decimals"]],
                    [self.hash["lp"][st.h.lp], self.hash["stake"][st.h.stake], self.hash["token"][st.h.token],
                     self.router, st.lpDec])
        for x, y in pairs:
            r = next(rs)
            want = [self.pools[i]["pool"] for i, p in enumerate(st.pools) if {p.a, p.b} == {x, y}]
            self.expect({"F01"}, f"{label}: pool found for {x}/{y}", [r.ret] if r.ok else [], want)
        for x in HOLD:
            got = [get(own, "balance") for t in TOKENS]
            self.expect(own | ({"M01"} if x == "router" else set()), f"{label}: balances of {x}", got,
                        [st.bal[x][t] for t in TOKENS])
        want = []
        for i, p in enumerate(st.pools):
            q = self.pools[i]
            want.append({"pool_address": q["pool"], "total_fee_bps": p.fee, "pool_response": {
                "asset_a": {"address": self.tok[p.a], "amount": p.ra}, "asset_b": {"address": self.tok[p.b], "amount": p.rb},
                "asset_lp_share": {"address": q["lp"], "amount": p.total}, "stake_address": q["stake"]}})
        props = own | {"F03"} if op not in ("mswap",) else own
        self.expect(props, f"{label}: details of all pools", det, want)
        for i, p in enumerate(st.pools):
            self.expect(own, f"{label}: tokens in pool {i}", [get(own, "balance"), get(own, "balance")], [p.ha, p.hb])
            self.expect(props, f"{label}: details of pool {i}", get(props, "query_pool_details"), want[i])
            self.expect(own, f"{label}: LP balances of pool {i}", [get(own, "balance") for _ in range(4)],
                        [p.lp[u] for u in USERS + ["pool"]])
        if deep:
            for u in USERS:
                for staking in (True, False):
                    self.portfolio(st, u, pf[u], get({"F04"}, f"query_user_portfolio of {u}"), staking, label)

    def portfolio(self, st, u, want, got, staking, label):
        self.expect({"F04"}, f"{label}: portfolio of {u}",
                    [[[x["address"], x["amount"]] for x in e["assets"]] for e in got["lp_portfolio"]],
                    [[[self.tok[st.pools[e.i].a], e.a], [self.tok[st.pools[e.i].b], e.b]] for e in want])
        self.expect({"F04"}, f"{label}: stakes in the portfolio of {u}",
                    [[e["staking_contract"], [[k["stake"], k["stake_timestamp"]] for k in e["stakes"]]]
                     for e in got["stake_portfolio"]],
                    [[self.pools[i]["stake"], [[k.amt, k.ts] for k in p.stakes[u]]]
                     for i, p in enumerate(st.pools) if staking and p.stakes[u]])
        self.stats[f"cov:portfolios over {len(want)} pools"] += 1
