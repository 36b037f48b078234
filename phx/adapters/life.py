"""spec/life.qnt against the lifetimes of the ledger entries of all contracts."""
import json
import os

from ..core import Adapter, Div, Stop
from ..world import addr, decode, hexbytes, i128, i64, in_order, string, struct, sym, u32, u64, u128
from .xyk import pool_init_args

T0 = 1_700_000_000
START = 1_000_000           # ledger at which the behaviours begin
FOREVER = 4_000_000_000
DAY = 17280
WEEK_MIN, MONTH_MIN, NET_MIN = 6 * DAY, 29 * DAY, 4096
EXACT = bool(os.environ.get("LIFE_EXACT"))


class Life(Adapter):
    spec = "life"
    seq = 1
    contracts = ["token", "stake", "pool", "stable", "factory", "multihop", "vesting", "rewards", "trader"]
    invariants = ["keepsAlive", "onlyIdleArchived", "neverShortened"]

    def build(self):
        """one instance of every contract, in use; fills self.c (contracts), self.a (accounts), self.ops"""
        w = self.w
        w.new()
        w.ledger(ts=T0, seq=1)
        names = ["u1", "u2", "adm", "mgr", "fee", "minter", "stk", "own"]
        a = self.a = dict(zip(names, w.gen(len(names))))
        h = self.h = {n: w.upload(n) for n in self.contracts}
        c = self.c = {}
        c.update(zip("ABC", in_order(w.gen(3))))
        for t in "ABC":
            w.register("token", [addr(a["minter"]), u32(7), string("Token " + t), string(t)], at=c[t])
        c["T"] = w.register("token", [addr(a["minter"]), u32(7), string("VEST"), string("VST")])
        for t in "ABCT":
            for x in ("u1", "u2", "adm", "mgr", "own"):
                self.must(c[t], "mint", addr(a[x]), i128(10**15))
        c["F"] = w.register("factory", [])
        self.must(c["F"], "initialize", addr(a["adm"]), hexbytes(h["multihop"]), hexbytes(h["pool"]), hexbytes(h["stable"]),
                  hexbytes(h["stake"]), hexbytes(h["token"]), [addr(a["adm"])], u32(7))
        c["M"] = self.must(c["F"], "get_config").ret["multihop_address"]
        for p, (x, y) in (("P", "AB"), ("S", "BC")):
            self.create(c[x], c[y], p == "S")
            c[p] = self.must(c["F"], "query_for_pool_by_token_pair", addr(c[x]), addr(c[y])).ret
            c[p + "l"] = self.must(c[p], "query_share_token_address").ret
            c[p + "k"] = self.must(c[p], "query_stake_contract_address").ret
            self.must(c[p], "provide_liquidity", *self.deposit(p, 10**12))
        self.must(c["Pk"], "create_distribution_flow", addr(a["mgr"]), addr(c["A"]))
        c["V"] = w.register("vesting", [])
        self.must(c["T"], "set_admin", addr(c["V"]))
        self.must(c["V"], "initialize_with_minter", addr(a["adm"]),
                  struct(name=string("VEST"), symbol=string("VST"), decimals=u32(7), address=addr(c["T"])), u32(10),
                  struct(address=addr(a["mgr"]), mint_capacity=u128(10**15)))
        self.must(c["V"], "create_vesting_schedules", [self.schedule("u1")])
        c["R"] = w.register("rewards", [])
        self.must(c["R"], "initialize", addr(a["adm"]), addr(a["stk"]), addr(c["A"]), u32(1000), i128(1), i128(1000))
        c["D"] = w.register("trader", [])
        self.must(c["D"], "initialize", addr(a["adm"]), string("trader"), [addr(c["A"]), addr(c["B"])], addr(c["C"]))
        for t in "ABC":
            self.must(c[t], "transfer", addr(a["adm"]), addr(c["D"]), i128(10**12))
        self.stakes = {"u1": [], "u2": []}        # in Pk
        self.rstakes = []       # of u1 as reported to R
        self.fresh = 0
        self.name = {v: k for k, v in a.items()}
        self.cname = {v: k for k, v in c.items()}
        for op in ("k.bond", "r.bond", "k.distribute", "r.fund"):
            self.perform(op, T0)

    def must(self, c, f, *args):
        r = self.w.call(c, f, *args)
        if not r.ok:
            raise Div({"other"}, f"setting up: {f} failed ({r.err})")
        return r

    def create(self, x, y, stable):
        a = self.a
        info = struct(admin=addr(a["adm"]), swap_fee_bps=i64(30), fee_recipient=addr(a["fee"]), max_allowed_slippage_bps=i64(10000),
                      default_slippage_bps=i64(10000), max_allowed_spread_bps=i64(5000), max_referral_bps=i64(0),
                      token_init_info=struct(token_a=addr(x), token_b=addr(y)),
                      stake_init_info=struct(min_bond=i128(1), min_reward=i128(1), manager=addr(a["mgr"]), max_complexity=u32(10)))
        return self.must(self.c["F"], "create_liquidity_pool", addr(a["adm"]), info, string("Share"), string("LP"),
                         u32(1 if stable else 0), u64(85) if stable else None, i64(10000), i64(1000))

    def deposit(self, p, n, who="u1"):
        u = addr(self.a[who])
        return [u, i128(n), None, i128(n), None, None, None] if p == "P" else [u, i128(n), i128(n), None, None, None]

    def schedule(self, who):
        return struct(recipient=addr(self.a[who]), curve=[sym("SaturatingLinear"), struct(
            min_x=u64(T0), min_y=u128(10**12), max_x=u64(T0 + 10**9), max_y=u128(0))])

    def info(self, extra=()):
        tot = sum(x for x, _ in self.rstakes)
        return struct(stakes=[struct(stake=i128(x), stake_timestamp=u64(t)) for x, t in self.rstakes + list(extra)],
                      reward_debt=u128(0), last_reward_time=u64(0), total_stake=i128(tot))

    # ------------------------------------------------------------------------------------------
    def perform(self, op, ts, u="u1", tok="A"):
        """the calls an operation stands for; the reply of the last one"""
        w, a, c = self.w, {k: addr(v) for k, v in self.a.items()}, self.c
        me, you = a[u], a["u2" if u == "u1" else "u1"]
        A, B, C, k = addr(c["A"]), addr(c["B"]), addr(c["C"]), op.split(".")[0]
        f = op.split(".")[1]
        if k == "t":
            t = c[tok]
            if f in ("transfer_from", "burn_from"):
                r = w.call(t, "approve", me, you, i128(5), u32(self.seq + 100))
                if not r.ok:
                    return r
            return w.call(t, f, *{
                "transfer": [me, you, i128(5)], "transfer_from": [you, me, a["mgr"], i128(5)],
                "approve": [me, you, i128(5), u32(self.seq + 100)], "burn": [me, i128(5)],
                "burn_from": [you, me, i128(5)], "mint": [me, i128(5)], "set_admin": [a["minter"]],
                "balance": [me], "allowance": [me, you]}.get(f, []))
        if k in ("p", "s"):
            p = c[k.upper()]
            stable = k == "s"
            x, y = (B, C) if stable else (A, B)
            if f == "config":
                args = [a["adm"], None, i64(30), None, None, None] if stable else [None, i64(30), None, None, None, None]
                return w.call(p, "update_config", *args)
            if f == "upgrade":
                return w.call(p, "upgrade", hexbytes(self.h["stable" if stable else "pool"]), *([] if stable else [i64(10000)]))
            fn, args = {
                "provide": ("provide_liquidity", self.deposit(k.upper(), 10**6, u)),
                "swap": ("swap", [me, x, i128(10**8), None, None, None, None]),
                "back": ("swap", [me, y, i128(10**8), None, None, None, None]),
                "withdraw": ("withdraw_liquidity", [me, i128(10**4), i128(1), i128(1), None]),
                "update": ("update", [hexbytes(self.h["stable" if stable else "pool"])]),
                "quote": ("simulate_swap", [x, i128(10**6)]), "rquote": ("simulate_reverse_swap", [y, i128(10**6)]),
                "share": ("query_share", [i128(10**6)]),
            }.get(f, (f, []))
            return w.call(p, fn, *args)
        if k == "k":
            p = c["Pk"]
            if f == "bond":
                r = w.call(p, "bond", me, i128(1000))
                if r.ok:
                    self.stakes[u].append((1000, ts))
                return r
            if f == "unbond":
                r = w.call(p, "unbond", me, i128(self.stakes[u][-1][0]), u64(self.stakes[u][-1][1]))
                if r.ok:
                    self.stakes[u].pop()
                return r
            if f == "create":
                return w.call(p, "create_distribution_flow", a["mgr"], B)
            return w.call(p, {"claim": "withdraw_rewards", "distribute": "distribute_rewards", "staked": "query_staked",
                              "owed": "query_withdrawable_rewards"}.get(f, f), *{
                "claim": [me], "distribute": [a["mgr"], i128(1000), A],
                "staked": [me], "owed": [me], "update": [hexbytes(self.h["stake"])]}.get(f, []))
        if k == "r":
            p = c["R"]
            if f == "bond":
                r = w.call(p, "calculate_bond", me, self.info([(10**6, ts)]))
                if r.ok:
                    self.rstakes.append((10**6, ts))
                return r
            if f == "unbond":
                r = w.call(p, "calculate_unbond", me, self.info(), i128(self.rstakes[-1][0]))
                if r.ok:
                    self.rstakes.pop()
                return r
            tot = sum(x for x, _ in self.rstakes)
            return w.call(p, {"claim": "withdraw_rewards", "distribute": "distribute_rewards", "fund": "fund_distribution",
                              "owed": "query_withdrawable_reward", "yearly": "query_annualized_reward",
                              "given": "query_distributed_reward", "left": "query_undistributed_reward"}.get(f, f), *{
                "claim": [me, self.info()], "distribute": [i128(tot)], "fund": [u64(ts), u64(10**8), i128(10**9)],
                "owed": [me, self.info()], "yearly": [i128(tot)], "given": [A], "left": [A],
                "add_user": [a["u2"], struct(stakes=[], reward_debt=u128(0), last_reward_time=u64(0), total_stake=i128(5000))],
                "update": [hexbytes(self.h["rewards"])]}.get(f, []))
        if k == "v":
            return w.call(c["V"], {"create": "create_vesting_schedules", "minter": "update_minter", "capacity": "update_minter_capacity",
                                   "all": "query_all_vesting_info", "one": "query_vesting_info", "due": "query_available_to_claim",
                                   "balance": "query_balance"}.get(f, f), *{
                "claim": [me, u64(0)], "create": [[self.schedule("u2")]], "mint": [a["mgr"], i128(5)], "burn": [me, u128(5)],
                "minter": [a["mgr"], a["mgr"]], "capacity": [a["adm"], u128(10**15)], "all": [me], "one": [me, u64(0)],
                "due": [me, u64(0)], "balance": [me], "update": [hexbytes(self.h["vesting"])]}.get(f, []))
        if k == "f":
            if f == "create":
                x, y = in_order(w.register("token", [addr(self.a["minter"]), u32(7), string("N"), string("N")]) for _ in "xy")
                try:
                    return self.create(x, y, False)
                except Div:
                    return w.call(c["F"], "no_such_function")
            return w.call(c["F"], {"whitelist": "update_whitelisted_accounts", "hashes": "update_wasm_hashes", "pools": "query_pools",
                                   "pool": "query_pool_details", "all": "query_all_pools_details", "portfolio": "query_user_portfolio",
                                   "find": "query_for_pool_by_token_pair"}.get(f, f), *{
                "whitelist": [a["adm"], [a["u2"]], [a["u2"]]], "hashes": [hexbytes(self.h["pool"]), None, None],
                "pool": [addr(c["P"])], "portfolio": [me, True], "find": [A, B],
                "update": [hexbytes(self.h["factory"]), hexbytes(self.h["stable"])]}.get(f, []))
        if k == "m":
            def route(o, q): return [struct(ask_asset=q, offer_asset=o, ask_asset_min_amount=None)]
            st = f.endswith("S")
            o, q = (B, C) if st else (A, B)
            pt = u32(1 if st else 0)
            if f.startswith("swap"):
                return w.call(c["M"], "swap", me, route(o, q), None, i128(10**8), pt, None, None)
            if f.startswith("quote"):
                return w.call(c["M"], "simulate_swap", route(o, q), i128(10**6), pt)
            if f.startswith("rquote"):
                return w.call(c["M"], "simulate_reverse_swap", route(o, q), i128(10**6), pt)
            return w.call(c["M"], "update", hexbytes(self.h["multihop"]))
        assert k == "d", op
        return w.call(c["D"], {"trade": "trade_token"}.get(f, f), *{
            "trade": [a["adm"], A, addr(c["P"]), u64(10**8), None, None, None, None],
            "transfer": [a["adm"], me, i128(5), None]}.get(f, []))

    # ------------------------------------------------------------------------------------------
    def entry(self, c, k):
        """(contract, record) as the specification calls a ledger entry; a question mark for what it does not know"""
        key = k if k == "instance" else self.text(decode(k))
        return self.cname.get(decode(c), "?"), key.removeprefix("Balance:")

    def text(self, x):
        if isinstance(x, str):
            return self.name.get(x) or self.cname.get(x) or (x if len(x) < 40 else "?")
        if isinstance(x, (list, tuple)):
            return ":".join(self.text(y) for y in x)
        if isinstance(x, dict):
            return ",".join(self.text(y) for y in x.values())
        return str(x)

    def entries(self):
        """{entry as the harness writes it: contract, key, ledger until which it lives}"""
        return {json.dumps([c, k]): (c, k, l) for c, k, l in self.w.one(cmd="ttls")}

    def lives(self, want):
        """gives the entries the lives wanted, and all others (and the code) practically eternal ones"""
        n = {self.entry(c, k): (c, k) for c, k, _ in self.entries().values()}
        self.w.one(cmd="live", code=FOREVER, data=FOREVER, set=[[*n[r], l] for r, l in want.items() if r in n])

    def born(self, old, new, label):
        """entries made by a call are to be used for a while"""
        for i, (c, k, l) in new.items():
            if i not in old and k != "instance" and l < self.seq + MONTH_MIN:
                raise Div({"X01"}, f"{label}: the new record {'/'.join(self.entry(c, k))} lives for {l - self.seq} ledgers only")

    def start(self, s):
        self.build()
        self.born({}, self.entries(), "setting up")

    def step(self, before, s):
        c, o, pre, st = s.call, s.out, before.s, s.s
        self.note(c.op, o)
        label = f"{c.op} by {c.who}" + (f" on {c.tok}" if c.tok else "") + f" after {c.wait} ledgers"
        self.seq, ts = st.seq, T0 + 5 * (st.seq - START)
        base = {**pre.live, **{r: st.seq + NET_MIN - 1 for r in o.restored}}
        self.w.ledger(seq=st.seq, ts=ts)
        self.lives(base)
        old = self.entries()
        r = self.perform(c.op, ts, c.who, c.tok)
        if not r.ok:
            self.w.one(cmd="live", code=FOREVER, data=FOREVER)
            again = self.perform(c.op, ts, c.who, c.tok)
            raise Div({"X01"} if again.ok else {"other"}, f"{label} failed ({r.err})" + (" but not if nothing is archived" if again.ok else ""))
        new = self.entries()
        got = {self.entry(x, k): l for x, k, l in new.values()}
        for rec in sorted(base):
            l = got.get(rec)
            if l is None:
                continue
            short = rec not in o.long
            want = min(st.live[rec], st.seq + (WEEK_MIN if short else MONTH_MIN)) if rec in o.touched else base[rec]
            self.stats["comparisons"] += 1
            self.stats["cov:extended" if l > base[rec] else "cov:unchanged"] += 1
            if EXACT and l != st.live[rec] and not (rec[0] == "A" and c.op in ("r.unbond", "r.claim")):
                raise Div({"X01"}, f"{label}: exactly {rec} {l - st.seq} spec {st.live[rec] - st.seq}")
            if l < want:
                raise Div({"X01"}, f"{label}: {'/'.join(rec)} lives for {l - st.seq} more ledgers, the specification says {want - st.seq}")
        self.born(old, new, label)
