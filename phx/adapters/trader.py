"""spec/trader.qnt against contracts/trader (with real constant-product pools)."""
from ..core import Adapter, Div, Stop
from ..world import addr, i128, i64, in_order, opt, string, u32, u64
from .xyk import pool_init_args

TOKENS = ["a", "b", "c"]
ACCTS = ["adm", "adm2", "u1", "u2", "fee", "tr", "p1", "p2"]
OWN = {"initialize": {"D02"}, "trade": {"D01"}, "transfer": {"D01"}, "donate": {"D01"}, "sell": {"P01"}}
GUARD = {"auth": {"D02"}, "admin": {"D02"}, "bps": {"D02"}, "pair": {"D02"}, "twice": {"D02"}}


class Trader(Adapter):
    spec = "trader"
    contracts = ["token", "stake", "pool", "trader"]
    invariants = ["conserved", "tradesOrdered", "paysOrdered", "adminOnly", "onlyPair", "setOnce", "rejectedIsNoop", "announced"]

    def start(self, s):
        w = self.w
        w.new()
        names = ["adm", "adm2", "u1", "u2", "fee", "minter", "lp", "fac", "man"]
        a = self.a = dict(zip(names, w.gen(len(names))))
        self.dec = {}
        toks = in_order(w.register("token", [addr(a["minter"]), u32(d), string("T%d" % d), string("S%d" % d)]) for d in (6, 7, 9))
        self.tok = dict(zip(TOKENS, toks))
        self.frame = w.make_frame()
        self.meta = {t: [w.call(self.tok[t], f).ret for f in ("name", "symbol", "decimals")] for t in TOKENS}
        sh, th = w.upload("stake"), w.upload("token")
        self.k = a["tr"] = w.register("trader", [])
        w.ledger(ts=s.s.now)
        for n in ("p1", "p2"):
            p, q = a.setdefault(n, w.register("pool", [])), s.s.pool[n]
            r = w.call(p, "initialize", *pool_init_args(sh, th, self.tok[q.x], self.tok[q.y], a["adm2"], a[q.feeTo], q.fee, 500,
                                                        q.spread, 100, 100, 1000, a["fac"], a["man"]))
            for t, v in ((q.x, q.rx), (q.y, q.ry)):
                w.call(self.tok[t], "mint", addr(a["lp"]), i128(v))
            r2 = w.call(p, "provide_liquidity", addr(a["lp"]), i128(q.rx), None, i128(q.ry), None, None, None)
            if not (r.ok and r2.ok):
                raise Div({"P03", "P07"}, f"the pool could not be set up: {r.err} {r2.err}")
        for x, b in s.s.bal.items():
            for t in TOKENS:
                if b[t] and x not in ("p1", "p2"):
                    w.call(self.tok[t], "mint", addr(a[x]), i128(b[t]))
        self.name = {v: k for k, v in a.items()}

    def step(self, before, s):
        c, o, st, pre = s.call, s.out, s.s, before.s
        w, a, k, op = self.w, self.a, self.k, c.op
        self.note(op, o)
        w.ledger(ts=pre.now)
        g = c.o
        target, fn, args = {
            "initialize": lambda: (k, "initialize", [addr(a[c.who]), string(c.dst), [addr(self.tok[c.pa]), addr(self.tok[c.pb])],
                                                     addr(self.tok[c.tok])]),
            "trade": lambda: (k, "trade_token", [addr(a[c.who]), addr(self.tok[c.tok]), addr(a[c.pool]), opt(u64, g.amt),
                                                 opt(i64, g.spread), opt(u64, g.dl), opt(i128, g.min), opt(i64, g.fee)]),
            "transfer": lambda: (k, "transfer", [addr(a[c.who]), addr(a[c.dst]), i128(c.x),
                                                 addr(self.tok[c.tok]) if c.tok else None]),
            "donate": lambda: (self.tok[c.tok], "transfer", [addr(a[c.who]), addr(k), i128(c.x)]),
            "sell": lambda: (a[c.pool], "swap", [addr(a[c.who]), addr(self.tok[c.tok]), i128(c.x), None, None, None, None]),
        }[op]()
        r = w.call(target, fn, *args, unsigned=not c.signed, au=True, ev=self.focus == "E01")
        own, label = OWN[op], f"{op} by {c.who}"
        if r.ok != o.ok:
            if r.ok:
                if o.why == {"range"}:
                    raise Stop()
                props = set()
                for x in o.why:
                    props = props | GUARD.get(x, own)
                raise Div(props, f"{label} was accepted, the specification refuses it ({', '.join(sorted(o.why))})")
            raise Div(own, f"{label} failed ({r.err}), the specification accepts it")
        if o.ok and c.signed:
            roots = {(self.name.get(z, z), q == target and f == fn) for z, q, f in r.auth_roots()}
            self.expect({"D02"}, f"{label}: accounts whose authorisation of exactly this call is required",
                        roots, {(z, True) for z in o.auth})
        self.observe(st, own, label)
        if o.ok and self.focus == "E01":
            self.heard(r, s, {k: "tr", a["p1"]: "p1", a["p2"]: "p2"}, {**self.name, **{v: t for t, v in self.tok.items()}}, label)

    def observe(self, st, own, label):
        w, k, a = self.w, self.k, self.a
        w.ledger(ts=st.now)
        qs = [(self.tok[t], "balance", [addr(a[x])]) for x in ACCTS for t in TOKENS]
        n = len(qs)
        if st.inited:
            qs += [(k, f, []) for f in ("query_balances", "query_trading_pairs", "query_admin_address", "query_contract_name",
                                        "query_output_token_info")]
        got = [r.ret if r.ok else None for r in w.multi(self.frame, qs)]
        for i, x in enumerate(ACCTS):
            self.expect(own, f"{label}: balances of {x}", got[3 * i:3 * i + 3], [st.bal[x][t] for t in TOKENS])
        if not st.inited:
            return
        b, pair, adm, name, dest = got[n:]
        self.expect({"D01"}, f"{label}: reported balances", b, {
            f: {"symbol": self.meta[t][1], "amount": st.bal["tr"][t]}
            for f, t in (("output_token", st.dest), ("token_a", st.pa), ("token_b", st.pb))})
        self.expect({"D02"}, f"{label}: pair, admin and name", [pair, self.name.get(adm), name],
                    [[self.tok[st.pa], self.tok[st.pb]], st.admin, st.label])
        m = self.meta[st.dest]
        self.expect({"D01", "D02"}, f"{label}: output token", dest,
                    {"address": self.tok[st.dest], "name": m[0], "symbol": m[1], "decimal": m[2]})
