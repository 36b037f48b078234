"""spec/token.qnt against contracts/token."""
from ..core import Adapter, Div
from ..world import addr, i128, string, u32

ACCTS = ["u1", "u2", "u3", "adm", "adm2"]
OWNERS, SPENDERS = ["u1", "u2", "u3"], ["u1", "u2", "u3", "adm"]
OWN = {"mint": {"T01", "T03"}, "set_admin": {"T03"}, "approve": {"T02"}, "transfer": {"T01", "T02"},
       "burn": {"T01", "T02"}, "transfer_from": {"T01", "T02"}, "burn_from": {"T01", "T02"}, "construct": {"T03"}}
GUARD = {"negative": {"T01"}, "overflow": {"T01"}, "funds": {"T01"}, "allowance": {"T02"}, "expired": {"T02"},
         "decimals": {"T03"}}


class Token(Adapter):
    spec = "token"
    contracts = ["token"]
    invariants = ["supplyMatches", "noDebt", "transferConserves", "rejectedIsNoop", "spendAuthorised",
                  "allowanceOnlyByOwner", "mintByAdmin", "adminByAdmin", "announced"]

    def start(self, s):
        w = self.w
        w.new()
        self.a = dict(zip(ACCTS, w.gen(len(ACCTS))))
        self.name = {v: k for k, v in self.a.items()}
        w.ledger(seq=s.s.seq)
        self.t = w.register("token", [addr(self.a["adm"]), u32(s.s.dec), string("Name%d" % s.s.dec), string("SYM")])
        self.frame = w.make_frame()
        self.observe(s.s, {"T01", "T02", "T03"}, "constructor")

    def step(self, before, s):
        c, o, st, pre = s.call, s.out, s.s, before.s
        a, w, op = self.a, self.w, c.op
        self.note(op, o)
        w.ledger(seq=pre.seq)
        if op == "construct":
            self.construct(c, o)
            return
        x = i128(c.x)
        args = {
            "mint": lambda: [addr(a[c.to]), x],
            "set_admin": lambda: [addr(a[c.to])],
            "approve": lambda: [addr(a[c["from"]]), addr(a[c.spender]), x, u32(c.exp)],
            "transfer": lambda: [addr(a[c["from"]]), addr(a[c.to]), x],
            "burn": lambda: [addr(a[c["from"]]), x],
            "transfer_from": lambda: [addr(a[c.spender]), addr(a[c["from"]]), addr(a[c.to]), x],
            "burn_from": lambda: [addr(a[c.spender]), addr(a[c["from"]]), x],
        }[op]()
        r = w.call(self.t, op, *args, unsigned=not c.signed, au=True, ev=self.focus == "E01")
        label = f"{op} of {c.x}"
        if r.ok != o.ok:
            if r.ok:
                props = set()
                for g in o.why:
                    props |= GUARD.get(g, OWN[op])
                raise Div(props, f"{label} was accepted, the specification refuses it ({', '.join(sorted(o.why))})")
            raise Div(OWN[op], f"{label} failed ({r.err}), the specification accepts it")
        if o.ok:
            roots = {(self.name.get(z, z), k == self.t and f == op) for z, k, f in r.auth_roots()}
            self.expect(OWN[op] - {"T01"}, f"{label}: accounts whose authorisation of exactly this call is required",
                        roots, {(z, True) for z in o.auth})
        self.observe(st, OWN[op], label)
        if o.ok and self.focus == "E01":
            self.heard(r, s, {self.t: "tok"}, self.name, label)

    def construct(self, c, o):
        from ..world import HarnessError
        try:
            t = self.w.register("token", [addr(self.a["adm"]), u32(c.x), string("N"), string("S")])
        except HarnessError:
            t = None
        self.expect({"T03"}, f"deploying a token with {c.x} decimals succeeds", t is not None, o.ok)
        if t:
            self.expect({"T03"}, "decimals", self.w.call(t, "decimals").ret, c.x)

    def observe(self, st, own, label):
        t, a = self.t, self.a
        qs = [(t, "balance", [addr(a[x])]) for x in ACCTS]
        qs += [(t, "allowance", [addr(a[f]), addr(a[p])]) for f in OWNERS for p in SPENDERS]
        qs += [(t, "decimals", []), (t, "name", []), (t, "symbol", [])]
        # the observation happens at the ledger the specification has moved to
        self.w.ledger(seq=st.seq)
        rs = self.w.multi(self.frame, qs)
        for (_, f, _), r in zip(qs, rs):
            if not r.ok:
                raise Div(own | {"T01"}, f"{label}: {f} failed afterwards")
        got = [r.ret for r in rs]
        for i, x in enumerate(ACCTS):
            self.expect({"T01"} | own, f"{label}: balance of {x}", got[i], st.bal[x])
        k = len(ACCTS)
        for f in OWNERS:
            for p in SPENDERS:
                al = st.allow[(f, p)]
                self.expect({"T02"}, f"{label}: allowance from {f} to {p} at ledger {st.seq}", got[k],
                            al.amt if al.exp >= st.seq else 0)
                k += 1
        self.expect({"T03"}, f"{label}: metadata", got[k:], [st.dec, "Name%d" % st.dec, "SYM"])
