"""spec/vesting.qnt against contracts/vesting."""
from ..core import Adapter, Div
from ..world import addr, hexbytes, i128, string, struct, sym, u32, u64, u128

ACCTS = ["r1", "r2", "r3", "adm", "m1", "m2", "ves"]
RECS = ["r1", "r2", "r3", "adm"]
OWN = {"init": {"V03", "V04"}, "initm": {"V03", "V04"}, "create": {"V02", "V03"}, "claim": {"V01"}, "mint": {"V04"},
       "burn": {"V04"}, "minter": {"V04"}, "capacity": {"V04"}, "donate": {"V02"}, "update": {"V03"}}
GUARD = {"auth": set(), "empty": {"V03"}, "dup": {"V03"}, "constant": {"V03"}, "order": {"V03"}, "increases": {"V03", "V01"},
         "unfinished": {"V03", "V01"}, "complexity": {"V03"}, "funds": {"V02"}, "noschedule": {"V01"}, "nothing": {"V01"}}


def curve(c):
    pt = [(p.x, p.y) for p in c.pts]
    if c.kind == "const":
        return [sym("Constant"), u128(pt[0][1])]
    if c.kind == "sat":
        return [sym("SaturatingLinear"), struct(min_x=u64(pt[0][0]), min_y=u128(pt[0][1]), max_x=u64(pt[1][0]), max_y=u128(pt[1][1]))]
    return [sym("PiecewiseLinear"), struct(steps=[struct(time=u64(x), value=u128(y)) for x, y in pt])]


def curve_val(c):
    """the curve as the contract reports it"""
    pt = [(p.x, p.y) for p in c.pts]
    if c.kind == "const":
        return ["Constant", pt[0][1]]
    if c.kind == "sat":
        return ["SaturatingLinear", {"min_x": pt[0][0], "min_y": pt[0][1], "max_x": pt[1][0], "max_y": pt[1][1]}]
    return ["PiecewiseLinear", {"steps": [{"time": x, "value": y} for x, y in pt]}]


class Vesting(Adapter):
    spec = "vesting"
    contracts = ["token", "vesting"]
    invariants = ["neverEarly", "endedAllClaimable", "claimPaysClaimable", "backed", "onlyGrows", "soundOnly",
                  "createdByAdmin", "supply", "mintWithinCapacity", "capacityByAdmin", "rejectedIsNoop", "announced"]

    def start(self, s):
        w = self.w
        w.new()
        names = [x for x in ACCTS if x != "ves"] + ["minter"]
        self.a = dict(zip(names, w.gen(len(names))))
        self.frame = w.make_frame()
        self.t = w.register("token", [addr(self.a["minter"]), u32(7), string("VEST"), string("VST")])
        for x, b in s.s.bal.items():
            n = b + (s.s.bal["ves"] if x == "adm" else 0)
            if n and x != "ves":
                w.call(self.t, "mint", addr(self.a[x]), i128(n))
        self.k = self.a["ves"] = w.register("vesting", [])
        w.call(self.t, "set_admin", addr(self.k))
        self.h = w.upload("vesting")
        self.name = {v: k for k, v in self.a.items()}
        self.info = struct(name=string("VEST"), symbol=string("VST"), decimals=u32(7), address=addr(self.t))
        if s.s.inited:
            self.past(s.s)

    def past(self, st):
        """what happened before the behaviour starts"""
        w, a = self.w, self.a
        w.ledger(ts=5000)
        do = lambda fn, *args: self.expect({"V01", "V02", "V03"}, f"{fn} before the behaviour starts", w.call(self.k, fn, *args).ok, True)
        if st.minter.who:
            do("initialize_with_minter", addr(a["adm"]), self.info, u32(st.maxc),
               struct(address=addr(a[st.minter.who]), mint_capacity=u128(st.minter.cap)))
        else:
            do("initialize", addr(a["adm"]), self.info, u32(st.maxc))
        i = 0
        while True:
            batch = [(x, st.vest[x][i]) for x in RECS if i < len(st.vest[x])]
            if not batch:
                break
            do("create_vesting_schedules", [struct(recipient=addr(a[x]), curve=curve(v.curve)) for x, v in batch])
            i += 1

    def step(self, before, s):
        c, o, st, pre = s.call, s.out, s.s, before.s
        w, a, k, op = self.w, self.a, self.k, c.op
        self.note(op, o)
        w.ledger(ts=pre.now)
        target, fn, args = {
            "init": lambda: (k, "initialize", [addr(a["adm"]), self.info, u32(c.x)]),
            "initm": lambda: (k, "initialize_with_minter", [
                addr(a["adm"]), self.info, u32(c.x), struct(address=addr(a[c.dst]), mint_capacity=u128(c.cap))]),
            "create": lambda: (k, "create_vesting_schedules", [
                [struct(recipient=addr(a[x.who]), curve=curve(x.curve)) for x in c.batch]]),
            "claim": lambda: (k, "claim", [addr(a[c.who]), u64(c.i)]),
            "mint": lambda: (k, "mint", [addr(a[c.who]), i128(c.x)]),
            "burn": lambda: (k, "burn", [addr(a[c.who]), u128(c.x)]),
            "minter": lambda: (k, "update_minter", [addr(a[c.who]), addr(a[c.dst])]),
            "capacity": lambda: (k, "update_minter_capacity", [addr(a[c.who]), u128(c.cap)]),
            "donate": lambda: (self.t, "transfer", [addr(a[c.who]), addr(a[c.dst]), i128(c.x)]),
            "update": lambda: (k, "update", [hexbytes(self.h)]),
        }[op]()
        r = w.call(target, fn, *args, unsigned=not c.signed, au=True, ev=self.focus == "E01")
        own, label = OWN[op], f"{op} by {c.who}"
        if r.ok != o.ok:
            if r.ok:
                props = set(own)
                for g in o.why:
                    props |= GUARD.get(g, own)
                raise Div(props, f"{label} was accepted, the specification refuses it ({', '.join(sorted(o.why))})")
            raise Div(own, f"{label} failed ({r.err}), the specification accepts it")
        if o.ok and c.signed:
            roots = {(self.name.get(z, z), q == target and f == fn) for z, q, f in r.auth_roots()}
            self.expect(own, f"{label}: accounts whose authorisation of exactly this call is required",
                        roots, {(z, True) for z in o.auth})
        if not o.ok and self.stats["op:" + op] % 3:
            return
        self.observe(s, own, label)
        if o.ok and self.focus == "E01":
            self.heard(r, s, {k: "ves"}, self.name, label)

    def observe(self, s, own, label):
        st, k, a, w = s.s, self.k, self.a, self.w
        if not st.inited:
            return
        w.ledger(ts=st.now)
        qs = [(self.t, "balance", [addr(a[x])]) for x in ACCTS]
        qs += [(k, "query_minter", []), (k, "query_token_info", []), (k, "query_vesting_contract_balance", []),
               (k, "query_balance", [addr(a["r2"])])]
        n0 = len(qs)
        qs += [(k, "query_all_vesting_info", [addr(a[x])]) for x in RECS]
        n1 = len(qs)
        for x in RECS:
            for i in range(len(st.vest[x]) + 1):
                qs += [(k, "query_vesting_info", [addr(a[x]), u64(i)]), (k, "query_available_to_claim", [addr(a[x]), u64(i)])]
        rs = w.multi(self.frame, qs)
        for x, r in zip(ACCTS, rs):
            p = {"claim": {"V01", "V02"}, "create": {"V02"}, "mint": {"V04"}, "burn": {"V04"}}.get(s.call.op, {"V02"})
            self.expect(p | own, f"{label}: balance of {x}", r.ret if r.ok else None, st.bal[x])
        m, ti, cb, rb = (r.ret if r.ok else None for r in rs[len(ACCTS):n0])
        self.expect({"V04"}, f"{label}: minter", m and [self.name.get(m["address"]), m["mint_capacity"]],
                    [st.minter.who, st.minter.cap] if st.minter.who else None)
        self.expect({"V02"}, f"{label}: token information", ti,
                    {"name": "VEST", "symbol": "VST", "decimals": 7, "address": self.t})
        self.expect({"V02"}, f"{label}: reported contract balance", cb, st.bal["ves"])
        self.expect({"V02"}, f"{label}: reported balance of r2", rb, st.bal["r2"])
        j = n1
        for x, r in zip(RECS, rs[n0:n1]):
            want = [{"balance": v.bal, "recipient": a[x], "schedule": curve_val(v.curve)} for v in st.vest[x]]
            self.expect({"V02"} | ({"V01"} if s.call.op == "claim" else set()), f"{label}: schedules of {x}",
                        r.ret if r.ok else None, want)
            for i in range(len(want) + 1):
                one, av = rs[j], rs[j + 1]
                j += 2
                self.expect({"V02"}, f"{label}: schedule {i} of {x}", one.ret if one.ok else None,
                            want[i] if i < len(want) else None)
                self.expect({"V01"}, f"{label}: claimable of schedule {i} of {x}", av.ret if av.ok else None,
                            s.owed[x][i] if i < len(want) else None)
                self.stats["cov:claimable amounts compared"] += 1
