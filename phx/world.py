"""Client of the harness process (harness/src/main.rs): a scratch Soroban ledger per World.new()."""
import base64
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """The harness itself failed (not the code under test)."""


# --- argument constructors -------------------------------------------------------------------
def i128(n): return {"i128": str(n)}
def u128(n): return {"u128": str(n)}
def i64(n): return {"i64": str(n)}
def u64(n): return {"u64": str(n)}
def u32(n): return {"u32": n}
def addr(a): return {"addr": a}
def sym(s): return {"sym": s}
def string(s): return {"str": s}
def hexbytes(h): return {"bytes": h}
def struct(**kw): return {"struct": kw}
def opt(f, x): return None if x is None else f(x)


def in_order(addresses):
    """the host's address order: by the bytes the base32 text stands for"""
    return sorted(addresses, key=base64.b32decode)


def decode(v):
    """harness JSON -> python value (maps become dicts, addresses stay strings)"""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, list):
        return [decode(x) for x in v]
    (k, x), = v.items()
    if k == "i":
        return int(x)
    if k in ("s", "a", "b"):
        return x
    if k == "m":
        return {decode(a): decode(b) for a, b in x}
    return v


class Reply:
    __slots__ = ("ok", "ret", "err", "auths", "events")

    def __init__(self, d):
        self.ok = d["ok"]
        self.ret = decode(d.get("ret")) if self.ok else None
        self.err = d.get("err")
        self.auths = d.get("auths")
        self.events = d.get("events")

    def auth_roots(self):
        """[(address, contract, function)] of the authorisations the call required, root level"""
        out = []
        for a, i in self.auths or []:
            if i.get("create"):
                out.append((decode(a), "create", "create"))
            else:
                out.append((decode(a), decode(i["c"]), decode(i["f"])))
        return out


class World:
    def __init__(self, binary, wasm_dir, wasms):
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)
        self.buf = []
        self.calls = 0
        self.batch([{"cmd": "wasm", "name": n, "path": os.path.join(wasm_dir, f)}
                    for n, f in wasms.items()])

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()

    def batch(self, cmds):
        if not cmds:
            return []
        try:
            self.p.stdin.write(json.dumps(cmds) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            raise HarnessError("harness process died on " + json.dumps(cmds)[:2000])
        outs = []
        for c, o in zip(cmds, json.loads(line)):
            if "r" in o:
                outs.append(Reply(o["r"]) if c["cmd"] == "call" else o["r"])
            elif "panic" in o and c["cmd"] == "call":
                # a panic that escapes the host counts as a failed call
                outs.append(Reply({"ok": False, "err": "panic: " + o["panic"]}))
            else:
                raise HarnessError(json.dumps(o)[:300] + " on " + json.dumps(c)[:500])
        return outs

    def one(self, **c):
        return self.batch([c])[0]

    def new(self):
        self.one(cmd="new")

    def make_frame(self):
        """a contract whose frame the queries run in; it never expires"""
        self.ledger(minp=6_311_000)
        f = self.register("token", [addr(self.gen(1)[0]), u32(7), string("frame"), string("frame")])
        self.ledger(minp=4096)
        return f

    def gen(self, n):
        return self.one(cmd="gen", n=n)

    def upload(self, name):
        return self.one(cmd="upload", name=name)

    def register(self, name, args, at=None):
        c = dict(cmd="register", name=name, args=args)
        if at:
            c["at"] = at
        return self.one(**c)

    def ledger(self, **kw):
        return self.one(cmd="ledger", **kw)

    def call(self, c, f, *args, unsigned=False, au=False, ev=False):
        self.calls += 1
        return self.one(cmd="call", c=c, f=f, a=list(args), unsigned=unsigned, au=au, ev=ev)

    def multi(self, at, qs):
        """[(contract, function, [args])] -> [Reply], in one top-level frame"""
        self.calls += len(qs)
        return [Reply(r) for r in self.one(cmd="multi", at=at, qs=[
            {"c": c, "f": f, "a": a} for c, f, a in qs])]

    @staticmethod
    def q(c, f, *args):
        return {"cmd": "call", "c": c, "f": f, "a": list(args)}
