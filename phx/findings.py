"""Known findings: the committed list, and a probe per listed finding that shows it on the real code."""
import os
import re

from . import build

from .world import World, addr, hexbytes, i128, i64, in_order, string, struct, u32, u64

FILE = os.path.join(build.ROOT, "known-findings.txt")


def stable_pool(w, dec, amp):
    """a stable pool and somebody rich"""
    w.new()
    adm, fee_to, minter, fac, man, u = w.gen(6)
    ta, tb = in_order(w.register("token", [addr(minter), u32(d), string("T"), string("T")]) for d in dec)
    p = w.register("stable", [])
    info = struct(admin=addr(adm), fee_recipient=addr(fee_to), max_allowed_slippage_bps=i64(500),
                  max_allowed_spread_bps=i64(10000), max_referral_bps=i64(0), default_slippage_bps=i64(100),
                  swap_fee_bps=i64(0),
                  stake_init_info=struct(manager=addr(man), max_complexity=u32(7), min_bond=i128(1), min_reward=i128(1)),
                  token_init_info=struct(token_a=addr(ta), token_b=addr(tb)))
    r = w.call(p, "initialize", hexbytes(w.upload("stake")), hexbytes(w.upload("token")), info, addr(fac), u32(7),
               string("Pool share"), string("PHX"), u64(amp), i64(5000))
    for t in (ta, tb):
        w.call(t, "mint", addr(u), i128(10 ** 30))
    return (p, ta, tb, u) if r.ok else None


def stable_imbalanced():
    """a pool of 1,000,000 and 500,000 whole tokens at amplification 85 refuses to sell anything for 100 whole tokens"""
    w = World(build.BIN, build.WASM, {k: build.FILES[k] for k in ("token", "stake", "stable")})
    try:
        x = stable_pool(w, (7, 7), 85)
        if x is None:
            return False
        p, ta, tb, u = x
        if not w.call(p, "provide_liquidity", addr(u), i128(10 ** 13), i128(5 * 10 ** 12), None, None, None).ok:
            return False
        return not w.call(p, "simulate_swap", addr(ta), i128(10 ** 9)).ok
    finally:
        w.close()


PROBES = {"stable-imbalanced": stable_imbalanced}


def report(prop):
    """the KNOWN-FINDING lines of the findings of prop that still show"""
    out = []
    if not os.path.exists(FILE):
        return out
    with open(FILE) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) \[(\S+)\] (.*)", line)
            if m and m.group(1) == prop and PROBES[m.group(2)]():
                out.append(f"KNOWN-FINDING: property={prop} {m.group(3)}")
    return out
