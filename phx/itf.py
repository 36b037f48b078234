"""Reads the ITF traces `quint run` writes."""
import json


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#map" in v:
            return {dec(a): dec(b) for a, b in v["#map"]}
        if "#set" in v:
            return frozenset(_h(dec(x)) for x in v["#set"])
        if "#tup" in v:
            return tuple(dec(x) for x in v["#tup"])
        if set(v) == {"tag", "value"}:
            return None if v["tag"] == "None" else dec(v["value"]) if v["tag"] == "Some" else (v["tag"], dec(v["value"]))
        return R({k: dec(x) for k, x in v.items() if not k.startswith("#")})
    return v


def _h(x):
    if isinstance(x, dict):
        return tuple(sorted((k, _h(y)) for k, y in x.items()))
    if isinstance(x, list):
        return tuple(_h(y) for y in x)
    return x


class R(dict):
    """record with attribute access"""
    __getattr__ = dict.__getitem__


def states(path, skip=("prev",)):
    with open(path) as f:
        d = json.load(f)
    out = []
    for s in d["states"]:
        out.append(R({k: dec(v) for k, v in s.items() if not k.startswith("#") and k not in skip}))
    return out
