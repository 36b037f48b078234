"""python3 -m phx.replay FILE: replays a recorded violation into the current tree's contracts."""
import importlib
import json
import sys

from . import build, core, itf
from .world import World


def main():
    rec = json.load(open(sys.argv[1]))
    cls = getattr(importlib.import_module(rec["adapter"]), rec["class"])
    build.harness()
    build.wasm(cls.contracts)
    states = []
    for s in rec["itf"]["states"]:
        states.append(itf.R({k: itf.dec(v) for k, v in s.items() if not k.startswith("#") and k != "prev"}))
    w = World(build.BIN, build.WASM, {k: build.FILES[k] for k in cls.contracts})
    ad = cls(w, rec["props"][0])
    ad.opts = rec.get("opts", {})
    for i, s in enumerate(states[1:], 1):
        print(i, json.dumps(core.brief(s)))
    k, d = core.replay_states(ad, states)
    w.close()
    if d is None:
        print("no divergence: the code follows the specification on this behaviour")
        return 0
    print(f"step {k}: {d.msg}  (concerns {', '.join(sorted(d.props))})")
    return 1


if __name__ == "__main__":
    sys.exit(main())
