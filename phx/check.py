"""python3 -m phx.check PROPERTY: decides one property on /repo's working tree."""
import json
import os
import sys
import time

from . import build, core, findings, proofs, registry


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    procs = int(os.environ.get("VERIF_PROCS", str(os.cpu_count() or 4)))
    t0 = time.time()
    jobs = registry.jobs(prop, tier)
    try:
        build.harness()
        need = set()
        for j in jobs:
            need |= set(j.adapter.contracts)
        build.wasm(sorted(need))
    except build.BuildError as e:
        print(f"ERROR property={prop} {e}")
        return 2
    tb = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "200" if tier == "quick" else "780"))
    started = proofs.Extra(prop, tier)
    r = core.run_jobs(prop, jobs, seed, procs, budget)
    known = findings.report(prop)
    extra = started.finish(budget + 60)
    st = r["stats"]
    cov = {
        "states": r["states"], "transitions": r["transitions"], "traces_validated_against_impl": r["traces"],
        "distinct_state_call_pairs": len(r["hashes"]), "contract_calls_and_queries": r["calls"],
        "comparisons": st.get("comparisons", 0),
        "calls_by_operation": {k[3:]: v for k, v in sorted(st.items()) if k.startswith("op:")},
        "accepted_by_operation": {k[3:]: v for k, v in sorted(st.items()) if k.startswith("ok:")},
        "refused_by_guard": {k[8:]: v for k, v in sorted(st.items()) if k.startswith("refused:")},
        "behaviours_skipped_for_time": st.get("behaviours skipped for time", 0),
        "other_coverage": {k[4:]: v for k, v in sorted(st.items()) if k.startswith("cov:")},
        "specifications": sorted({j.adapter.spec + "." + j.step for j in jobs}),
        "invariants_checked_on_every_generated_state": sorted({i for j in jobs for i in j.opts.get("invariants", j.adapter.invariants)}),
        "samples": r["samples"][:3],
        "exhaustive": False,
    }
    cov.update(extra.get("coverage", {}))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": registry.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(r["viol"])}
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}, seed {seed}]: {r['traces']} behaviours, {r['transitions']} calls replayed, "
          f"{st.get('comparisons', 0)} comparisons, build {tb - t0:.1f} s, total {time.time() - t0:.1f} s")
    for k in known:
        print(k)
    for o in sorted({(tuple(x["props"]), x["message"]) for x in r["other"]})[:5]:
        print(f"note: divergence outside {prop} (concerns {', '.join(o[0])}): {o[1]}")
    errors = r["errors"] + extra.get("errors", [])
    if r["viol"]:
        v = min(r["viol"], key=lambda x: x["at_step"])
        path = core.save_replay(prop, v)
        print(f"{len(r['viol'])} behaviours diverge; the shortest after {v['at_step']} calls: {v['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(f"ERROR property={prop} " + errors[0][:1500])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
