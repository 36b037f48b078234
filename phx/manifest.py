"""python3 -m phx.manifest: writes MANIFEST.json from properties.jsonl and the registry."""
import json
import os

from . import build, registry


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(build.ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in ids:
        if p in registry.TABLE:
            checks.append({
                "property": p, "quick_cmd": f"python3 -m phx.check {p}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 -m phx.check {p} thorough",
                "technique": "model-based: Quint specification, behaviours replayed into the compiled contracts",
                "level": "model_checking", "level_note": registry.NOTE})
        else:
            na.append({"property": p, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(build.ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    main()
