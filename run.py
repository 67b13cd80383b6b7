#!/usr/bin/env python3
"""Decide one property: run.py <id> quick|thorough (or: run.py setup)."""
import importlib, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common as c
import checks


def main():
    t0 = time.time()
    if sys.argv[1] == "setup":
        c.build_harness()
        c.build_binary()
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[prop]
    budget = spec["thorough_s"] if tier == "thorough" else spec["quick_s"]
    with c.Scratch() as scratch:
        rep = None
        if spec.get("harness", True):
            vph = c.build_harness()
            env = c.program_env(scratch) if spec.get("binary") else {}
            names = spec.get("workloads", [prop])
            for name in names:
                rep = c.merge(rep, c.run_harness(vph, name, tier, seed, budget if tier == "quick" else budget / len(names), scratch, env=env))
                if any(v["key"] == "hang" for v in rep["violations"]):
                    break
        if "module" in spec and not (rep and any(v["key"] == "hang" for v in rep["violations"])):
            mod = importlib.import_module(spec["module"])
            rep = c.merge(rep, getattr(mod, prop.lower())(tier, seed, budget, scratch))
    return c.finish(prop, tier, seed, spec.get("level", "exploration"), spec["rule"], spec.get("assumptions", []), rep, t0)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except c.CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
