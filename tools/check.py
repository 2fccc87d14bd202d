#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]: builds /repo's working tree with sanitizers, runs the
property's workload under its monitors, writes evidence/PROPERTY.json, prints VIOLATION lines."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from specs import SPECS


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        elif a[0] == "--replay":
            replay = json.load(open(a[1]))
        a = a[2:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = dict(SPECS[prop])
    cfg.setdefault("deadline", {"quick": 240, "thorough": 7200})
    t0 = time.time()
    try:
        b = vlib.build(cfg.get("flavour", "asan"), cfg.get("targets", ["odccore"]), prop.lower(), cfg["src"], cfg.get("fortran", ""),
                       cfg.get("defs", ""), cfg.get("link_tools", False))
        if cfg.get("prepare"):
            cfg["prepare"](b, cfg)
    except vlib.BuildError as e:
        print(f"ERROR: {prop}: {e}", flush=True)
        return 2
    if replay:
        R = vlib.run_cases(prop, cfg, b, replay.get("tier", tier), replay["seed"], only=replay["case"])
        for v in R["viol"]:
            print("key:", v["key"])
            print(v["msg"])
        print("---- stderr tail ----")
        print(R.get("text", "")[-3000:])
        return 1 if R["viol"] else 0
    R = vlib.run_cases(prop, cfg, b, tier, seed)
    known = {k: d for p, k, d in vlib.known_findings() if p == prop}
    new, old = {}, {}
    for v in R["viol"]:
        # a finding is identified by its own deterministic case, never by an outcome of a random one
        if v["key"] in known and v.get("probe"):
            old.setdefault(v["key"], v)
        else:
            new.setdefault(v["key"], v)
    for k, v in sorted(old.items()):
        print(f"KNOWN-FINDING: property={prop} {k} {known[k]}")
    rdir = os.path.join(vlib.VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    n = 0
    for k, v in sorted(new.items(), key=lambda kv: kv[1]["case"]):
        n += 1
        if n > 10:
            break
        path = os.path.join(rdir, f"{prop}-{seed}-{v['case']}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "case": v["case"], "tier": tier, "key": k, "msg": v["msg"],
                       "rerun": f"python3 tools/check.py {prop} --replay {path}"}, f, indent=1)
        print(f"violation key={k} case={v['case']}: {v['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    nontriv = len(R["sigs"])
    cov = {"evaluations": R["done"], "distinct_nontrivial": nontriv, "rule": cfg["rule"],
           "samples": sorted(R["samples"])[:16],
           "observed": R["stats"], "probes": R["probes"], "inconclusive": R["inc"][:20],
           "known_findings_seen": sorted(old), "violation_keys": sorted(new), "sanitizers": vlib.SAN[cfg.get("flavour", "asan")],
           "build_s": b["build_s"], "run_s": R["run_s"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    want = R["end"]
    print(f"{prop}: {R['done']} of {want} cases, {nontriv} distinct shapes, build {b['build_s']} s, run {R['run_s']} s, "
          f"{len(R['inc'])} inconclusive, {len(new)} violation kinds, {len(old)} known")
    if new:
        return 1
    if R["errors"]:
        print("ERROR:", R["errors"][0])
        return 2
    if R["done"] == 0 or nontriv == 0 or any(R["stats"].get(k, 0) == 0 for k in cfg.get("require", [])):
        print("ERROR: the monitors observed nothing; required counters:", {k: R["stats"].get(k, 0) for k in cfg.get("require", [])})
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
