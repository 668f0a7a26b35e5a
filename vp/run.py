import argparse, importlib, json, os, sys, time, collections
from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of unit description")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    a = ap.parse_args()
    tier = a.tier
    t0 = time.time()
    core.setup_env()
    check = importlib.import_module("vp.checks." + a.pid.lower())
    import numpy as np
    if a.replay:
        rp = json.load(open(a.replay))
        units = [rp["unit"]]
        seed, tier = rp["seed"], rp["tier"]
    else:
        seed = a.seed
        units = check.units(tier, np.random.default_rng(seed))
        for i, u in enumerate(units):
            u.setdefault("_i", i)
        if a.only:
            units = [u for u in units if a.only in repr(u)]
    nproc = a.j or min(8, os.cpu_count() or 1)
    budget = 820 if tier == "quick" else 4 * 3600
    findings = core.load_findings(a.pid)
    res = core.run_units(check, units, seed, tier, nproc, t0 + budget, 480 if tier == "quick" else 3600, a.v, tuple(findings))

    evals = sum(r.get("evals", 0) for r in res.values())
    distinct = set(); kinds = collections.Counter(); maxerr = {}; samples = []
    for i in sorted(res):
        r = res[i]
        distinct |= r.get("distinct", set())
        kinds.update(r.get("kinds", {}))
        for k, v in r.get("maxerr", {}).items():
            maxerr[k] = max(maxerr.get(k, 0), v)
        for s in r.get("samples", []):
            if len(samples) < 6:
                samples.append(s)
    if not samples:
        samples = [{k: v for k, v in u.items()} for u in units[:4]]
    incon = [(i, r["status"]) for i, r in res.items() if r["status"].startswith("inconclusive")]
    known = collections.OrderedDict(); fresh = []
    for i in sorted(res):
        for v in res[i].get("viol", []):
            if v["key"] in findings:
                known.setdefault(v["key"], v)
            else:
                fresh.append((i, v))
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    ev = {"property": a.pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": check.RULE,
                       "samples": json.loads(json.dumps(samples, default=str)),
                       "units_run": sum(1 for r in res.values() if r["status"] == "ok"), "units_total": len(units),
                       "observed": dict(kinds),
                       "max_abs_error_seen": {k: (v if v < 1e300 else "inf") for k, v in sorted(maxerr.items(), key=lambda t: str(t[0]))[:60]},
                       "inconclusive_units": [[i, s] for i, s in incon][:20]},
          "assumptions": getattr(check, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if not a.replay and not a.only:
        with open(os.path.join(core.VERIF, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k, v in known.items():
        print("KNOWN-FINDING: property=%s key=%s %s" % (a.pid, k, findings[k]))
    print("%s %s seed=%d: %d units, %d judged observations, %d distinct situations, %d violations, %d known, %d inconclusive, %.1fs" % (
        a.pid, tier, seed, len(units), evals, len(distinct), len(fresh), len(known), len(incon), time.time() - t0))
    if fresh:
        os.makedirs(os.path.join(core.VERIF, "replay"), exist_ok=True)
        byunit = collections.OrderedDict()
        for i, v in fresh:
            byunit.setdefault(i, []).append(v)
        for n, (i, vs) in enumerate(byunit.items()):
            if n >= 4: break
            path = a.replay or os.path.join(core.VERIF, "replay", "%s-%d.json" % (a.pid, n))
            if not a.replay:
                json.dump({"property": a.pid, "tier": tier, "seed": seed, "unit": units[i], "violations": vs},
                          open(path, "w"), indent=1, default=str)
            for v in vs[:2]:
                print("  [%s] %s %s" % (v["key"], v["msg"][-260:], v["ctx"]))
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
        sys.exit(1)
    if incon:
        for i, s in incon[:10]:
            print("INCONCLUSIVE unit %d: %s %s" % (i, s, units[i]))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
