"""check.py <property>: runs one check, writes its evidence, reports."""
import json, os, sys, time, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import vp

TABLE = {}
for mod, pids in (("wire", "P01 P02 P03 P04 P05 P06"), ("grpc", "P11 P12 P13 P14 P15 P16"), ("http2", "P18 P19 P20 P21 P22"), ("message", "P07 P08"), ("registry", "P09 P10"), ("threads", "P17"), ("quick", "P23"), ("values", "P24 P25"), ("qmllist", "P27"), ("generator", "P26"), ("qmlcall", "P29")):
    for p in pids.split(): TABLE[p] = mod

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2: tier = sys.argv[2]
    vp.TIER = tier
    c = vp.Check(pid, tier)
    c.seed = vp.SEED
    m = importlib.import_module(TABLE[pid])
    try:
        try:
            getattr(m, pid)(c)
        finally:
            vp.cleanup()
    except vp.ToolError as e:
        print("ERROR:", e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(3)
    cov = {"states": c.cov.pop("states", 0), "transitions": c.cov.pop("transitions", 0),
           "traces_validated_against_impl": c.cov.pop("traces", 0), "samples": c.sample_list if hasattr(c, "sample_list") else []}
    cov.update(c.cov); cov["stages"] = c.stages
    ev = {"property": pid, "tier": tier, "seed": vp.SEED, "level": "model_checking", "coverage": cov,
          "assumptions": c.assumptions, "wall_s": round(time.time() - vp.T0, 1), "violations": len(c.violations)}
    os.makedirs(os.path.join(vp.V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vp.V, "evidence", pid + ".json"), "w"), indent=1)
    for k in c.known: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for what, p in c.violations[:6]:
        print("  " + what[:600])
        print("VIOLATION property=%s replay=%s" % (pid, p))
    print("%s %s: %d violation(s), %.0f s" % (pid, tier, len(c.violations), time.time() - vp.T0))
    sys.exit(1 if c.violations else 0)
main()
