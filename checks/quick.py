"""P23: the QML element GrpcStream.  Spec: QuickStream, QuickStreamGen (exploration, scenarios), QuickStreamTrace (judge).
Implementation side: harness/quickcli.cpp on the QML plugin built from /repo."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vp
OPS = {"cl", "m", "a", "en", "dis", "del", "msg", "end", "serr", "delcl"}
def explore(c, n, clients, args, methods, ops, length, simulate=None, seed=None):
    co = dict(Elems=set(range(1, n + 1)), MaxLen=length, Tour=simulate is None, Clients=set(clients), Args=set(args), Methods=set(methods), Ops=set(ops))
    t = vp.tlc("QuickStreamGen", co, ["Follows", "EmitCase"], ["Balanced"] if simulate is None else [], view="View" if simulate is None else None, simulate=simulate, depth=length + 1, seed=seed, workers=1 if simulate else 8)
    c.add("states", t.states); c.add("transitions", len(t.lines) if simulate is None else t.states)
    c.stage("model", elements=n, states=t.states, scenarios=len(t.lines), exhaustive=simulate is None, length=length)
    return [x["s"] for x in t.lines]
def settle(c, d, scen, n, rng):
    cs = []
    for s in scen:
        ev = rng.randrange(3)      # are deferred deletions carried out between the steps: never, always, sometimes
        cs.append(dict(n=n, s=[dict(x, ev=ev if ev < 2 else rng.randrange(2)) for x in s]))
    recs = vp.run_cli(d + "/quickcli", cs, args=[d + "/src/grpc/quick"])
    probes = []
    for r in [r for r in recs if r["r"] == "ok"][::max(1, len(recs) // 40)]:
        p = json.loads(json.dumps(r)); o = p["o"][-1]; x = o["e"][0]
        w = len(probes) % 3
        if w == 0: o["req"].append([1, "watch", "1"])
        elif w == 1: o["end"].append([2, "look", "2"])
        elif x["alive"]: x["en"] = 1 - x["en"]
        else: o["run"].append([1, "watch", "9"])
        probes.append(p)
    bad, _ = vp.judge("QuickStreamTrace", recs + probes, dict(Elems=set(range(1, n + 1))))
    ids = {id(p) for p in probes}
    hit = sum(1 for r, _ in bad if id(r) in ids); bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(probes) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(probes) - hit, len(probes)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance", elements=n, recordings=len(recs), rejected=len(bad))
    if not getattr(c, "sample_list", None): c.sample_list = [recs[len(recs) // 2]]
    for r, w in sorted(bad, key=lambda x: len(x[0]["s"]))[:30]:
        c.violate("%s | %s %s" % (w[:700], " ".join("%s(%d,%s%s)" % (x["op"], x["e"], x["x"] or "", x["s"]) for x in r["s"]), (r.get("stderr") or "")[:600]), r)
def P23(c):
    q = c.tier == "quick"
    rng = random.Random(vp.SEED)
    d = vp.build("quickcli")
    sc = explore(c, 1, [1, 2, 3], [1, 2, 3, 4], ["watch", "look", "one"], OPS, 9)
    if q and len(sc) > 4000: sc = rng.sample(sc, 4000)
    settle(c, d, sc, 1, rng)
    sc = explore(c, 2, [1], [1, 3], ["watch"], OPS - {"serr"}, 12)
    if q and len(sc) > 4000: sc = rng.sample(sc, 4000)
    settle(c, d, sc, 2, rng)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(explore, c, 2, [1, 2, 3], [1, 2, 3, 4], ["watch", "look", "one"], OPS - {"del"} if j % 2 else OPS, 25, 4 if q else 60, vp.SEED * 100 + j) for j in range(8)]
        sc = [x for f in fs for x in f.result()]
    settle(c, d, rng.sample(sc, min(len(sc), 1500 if q else 25000)), 2, rng)
