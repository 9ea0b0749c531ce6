"""P29: unary calls made from QML.  Spec: QmlCall, QmlCallGen (exploration, scenarios), QmlCallTrace (judge).
Implementation side: harness/qmlcallcli.cpp on a generated client and a JavaScript engine."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vp
OPS = {"call", "ok", "garb", "err", "seta", "delr", "delcl", "gc"}
FORMS = {"cb", "nest", "throw", "noerr", "ret", "bad"}
def explore(c, clients, forms, methods, ops, length, calls, simulate=None, seed=None):
    co = dict(MaxLen=length, Tour=simulate is None, Clients=set(clients), UseForms=set(forms), Methods=set(methods), Ops=set(ops), MaxCalls=calls)
    t = vp.tlc("QmlCallGen", co, ["Sane", "EmitCase"], ["Once"], view="View" if simulate is None else None, simulate=simulate, depth=length + 1, seed=seed, workers=1 if simulate else 8)
    c.add("states", t.states); c.add("transitions", len(t.lines) if simulate is None else t.states)
    c.stage("model", states=t.states, scenarios=len(t.lines), exhaustive=simulate is None, length=length)
    return [x["s"] for x in t.lines]
def settle(c, d, scen, rng):
    cs = []
    for s in scen:
        ev = rng.randrange(3)
        cs.append(dict(s=[dict(x, ev=ev if ev < 2 else rng.randrange(2)) for x in s]))
    recs = vp.run_cli(d + "/qmlcallcli", cs)
    probes = []
    for r in [r for r in recs if r["r"] == "ok"][::max(1, len(recs) // 40)]:
        p = json.loads(json.dumps(r)); o = p["o"][-1]
        w = len(probes) % 4
        if w == 0: o["req"].append([1, "one", "1"])
        elif w == 1: o["cbs"].append([1, "ok", "7"])
        elif w == 2: o["cerr"].append([1, 5])
        else: o["ret"][0] += "x"
        probes.append(p)
    bad, _ = vp.judge("QmlCallTrace", recs + probes, {})
    ids = {id(p) for p in probes}
    hit = sum(1 for r, _ in bad if id(r) in ids); bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(probes) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(probes) - hit, len(probes)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance", recordings=len(recs), rejected=len(bad))
    if not getattr(c, "sample_list", None): c.sample_list = [recs[len(recs) // 2]]
    for r, w in sorted(bad, key=lambda x: len(x[0]["s"]))[:30]:
        c.violate("%s | %s %s" % (w[:700], " ".join("%s(%d,%d,%s,%d,%d,%s,%d)" % (x["op"], x["id"], x["c"], x["m"], x["a"], x["r"], x["f"], x["x"]) for x in r["s"]), (r.get("stderr") or "")[:600]), r)
def P29(c):
    q = c.tier == "quick"
    rng = random.Random(vp.SEED)
    d = vp.build("qmlcallcli")
    sc = explore(c, [1, 3], FORMS, ["one"], OPS, 5, 2)
    if q and len(sc) > 9000: sc = rng.sample(sc, 9000)
    settle(c, d, sc, rng)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(explore, c, [1, 2, 3] if j % 2 else [1, 2], FORMS if j % 3 else {"cb", "nest", "ret"}, ["one", "two"], OPS - {"delcl"} if j % 4 < 2 else OPS, 20, 12, 12 if q else 100, vp.SEED * 100 + j) for j in range(8)]
        sc = [x for f in fs for x in f.result()]
    settle(c, d, rng.sample(sc, min(len(sc), 1500 if q else 25000)), rng)
