"""P27: repeated message fields as QML lists.  Spec: QmlList, QmlListGen (scenarios), QmlListTrace (judge).  Harness: qlistcli."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vp
OPS = set("new decl app appp appc capp parse clear cclear asg asgp cset casg crem copy del hold rel setv csetv gc".split())
FINDING = "an element that a list already holds is appended again through QML: it is freed twice"

def gen(c, what, slots, objs, length, ops, simulate=None, seed=None):
    t = vp.tlc("QmlListGen", dict(Slots=set(range(1, slots + 1)), MaxObj=objs, MaxLen=length, Ops=ops, Tour=simulate is None, Emit=True), ["NoDuplicates", "Known", "EmitCase"],
               view="View" if simulate is None else None, simulate=simulate, depth=length + 1 if simulate else None, seed=seed, workers=1 if simulate else 8)
    c.add("states", t.states); c.add("transitions", len(t.lines) if simulate is None else t.states)
    c.stage("model " + what, states=t.states, scenarios=len(t.lines), exhaustive=simulate is None, length=length)
    return [x["s"] for x in t.lines]
def settle(c, cli, scen, slots, hint):
    recs = vp.run_cli(cli, [dict(s=s, n=slots) for s in scen])
    pr = []
    for r in [r for r in recs if r["r"] == "ok"][::max(1, len(recs) // 10)]:
        o = [j for j, x in enumerate(r["o"]) if x["alive"]]
        if o: q = json.loads(json.dumps(r)); q["o"][o[-1]]["alive"].pop(); pr.append(q)
    bad, _ = vp.judge("QmlListTrace", recs + pr, dict(Slots=set(range(1, slots + 1)), MaxObj=99))
    ids = {id(p) for p in pr}; hit = sum(1 for r, _ in bad if id(r) in ids); bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(pr) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(pr) - hit, len(pr)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit); c.stage("conformance " + hint, recordings=len(recs), rejected=len(bad))
    if recs and not getattr(c, "sample_list", None): c.sample_list = [{k: recs[j][k] for k in ("s", "o") if k in recs[j]} for j in (0, len(recs) // 2)]
    for r, w in sorted(bad, key=lambda x: len(x[0]["s"]))[:60]:
        c.violate("%s | %s %s" % (w[:300], " ".join("%s(%s)" % (s["op"], ",".join(str(s[k]) for k in "kjv" if s[k])) for s in r["s"]), (r.get("stderr") or "")[:400]), r)

def P27(c):
    q = c.tier == "quick"
    cli = vp.build("qlistcli") + "/qlistcli"
    rng = random.Random(vp.SEED)
    sc = gen(c, "all histories of one message", 1, 3, 4 if q else 5, OPS - {"cset", "casg", "copy"})
    sc2 = gen(c, "all histories of two messages", 2, 2, 4 if q else 5, OPS - {"setv", "csetv", "gc", "cclear", "asg"})
    settle(c, cli, sc if len(sc) < (4000 if q else 60000) else rng.sample(sc, 4000 if q else 60000), 1, "one message")
    settle(c, cli, sc2 if len(sc2) < (4000 if q else 60000) else rng.sample(sc2, 4000 if q else 60000), 2, "two messages")
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(gen, c, "long histories", 3, 9, 16, OPS, 20 if q else 500, vp.SEED * 1000 + k) for k in range(8)]
        lg = [x for f in fs for x in f.result()]
    settle(c, cli, rng.sample(lg, min(len(lg), 1500 if q else 30000)), 3, "long histories")
    if vp.known("P27", "appended again"):
        st = lambda op, k, j: dict(op=op, k=k, j=j, v=0)
        r = vp.run_cli(cli, [dict(s=[st("new", 1, 0), st("app", 1, 0), st("same", 1, 1), st("clear", 1, 0)], n=1)], jobs=1)[0]
        if r["r"] == "crash": c.known.append(FINDING)
