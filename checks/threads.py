"""P17: client operations from other threads.  Spec: ClientThreads (interleavings, promises), ClientThreadsTrace (judge).
Implementation side: harness/threadcli.cpp."""
import json, random
import vp
CALL = ["sync", "serr", "async", "aerr", "aabort"]; STREAM = ["stream", "sret", "sabort"]

def programs(rng, n, threads, length, slow):
    out = []
    for j in range(n):
        th = []; nid = 0
        for p in range(rng.choice(threads)):
            ops = []
            for _ in range(rng.choice(length)):
                nid += 1; k = rng.choice(CALL + STREAM)
                ops.append(dict(k=k, m=rng.choice(["one", "two"] if k in CALL else ["watch", "look"]), id=nid, w=rng.choice([0, 0, 0, 200, 900]) if slow else 0))
            th.append(ops)
        if rng.random() < .4:       # everybody joins one stream at the end
            m = rng.choice(["watch", "look"])
            for ops in th: nid += 1; ops.append(dict(k="join", m=m, id=nid, w=0))
        out.append(dict(th=th, mode=rng.choice(["own", "home", "caller"])))
    return out
def P17(c):
    q = c.tier == "quick"
    rng = random.Random(vp.SEED)
    K = set(CALL + STREAM + ["join"])
    for callers, ops, use, live in ([(2, 2, K, False), (3, 1, K, False), (2, 1, K, True)] if q else [(3, 2, {"sync", "aabort", "stream", "join"}, False), (2, 3, K, False), (4, 1, K, False), (2, 2, {"sync", "aabort", "sabort", "join"}, True)]):
        t = vp.tlc("ClientThreads", dict(Callers=set(range(1, callers + 1)), MaxOps=ops, Use=use), ["OnceInChannel", "SharedOnce", "OutcomeOnce"], ["EveryOperationEnds"] if live else [])
        c.add("states", t.states); c.add("transitions", t.states)
        c.stage("model", callers=callers, operations=ops, kinds=len(use), states=t.states)
    cli = vp.build("threadcli") + "/threadcli"
    cs = programs(rng, 120 if q else 2500, [2, 3], [1, 2, 3], True) + programs(rng, 60 if q else 1000, [4, 8], [4, 8], False) + programs(rng, 6 if q else 60, [16], [6], False)
    recs = vp.run_cli(cli, cs, jobs=6, maxbad=2)
    probes = []
    for r in [r for r in recs if r["r"] == "ok"][:40]:
        p = json.loads(json.dumps(r)); n = len(probes) % 4
        if n == 0: p["ops"][0]["ev"] = p["ops"][0]["ev"] * 2
        elif n == 1: p["log"][-1]["home"] = 0
        elif n == 2: p["log"].append(p["log"][0])
        else: p["clerr"] += 1
        probes.append(p)
    for r in recs:
        if r["r"] != "ok": r.update(ops=[], log=[], clerr=0, away=0)
    bad, n = vp.judge("ClientThreadsTrace", recs + probes)
    ids = {id(p) for p in probes}
    hit = sum(1 for r, _ in bad if id(r) in ids); bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(probes) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(probes) - hit, len(probes)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance", recordings=len(recs), operations=sum(len(r["ops"]) for r in recs), rejected=len(bad))
    c.sample_list = recs[:1]
    for r, w in bad[:20]: c.violate("%s %s" % (w, (r.get("stderr") or "")[:800]), r)
    c.assumptions += ["schedules of the real threads are sampled, those of the model are exhausted within the stated bounds", "the outcome of an asynchronous operation arrives after its caller has subscribed to it"]
