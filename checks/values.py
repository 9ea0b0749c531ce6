"""P24: Qt value types.  Spec: QtTypes (value <-> message), QtTypesGen (values), WireSender (messages of other senders), QtTypesTrace (judge)."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vp
QT = "QUrl QChar QUuid QTime QDate QDateTime QSize QSizeF QPoint QPointF QRect QRectF QPolygon QPolygonF QColor QMatrix4x4 QVector2D QVector3D QVector4D QTransform QQuaternion QImage".split()
SMALL = [t for t in QT if t not in ("QMatrix4x4", "QUuid")]

def gen(c, what, types, vary, sample=False, simulate=None, seed=None):
    t = vp.tlc("QtTypesGen", dict(Types=set(types), MaxVary=vary, Sample=sample, Emit=True), ["Inverse", "EmitCase"], simulate=simulate,
               depth=vary + 1 if simulate else None, seed=seed, workers=1 if simulate else 8)
    c.add("states", t.states); c.add("transitions", max(0, t.states - len(types)))
    c.stage("model " + what, states=t.states, cases=len(t.lines), exhaustive=simulate is None)
    return t.lines
def foreign(c, what, types, ops, feat, **kw):
    t = vp.tlc("WireSender", dict(Types=set(types), MaxOps=ops, Feat=set(feat), Same=False, Sample=kw.get("sample", 0), Mut=False, Emit=True),
               ["Agree", "EmitCase"], simulate=kw.get("simulate"), depth=ops + 1 if kw.get("simulate") else None, seed=kw.get("seed"), workers=kw.get("workers", 8))
    c.add("states", t.states); c.add("transitions", max(0, t.states - len(types)))
    c.stage("model " + what, states=t.states, cases=len(t.lines), exhaustive="simulate" not in kw)
    return t.lines
def par(f, n):
    with ThreadPoolExecutor(8) as ex: return [x for g in [ex.submit(f, k) for k in range(n)] for x in g.result()]
def uniq(cs):
    seen = set(); out = []
    for x in cs:
        k = json.dumps(x, sort_keys=True)
        if k not in seen: seen.add(k); out.append(x)
    return out

def settle(c, cli, cases, hint):
    recs = vp.run_cli(cli, cases)
    pr = []
    for r in recs[::max(1, len(recs) // 12)]:
        if r["r"] != "ok" or r["t"] in ("QImage", "QUrl") or not r["c2"] or r["op"] != "rt": continue
        q = json.loads(json.dumps(r)); q["c2"][0][0] ^= 1; pr.append(q)
        q = json.loads(json.dumps(r)); q["o2"][0] = [[1]]; pr.append(q)
    bad, n = vp.judge("QtTypesTrace", recs + pr)
    ids = {id(p) for p in pr}; hit = sum(1 for r, _ in bad if id(r) in ids); bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(pr) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(pr) - hit, len(pr)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance " + hint, recordings=len(recs), rejected=len(bad))
    if recs and not getattr(c, "sample_list", None): c.sample_list = [{k: r[k] for k in ("op", "t", "c", "c2") if k in r} for r in (recs[0], recs[len(recs) // 2])]
    if bad:
        again = vp.run_cli(cli, [{k: r[k] for k in ("op", "t", "c", "b") if k in r} for r, _ in bad[:200]])
        for r, w in vp.judge("QtTypesTrace", again)[0]:
            c.violate("%s: %s %s, before %s after %s %s" % (w, r["t"], json.dumps(r.get("c") or r.get("b"))[:200], json.dumps(r.get("c1"))[:160], json.dumps(r.get("c2"))[:160], (r.get("stderr") or "")[:300]), {k: r[k] for k in r if k not in ("o1", "o2")})

def P24(c):
    q = c.tier == "quick"
    cli = vp.build("qtcli") + "/qtcli"
    vals = gen(c, "every single component, every catalogued value", QT, 1) + gen(c, "every pair of components", SMALL, 2) if q else \
        gen(c, "every pair of components", QT, 2) + gen(c, "every triple of components", SMALL, 3)
    vals += par(lambda k: gen(c, "random values", QT, 8, True, 60 if q else 3000, vp.SEED * 1000 + k), 8)
    vals = uniq(vals)
    rng = random.Random(vp.SEED)
    cap = 3500 if q else 120000
    if len(vals) > cap: vals = rng.sample(vals, cap)
    settle(c, cli, [dict(op="rt", t=x["t"], c=x["c"]) for x in vals], "values")
    T = [t for t in QT if t not in ("QUuid", "QUrl", "QImage")]
    ms = foreign(c, "messages of other senders", T, 1, ["many", "pad", "unk"])
    ms += par(lambda k: foreign(c, "random messages of other senders", T, 6, ["many", "pad", "unk"], simulate=60 if q else 2000, sample=1, seed=vp.SEED * 1000 + k, workers=1), 8)
    settle(c, cli, [dict(op="dec", t=x["t"], b=x["b"]) for x in uniq([dict(t=y["t"], b=y["b"]) for y in ms])], "messages of other senders")

FINDING = "the fraction of a second in google.protobuf.Timestamp counts microseconds instead of nanoseconds, in both directions (existing tests require it)"
def P25(c):
    q = c.tier == "quick"
    cli = vp.build("tscli") + "/tscli"
    def g(k):
        t = vp.tlc("TimestampGen", dict(Unit=1, Random=k > 0, Emit=True), ["Inverse", "InRange", "EmitCase"], seed=vp.SEED * 100 + k, workers=1)
        c.add("states", t.states); c.add("transitions", t.states - 1)
        c.stage("model " + ("random instants" if k else "catalogued instants, zones and timestamps"), states=t.states, cases=len(t.lines), exhaustive=k == 0)
        return t.lines
    cases = uniq(par(g, 3 if q else 40))
    recs = []
    for tz in ["UTC"] if q else ["UTC", "Asia/Kolkata", "America/St_Johns"]:
        recs += vp.run_cli(cli, [dict(x) for x in cases], env={"TZ": tz})
    pr = []
    for r in recs[::max(1, len(recs) // 10)]:
        p = json.loads(json.dumps(r)); p["back"][1] ^= 1; pr.append(p)
        p = json.loads(json.dumps(r)); p["got"][2] += 7; pr.append(p)
    known = vp.known("P25", "microseconds")
    bad, _ = vp.judge("TimestampTrace", recs + pr, dict(Unit=1))
    ids = {id(p) for p in pr}
    if known and bad:     # the listed finding, and nothing else, explains a rejection
        again, _ = vp.judge("TimestampTrace", [r for r, _ in bad], dict(Unit=1000))
        hit = {id(r) for r, _ in again}
        n = sum(1 for r, _ in bad if id(r) not in hit)
        if n: c.known.append(FINDING)
        c.add("recordings_of_the_known_finding", n)
        bad = again
    found = sum(1 for r, _ in bad if id(r) in ids)
    bad = [(r, w) for r, w in bad if id(r) not in ids]
    if found != len(pr) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(pr) - found, len(pr)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", found)
    c.stage("conformance", recordings=len(recs), rejected=len(bad))
    c.sample_list = recs[:1] + recs[len(recs) // 2:len(recs) // 2 + 1]
    for r, w in bad[:50]: c.violate("%s: %s" % (w, json.dumps({k: r.get(k) for k in ("op", "x", "ts", "zone", "got", "got2", "back", "stderr")})[:500]), r)
