"""P18-P22: the channels between client and server.  Spec: Http2 (machine), Http2Gen (exploration, scenarios), Http2Trace
(judge).  Implementation side: harness/h2cli.cpp (client with real channel) and harness/h2server.js (scripted server)."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vp
INV = ["FramesOk", "StreamsOk", "CallsOk", "EmitCase"]
PROP = ["Quiet", "OutcomeFinal", "Others", "NeverFalseOk", "OthersClient"]
SRV = {"put", "data", "end"}
USER = {"val", "serr", "sfin", "cfin", "cerr", "status", "out", "clerr"}
ALLK = USER | {"req", "cancel"}
CREDS = [[], [["user-name", "me"], ["user-password", "s3cret"]], [["k", "v"], ["e", ""], ["x-key-bin", "AAEC"], ["long-name-of-a-header", "y" * 300]]]

HTTP = {400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 413, 415, 418, 429, 431, 451, 500, 501, 502, 503, 504, 505, 511}
def explore(c, what, ops, length, mode="tour", simulate=None, seed=None, cap=None, **k):
    co = dict(Plans={"ok", "trunc", "long", "none", "nostatus", "rst", "http", "badstatus"}, Ops=set(ops), MaxLen=length, MaxStreams=1, MaxCalls=1, MaxReqs=2, MaxPut=1, Args={1}, Msgs={0, 1}, Chunks={1, 4}, Codes={0, 5}, HttpCodes={404, 500, 503}, Texts={"no"}, Emit=True, Mode="sim" if simulate else mode)
    co.update(k)
    t = vp.tlc("Http2Gen", co, INV[1:] if co["MaxPut"] > 9 else INV, PROP if simulate is None else (), view="View" if simulate is None and mode == "tour" else None,
               simulate=simulate, depth=length + 1 if simulate else None, seed=seed, workers=1 if simulate else 8)
    c.add("states", t.states); c.add("transitions", len(t.lines) if simulate is None else t.states)
    cases = t.lines
    if cap and len(cases) > cap: random.Random(vp.SEED).shuffle(cases); cases = cases[:cap]
    c.stage("model " + what, states=t.states, scenarios=len(t.lines), used=len(cases), exhaustive=simulate is None, length=length)
    return cases

def damaged(recs):
    out = []
    for r in recs[::max(1, len(recs) // 40)]:
        if r["r"] != "ok": continue
        for j in range(len(r["ev"]) - 1, -1, -1):
            if r["ev"][j]:
                q = json.loads(json.dumps(r)); e = q["ev"][j]; how = len(out) % 3
                if how == 0: e.pop()
                elif how == 1: e.append(dict(e[-1]))
                else: e[-1]["id"] += 7
                out.append((q, r["ev"][j][-1]["k"])); break
        if len(out) >= 9: break
    return out

def settle(c, d, cases, hint, kinds, native=False):
    seen = set(); u = []
    for n, x in enumerate(cases):
        h = json.dumps(x["s"])
        if h not in seen: seen.add(h); u.append(dict(s=x["s"], x=x["x"], creds=CREDS))
    args = [vp.V + "/harness/h2server.js"] + (["native"] if native else [])
    run = lambda cs, jobs: vp.run_cli(d + "/h2cli", cs, jobs=jobs, args=args, timeout=600)
    recs = run(u, 8)
    pr = [q for q, k in damaged(recs) if k in kinds]
    bad, n = vp.judge("Http2Trace", recs + pr, dict(Kinds=set(kinds)))
    ids = {id(p) for p in pr}
    hit = sum(1 for r, _ in bad if id(r) in ids)
    bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(pr) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(pr) - hit, len(pr)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance " + hint, recordings=len(recs), rejected=len(bad))
    if recs and not getattr(c, "sample_list", None): c.sample_list = [{k: recs[j].get(k) for k in ("s", "ev")} for j in (0, len(recs) // 2)]
    if bad:
        bad = sorted(bad, key=lambda x: len(x[0]["s"]))[:20]
        again = run([dict(s=r["s"], x=r["x"], creds=r["creds"]) for r, _ in bad], 2)     # with an idle machine
        bad2, _ = vp.judge("Http2Trace", again, dict(Kinds=set(kinds)))
        for r, w in bad2:
            c.violate("%s | scenario %s %s" % (w[:500], " ".join("%s(%s)" % (s["op"], ",".join(str(s[k]) for k in ("i", "c", "n", "code", "txt", "p") if s.get(k) not in (0, "", None))) for s in r["s"]), (r.get("stderr") or "")[:300]), r)
        if not bad2: c.notes.append("rejections did not repeat"); c.stage("rejections did not repeat", n=len(bad))
    return recs

def build(): return vp.build("h2cli")
def P18(c):
    q = c.tier == "quick"; d = build()
    K = {"req", "status", "out", "refused", "accepted"}
    settle(c, d, explore(c, "requests", {"sub", "call", "sync", "end", "put", "data", "tick"}, 3, Args={0, 1, 2, 122, 123, 127, 128, 16380, 70000}, Msgs={0}, MaxReqs=2, Chunks={64}), "requests", K)
    settle(c, d, explore(c, "credentials", {"sub", "call", "sync", "https", "cred", "userpass", "end", "tick"}, 4 if q else 5, Args={1}, Msgs={0}, MaxReqs=3, MaxStreams=2, MaxCalls=2, Chunks={64}, Codes={5}), "credentials", K)
    settle(c, d, explore(c, "large requests", {"sub", "call", "sync"}, 1 if q else 2, Args={16383, 16384, 65535, 65536, 1048576, 17000000} | (set() if q else {2097152, 5000000}), Msgs={0}, MaxReqs=2, Chunks={64}), "large requests", K)
def P19(c):
    q = c.tier == "quick"; d = build()
    S = {"sub", "put", "data", "end"}; K = {"val", "sfin", "serr"}
    for what, msgs, put, n in (("all chunkings of empty messages", {0}, 2, 13), ("all chunkings of one message", {1}, 1, 11)) + ((() if q else (("all chunkings of two messages", {0, 1}, 2, 16),))):
        settle(c, d, explore(c, what, S, n + 2, mode="paths", MaxPut=put, Msgs=msgs, Chunks=set(), Codes={0}, cap=None if q else 40000), what, K)
    tours = [("three messages", {0, 1, 2}, {1, 4, 5, 6, 8}, 3), ("sizes of length prefixes", {0, 127, 128, 251, 252, 253, 254, 300}, {1, 2, 5, 128, 256}, 2), ("large messages", {0, 16384, 65530, 70000, 1000000}, {3, 5, 9, 16384, 65536, 500000}, 2)]
    with ThreadPoolExecutor(8) as ex:
        fs = [(w, ex.submit(explore, c, w, S, (8 if w == "three messages" else 7) if q else 10, MaxPut=put, Msgs=m, Chunks=ch, Codes={0}, cap=6000 if q else 60000)) for w, m, ch, put in tours]
        rs = ex.submit(rand, c, "several streams", S | {"call", "onval", "sabort"}, 30, 20 if q else 400, MaxStreams=3, MaxCalls=1, MaxReqs=6, MaxPut=6, Msgs={0, 1, 2, 130, 20000}, Chunks={1, 2, 3, 4, 5, 6, 7, 11, 140, 16384})
        burst = ex.submit(rand, c, "many messages at once", {"sub", "put", "data"}, 50, 1 if q else 10, MaxStreams=1, MaxReqs=1, MaxPut=46, Msgs=set(range(12)), Chunks={1000000})
        many = ex.submit(rand, c, "many streams at once", S, 60, 4 if q else 60, MaxStreams=12, MaxReqs=12, MaxPut=3, Msgs={0, 1, 9}, Chunks={1, 4, 5, 9}, Codes={0})
    for w, f in fs: settle(c, d, f.result(), w, K)
    settle(c, d, explore(c, "messages of more than 24 bits of length", S, 4, MaxPut=1, Msgs={16777215, 17000000}, Chunks={9000000}, Codes={0}), "messages of more than 24 bits of length", K)
    settle(c, d, explore(c, "streams that last", S | {"linger", "sabort"}, 6 if q else 8, MaxPut=2, Msgs={0, 1}, Chunks={3, 64}, Codes={0}, cap=1500 if q else 20000), "streams that last", K | {"req"})
    settle(c, d, rs.result(), "several streams", K)
    settle(c, d, burst.result(), "many messages at once", K)
    settle(c, d, many.result(), "many streams at once", K)
def P20(c):
    q = c.tier == "quick"; d = build()
    K = USER
    settle(c, d, explore(c, "status codes", {"sub", "call", "end", "only", "put", "data"}, 5, Codes=set(range(0, 17)), Texts={"", "no", "h~ l%41 100%"}, Msgs={1}, Chunks={5}, MaxReqs=1, cap=4000 if q else None), "status codes", K)
    settle(c, d, explore(c, "blocking calls", {"sync"}, 2, Codes=set(range(0, 17)), Texts={"", "no", "50%"}, Args={1}, Msgs={0, 3}, MaxReqs=2, cap=4000 if q else None), "blocking calls", K)
    settle(c, d, explore(c, "broken exchanges", {"sub", "call", "end", "only", "put", "data", "rst", "http", "nostatus", "tick", "lost"}, 5 if q else 6, MaxPut=2, MaxReqs=3, cap=6000 if q else 40000), "broken exchanges", K)
    settle(c, d, explore(c, "HTTP errors", {"sub", "call", "sync", "http"}, 2, Plans={"http"}, HttpCodes=HTTP, MaxReqs=2, Msgs={0}), "HTTP errors", K)
    settle(c, d, explore(c, "nobody listens", {"refused", "sub", "call", "sync", "tick"}, 4, MaxReqs=3, Msgs={0}, cap=300 if q else 2000), "nobody listens", K)
    settle(c, d, rand(c, "several requests", SRV | {"sub", "call", "only", "rst", "http", "nostatus", "tick", "sync"}, 20, 40 if q else 400, MaxStreams=2, MaxCalls=3, MaxReqs=8, MaxPut=2, Codes={0, 1, 5, 16}), "several requests", K)
def P21(c):
    q = c.tier == "quick"; d = build()
    H = {a + b for a in ("data", "end", "only", "rst") for b in ("abort", "kill")}
    K = USER | {"cancel"}
    settle(c, d, explore(c, "abort at every point", {"sub", "call", "put", "data", "end", "rst", "sabort", "cabort", "kill", "tick"} | H, 5 if q else 6, MaxPut=1, MaxReqs=2, cap=8000 if q else 60000), "abort at every point", K)
    settle(c, d, explore(c, "abort by handlers", {"sub", "put", "data", "onval", "end", "dataabort"}, 6 if q else 7, MaxPut=3, MaxReqs=2, MaxStreams=2, Chunks={64}, Msgs={0, 1}, cap=5000 if q else 40000), "abort by handlers", K)
    settle(c, d, explore(c, "one client ends, the other stays", {"sub", "sub2", "call2", "put", "data", "end", "kill", "sabort", "datakill", "endkill"}, 7 if q else 8, MaxPut=1, MaxReqs=2, MaxStreams=2, Chunks={5}, Msgs={1}, Codes={0}, cap=4000 if q else 40000), "one client ends, the other stays", K)
    settle(c, d, rand(c, "several requests", SRV | H | {"sub", "sub2", "call", "call2", "sabort", "cabort", "kill", "tick", "onval", "rst"}, 18, 60 if q else 600, MaxStreams=3, MaxCalls=3, MaxReqs=8, MaxPut=3), "several requests", K)
def rand(c, what, ops, length, num, procs=8, cap=1500, **k):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(explore, c, what, ops, length, simulate=num, seed=vp.SEED * 1000 + j, **k) for j in range(procs)]
        r = [x for f in fs for x in f.result()]
    if c.tier == "quick" and len(r) > cap: random.Random(vp.SEED).shuffle(r); r = r[:cap]
    return r
def P22(c):
    q = c.tier == "quick"; d = build()
    H = {a + b for a in ("data", "end", "only", "rst") for b in ("abort", "kill")}
    K = USER | {"req", "cancel"}
    n = lambda cases, what: settle(c, d, cases, what, K, native=True)
    n(explore(c, "calls and streams", {"sub", "call", "end", "only", "put", "data", "rst", "tick", "sync"}, 4 if q else 6, MaxPut=2, MaxReqs=2, Plans={"ok", "none", "rst"}, Args={0, 1, 300}, cap=1500 if q else 20000), "calls and streams")
    n(explore(c, "status codes", {"sub", "call", "end", "only"}, 2, Codes=set(range(0, 17)), Texts={"", "h~ l%41 100%"}, MaxReqs=1, Args={1}), "status codes")
    n(explore(c, "abort at every point", {"sub", "call", "put", "data", "end", "rst", "sabort", "cabort", "kill", "tick", "onval"} | H, 4 if q else 6, MaxPut=2, MaxReqs=2, Chunks={64}, cap=2000 if q else 20000), "abort at every point")
    n(explore(c, "nobody listens", {"refused", "sub", "call", "sync", "lost"}, 3, Plans={"ok"}, MaxReqs=3, Msgs={0}, cap=100 if q else 300), "nobody listens")
    n(explore(c, "streams that last", {"sub", "put", "data", "end", "linger"}, 5 if q else 7, MaxPut=2, Msgs={0, 1}, Chunks={64}, Codes={0}, cap=200 if q else 2000), "streams that last")
    n(rand(c, "several requests", SRV | H | {"sub", "call", "sabort", "cabort", "kill", "tick", "rst", "only"}, 14, 30 if q else 300, cap=500, MaxStreams=3, MaxCalls=3, MaxReqs=8, MaxPut=3, Msgs={0, 1, 130, 20000}, Chunks={1, 5, 70}), "several requests")
