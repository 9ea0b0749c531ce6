"""P11-P16: the client between user and channel.  Spec: GrpcClient (machine), GrpcClientGen (exploration, scenarios),
GrpcClientTrace (judge).  Implementation side: harness/grpccli.cpp with a scripted channel and a virtual clock."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vp
INV = ["OneOutcome", "OneStream", "FinishedOnce", "Served", "DeadIsQuiet", "EmitCase"]
PROP = ["StaysFinished", "OutcomeFinal", "RightChannel", "Retried"]
CALLS = {"call", "callcb", "cdone", "cbad", "cfail", "cabort"}
SYNC = {"sync", "syncbad", "syncnull"}
STREAM = {"sub", "subn", "sdel", "serr", "sfin", "sabort", "tick"}
REACT = {"onval", "onmsg", "onerr", "onfin", "oncl"}
ALLK = {"req", "clerr", "cfin", "cbfin", "cerr", "reply", "status", "out", "val", "smsg", "sfin", "serr", "stream", "exc", "attached"}

def explore(c, what, ops, length, view=True, simulate=None, seed=None, emit=True, tour=True, **k):
    co = dict(Ops=set(ops), MaxLen=length, MaxCalls=2, MaxStreams=2, MaxRets=2, MaxTicks=2, Methods={"watch"}, Args={"x", "y"},
              Datas={"d1"}, Codes={5}, Msgs={"m1"}, Once=set(), Tour=tour and simulate is None, Emit=emit)
    co.update(k)
    t = vp.tlc("GrpcClientGen", co, INV, PROP if simulate is None else (), view="View" if simulate is None else None,
               simulate=simulate, depth=length + 1 if simulate else None, seed=seed, workers=1 if simulate else 8)
    c.add("states", t.states); c.add("transitions", len(t.lines) if simulate is None else t.states)
    c.stage("model " + what, states=t.states, scenarios=len(t.lines), exhaustive=simulate is None, length=length)
    return [dict(s=x["s"]) for x in t.lines]

def rand(c, what, ops, length, num, procs=8, **k):
    k = dict(dict(MaxCalls=4, MaxStreams=5, MaxRets=6, MaxTicks=6, Methods={"watch", "look"}, Datas={"d1", "d2", ""}, Codes={1, 5, 10, 14}, Msgs={"m1", "m2", ""}), **k)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(explore, c, what, ops, length, simulate=num, seed=vp.SEED * 1000 + j, **k) for j in range(procs)]
        return [x for f in fs for x in f.result()]

def damaged(recs):
    """copies of recordings with one observation dropped, doubled or altered: the judge has to reject them"""
    out = []
    for r in recs[::max(1, len(recs) // 40)]:
        for j in range(len(r["ev"]) - 1, -1, -1):
            if r["ev"][j] and r["s"][j]["op"] not in ("sbad", "cbad", "syncbad"):
                q = json.loads(json.dumps(r)); e = q["ev"][j]
                how = len(out) % 3
                if how == 0: e.pop()
                elif how == 1: e.append(dict(e[-1]))
                else: e[-1] = dict(e[-1], k="none")
                out.append((q, r["ev"][j][-1]["k"])); break
        if len(out) >= 9: break
    return out

def settle(c, cli, cases, hint, kinds):
    seen = set(); u = []
    for x in cases:
        h = hash(json.dumps(x["s"]))
        if h not in seen: seen.add(h); u.append(x)
    recs = vp.run_cli(cli, u)
    pr = [q for q, k in damaged([r for r in recs if r["r"] == "ok"]) if k in kinds]
    for k, q in enumerate(pr): q["r"] = "ok"
    bad, n = vp.judge("GrpcClientTrace", recs + pr, dict(Kinds=set(kinds) | {"none"}))
    ids = {id(p) for p in pr}
    hit = sum(1 for r, _ in bad if id(r) in ids)
    bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(pr) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(pr) - hit, len(pr)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance " + hint, recordings=len(recs), rejected=len(bad))
    if recs and not getattr(c, "sample_list", None): c.sample_list = [{k: recs[j][k] for k in ("s", "ev")} for j in (0, len(recs) // 2) if "ev" in recs[j]]
    if bad:
        bad = sorted(bad, key=lambda x: len(x[0]["s"]))[:100]
        again = vp.run_cli(cli, [dict(s=r["s"]) for r, _ in bad], jobs=4)
        bad2, _ = vp.judge("GrpcClientTrace", again, dict(Kinds=set(kinds)))
        for r, w in bad2:
            c.violate("%s | scenario %s %s" % (w[:400], " ".join("%s(%s)" % (s["op"], ",".join(str(s[k]) for k in "imadn" if s[k] not in (0, ""))) for s in r["s"]), (r.get("stderr") or "")[:300]), r)
        if not bad2: c.notes.append("rejections did not repeat")
    return recs

def run(c, kinds, tours, rands):
    d = vp.build("grpccli")
    for what, ops, length, k in tours: settle(c, d + "/grpccli", explore(c, what, ops, length, **k), what, kinds)
    for what, ops, length, num, k in rands: settle(c, d + "/grpccli", rand(c, what, ops, length, num, **k), what, kinds)

EVERY = dict(Codes=set(range(1, 17)), Msgs={"m1", ""}, Args={"x"})
MANY = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "ab", "abc"}
def P11(c):
    q = c.tier == "quick"
    run(c, {"req", "clerr", "cfin", "cbfin", "cerr", "reply"},
        [("every status", {"attach", "call", "callcb", "cfail"}, 4, dict(EVERY, Once={"attach"})),
         ("calls", CALLS | {"attach"}, 6 if q else 8, dict(Datas={"d1", "d2"}, Codes={5, 10}, Args={"x"})),
         ("calls next to streams", CALLS | {"attach", "sub", "serr", "tick", "sabort"}, 5 if q else 7, dict(Args={"x"}))],
        [("calls", CALLS | {"attach", "sync", "sub", "sdel", "serr", "kill", "attachx"}, 16, 60 if q else 600, {}),
         ("many calls", CALLS | {"attach"}, 60, 5 if q else 60, dict(MaxCalls=24, Once={"attach"}, Codes={5}, Args={"x", "y"}))])
def P12(c):
    q = c.tier == "quick"
    run(c, {"req", "clerr", "status", "out"},
        [("blocking calls", SYNC | {"attach", "attachx"}, 4 if q else 5, dict(Datas={"d1", "d2", ""}, Codes=set(range(1, 17)), Msgs={"m1", "m2", ""}))],
        [("blocking calls among others", SYNC | CALLS | {"attach", "sub", "serr", "tick", "kill"}, 14, 60 if q else 600, dict(Codes={1, 2, 5, 10, 16}))])
def P13(c):
    q = c.tier == "quick"
    run(c, {"req", "val", "smsg", "stream"},
        [("subscriptions and messages", {"attach", "sub", "subn", "sdel", "sbad", "sabort", "sfin", "rdrop"}, 6 if q else 8, dict(MaxRets=3)),
         ("subscribing from handlers", {"attach", "sub", "sdel", "sfin", "onval", "onmsg", "onfin"}, 6 if q else 7, dict(Args={"x"}))],
        [("streams", STREAM | REACT | {"attach", "sdrop", "rdrop", "sbad", "subnull"}, 18, 60 if q else 600, {}),
         ("many subscribers", {"attach", "sub", "sdel", "rdrop"}, 50, 5 if q else 60, dict(Once={"attach"}, MaxRets=30, MaxStreams=3, Args={"x"}, Datas={"d1", "d2"})),
         ("many streams", {"attach", "sub", "sdel", "sfin"}, 50, 5 if q else 60, dict(Once={"attach"}, MaxRets=40, MaxStreams=20, Args=MANY, Datas={"d1", "d2"}))])
def P14(c):
    q = c.tier == "quick"
    run(c, {"req", "sfin", "stream"},
        [("ends of streams", {"attach", "sub", "serr", "sfin", "sabort", "tick", "mode"}, 6 if q else 8, dict(Args={"x"}, Methods={"watch", "look"})),
         ("ends inside of handlers", {"attach", "sub", "serr", "sabort", "tick", "sdel", "onerr", "onfin", "oncl", "onmsg"}, 6 if q else 7, dict(Args={"x"}))],
        [("streams", STREAM | REACT | {"attach", "sdrop", "mode", "kill"}, 18, 60 if q else 600, {}),
         ("many streams", {"attach", "sub", "sabort", "sfin", "serr", "tick"}, 50, 5 if q else 60, dict(Once={"attach"}, MaxRets=40, MaxStreams=30, MaxTicks=20, Args=MANY, Codes={5}, Msgs={"m1"}))])
def P15(c):
    q = c.tier == "quick"
    run(c, {"req", "clerr", "serr", "val", "smsg"},
        [("every status", {"attach", "sub", "serr", "tick"}, 5, dict(EVERY, Once={"attach", "sub"})),
         ("failing streams", {"attach", "sub", "serr", "tick", "sdel", "sfin", "mode"}, 7 if q else 9, dict(Args={"x"}, MaxTicks=3, Codes={5}))],
        [("failing streams", {"attach", "sub", "subn", "serr", "tick", "sdel", "mode", "sdrop", "sabort", "call", "cfail"}, 22, 60 if q else 600, dict(MaxTicks=10, Codes={1, 2, 4, 5, 8, 10, 13, 14, 16})),
         ("failing again and again", {"attach", "sub", "serr", "tick", "sdel"}, 130, 2 if q else 20, dict(Once={"attach", "sub"}, MaxTicks=100, Codes={5, 14}, Msgs={"m1"}, Datas={"d1"}, Args={"x"})),
         ("failing at once again and again", {"attach", "sub", "mode", "tick"}, 60, 1 if q else 10, dict(Once={"attach", "sub", "mode"}, MaxTicks=100, Args={"x"}))])
def P16(c):
    q = c.tier == "quick"
    run(c, {"req", "sfin", "exc", "attached", "status", "out"},
        [("changing the channel", {"attach", "attachx", "sub", "serr", "tick", "call", "sabort"}, 6 if q else 8, dict(Methods={"watch"}, MaxCalls=1)),
         ("many streams", {"attach", "sub", "serr"}, 6 if q else 8, dict(Methods={"watch", "look"}, MaxStreams=4, MaxRets=4))],
        [("changing the channel", STREAM | CALLS | {"attach", "attachx", "sync", "sdrop", "mode", "kill"}, 18, 60 if q else 600, {}),
         ("very many streams", {"attach", "sub", "serr"}, 40, 5 if q else 60, dict(MaxRets=60, MaxStreams=60, Args=MANY, Codes={5}, Msgs={"m1"}))])
