"""P09: the handler registry.  Spec: Registry (locking protocol and promise), RegistryTrace (judge of recorded histories).
Implementation side: harness/regcli.cpp (threads on registerHandler/findHandler, also under ThreadSanitizer), sercli.cpp."""
import json, os, random, re, subprocess
import vp

def programs(rng, n, kind):
    """concurrent programs; every thread also gets delays for its synchronisation points"""
    out = []
    for j in range(n):
        mode = "one"; th = []
        def finds(k, types): return [dict(op="find", t=rng.choice(types), v=0) for _ in range(k)]
        if kind == "small":
            nt = rng.randint(2, 4); types = [1, 2][:rng.randint(1, 2)]
            for w in types: th.append([dict(op="reg", t=w, v=v) for v in range(1, rng.randint(2, 5))])
            for p in th:
                for _ in range(rng.randint(0, 2)): p.insert(rng.randrange(len(p) + 1), finds(1, types)[0])
            for _ in range(nt): th.append(finds(rng.randint(1, 6), types))
        elif kind == "grow":      # many types: the container is rebuilt while others look up
            types = list(range(1, 61))
            for w in range(2): th.append([dict(op="reg", t=t, v=1) for t in types if t % 2 == w])
            for _ in range(5): th.append(finds(25, types))
        elif kind == "crowd":     # more threads than the lock has slots
            types = [1]
            th.append([dict(op="reg", t=1, v=v) for v in range(1, 4)])
            for _ in range(rng.choice([66, 80, 130])): th.append(finds(1, types))
        else:                     # several writers of one type
            mode = "any"; v = 0
            for _ in range(rng.randint(2, 3)):
                p = []
                for _ in range(rng.randint(1, 2)): v += 1; p.append(dict(op="reg", t=1, v=v))
                p.insert(rng.randrange(len(p) + 1), finds(1, [1])[0]); th.append(p)
            th.append(finds(2, [1]))
        d = []
        for p in th:
            style = rng.randrange(4) if kind != "crowd" else rng.choice([0, 3])
            d.append([] if style == 0 else [rng.choice([0, 0, 0, 50, 300]) if style == 1 else (rng.choice([0, 100]) if style == 2 else (400 if rng.random() < .15 else 0)) for _ in range(4 * len(p) + 4)])
        out.append(dict(th=th, d=d, mode=mode))
    return out

def tsan(c, cs):
    cli = vp.build("regcli", "tsan") + "/regcli"
    inp = "\n".join(json.dumps(dict(x, i=j)) for j, x in enumerate(cs)) + "\n"
    env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=0 report_signal_unsafe=0 history_size=3", LC_ALL="C.UTF-8")
    p = None
    for pre in ([], ["setarch", os.uname().machine, "-R"]):
        try: p = subprocess.run(pre + [cli], input=inp, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        except subprocess.TimeoutExpired: c.violate("threads on the registry do not come to an end under ThreadSanitizer", cs[:1]); return
        if "unexpected memory mapping" not in p.stderr: break
    else:
        c.stage("data races (ThreadSanitizer)", skipped="ThreadSanitizer cannot run in this sandbox"); return
    reports = re.findall(r"WARNING: ThreadSanitizer: .*?(?:={18}|\Z)", p.stderr, re.S)
    ended = "\nEND" in p.stdout
    c.add("traces", len(cs)); c.stage("data races (ThreadSanitizer)", programs=len(cs), reports=len(reports), ended=ended)
    for r in reports[:3]: c.violate("data race between registry operations: " + r[:1500], cs[:1])
    if not ended and not reports: c.violate("registry operations do not come to an end: " + p.stderr[-800:], cs[:1])

def P09(c):
    q = c.tier == "quick"
    rng = random.Random(vp.SEED)
    inv = ["Exclusion", "Atomic", "SlotsOK"]
    for th, wr, types, cap, ops, ver, live in ([(3, 2, 1, 2, 2, 2, False), (3, 1, 1, 2, 1, 2, True)] if q else [(3, 2, 2, 2, 2, 2, False), (3, 2, 1, 2, 2, 2, True), (4, 2, 1, 3, 2, 2, False), (5, 2, 1, 3, 1, 2, False), (4, 1, 1, 2, 1, 2, True)]):
        t = vp.tlc("Registry", dict(Threads=set(range(1, th + 1)), Writers=set(range(1, wr + 1)), Types=set(range(1, types + 1)), Cap=cap, MaxOps=ops, MaxVer=ver),
                   inv, ["EveryOperationCompletes"] if live else [], deadlock=True)
        c.add("states", t.states); c.add("transitions", t.states)
        c.stage("model", threads=th, writers=wr, slots=cap, operations=ops, states=t.states)
    d = vp.build(["regcli", "sercli"])
    for kind, n in (("small", 400 if q else 6000), ("grow", 60 if q else 800), ("crowd", 40 if q else 400), ("writers", 200 if q else 4000)):
        cs = programs(rng, n, kind)
        recs = vp.run_cli(d + "/regcli", cs, jobs=4, maxbad=2)
        probes = []
        for r in [r for r in recs if r["r"] == "ok"][:40]:
            p = json.loads(json.dumps(r)); f = [x for x in p["h"] if x["op"] == "find"]
            top = max([x["v"] for x in p["h"] if x["op"] == "reg"])
            f[-1]["v"] = top + 1; probes.append(p)
        bad, n = vp.judge("RegistryTrace", recs + probes)
        ids = {id(p) for p in probes}
        hit = sum(1 for r, _ in bad if id(r) in ids); bad = [(r, w) for r, w in bad if id(r) not in ids]
        if hit != len(probes) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(probes) - hit, len(probes)))
        c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
        overlap = sum(1 for r in recs if r["r"] == "ok" and any(a["op"] == "reg" and b["op"] == "find" and a["inv"] < b["ret"] and b["inv"] < a["ret"] for a in r["h"] for b in r["h"]))
        c.stage("histories " + kind, recordings=len(recs), with_overlap=overlap, rejected=len(bad))
        if not getattr(c, "sample_list", None): c.sample_list = [r for r in recs[:2]]
        for r, w in bad[:20]: c.violate("%s history: %s | %s %s" % (kind, w, json.dumps(r.get("h"))[:600], (r.get("stderr") or "")[:500]), r)
        if c.violations: return
    cs = [dict(n=6, w=2, rounds=120 if q else 2500, mode="one") for _ in range(2 if q else 6)]
    recs = vp.run_cli(d + "/sercli", cs, jobs=1, maxbad=1)
    bad, _ = vp.judge("RegistryTrace", recs)
    c.add("traces", len(recs)); c.stage("serialization while registering", recordings=len(recs), rejected=len(bad))
    for r, w in bad: c.violate("messages serialized while handlers are registered: %s %s" % (w, (r.get("stderr") or "")[:800]), r)
    tsan(c, programs(rng, 60 if q else 600, "small") + programs(rng, 10 if q else 100, "grow"))
    c.assumptions += ["schedules of the real threads are sampled (with scripted delays at the synchronisation points), those of the model are exhausted within the stated bounds"]

# ------------------------------------------------------------------ P10: the serializer registry (Serializers, SerializersGen, SerializersTrace; harness/plugcli.cpp)
def P10(c):
    q = c.tier == "quick"
    rng = random.Random(vp.SEED)
    d = vp.build("plugcli")
    sc = []
    for tour, n, length in ((True, 0, 8), (False, 400 if q else 6000, 8), (False, 60 if q else 1000, 25)):
        t = vp.tlc("SerializersGen", dict(MaxLen=length, Tour=tour), ["BuiltIn", "Apart", "EmitCase"], ["Stable"] if tour else [], view="View" if tour else None,
                   simulate=n or None, depth=length + 1, workers=8 if tour else 1)
        c.add("states", t.states); c.add("transitions", len(t.lines) if tour else t.states)
        lines = t.lines if tour else rng.sample(t.lines, min(len(t.lines), n))
        c.stage("model" if tour else "random histories", states=t.states, scenarios=len(lines), exhaustive=tour)
        sc += [dict(s=x["s"]) for x in lines]
    recs = vp.run_cli(d + "/plugcli", sc, env=dict(QT_PROTOBUF_PLUGIN_PATH=d + "/vp/plugins"), maxbad=6)
    probes = []
    for r in [r for r in recs if r["r"] == "ok" and r["s"][-1]["op"] in ("get", "getp")][:40]:
        p = json.loads(json.dumps(r)); p["o"][-1]["who"] = "Default:protobuf" if p["o"][-1]["who"] != "Default:protobuf" else "throw"; probes.append(p)
    bad, n = vp.judge("SerializersTrace", recs + probes)
    ids = {id(p) for p in probes}
    hit = sum(1 for r, _ in bad if id(r) in ids); bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(probes) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(probes) - hit, len(probes)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance", recordings=len(recs), rejected=len(bad))
    c.sample_list = recs[-2:]
    for r, w in sorted(bad, key=lambda x: len(x[0]["s"]))[:20]:
        c.violate("%s | %s %s" % (w, " ".join("%s(%s)" % (x["op"], ",".join(y for y in (x["a"], x["b"]))) for x in r["s"]), (r.get("stderr") or "")[:500]), r)
