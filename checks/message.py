"""P07, P08: generated messages as values.  Spec: Message, MessageGen (exploration, scenarios), MessageTrace (judge).
Implementation side: harness/msgcli.cpp on the classes generated from harness/proto/msg.proto."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vp
SCALAR = "i32 i64 u32 u64 s32 s64 f32 f64 sf32 sf64 bo fl db st by en inr".split()
SUB = "sub leaf".split()
CONT = "ri32 rs64 rf32 rdb rst rby ren rit ms mi ml".split()
KIND = {"a": SCALAR, "b": SCALAR, "c": CONT, "d": CONT, "m": SUB}
INV = ["CopyEqual", "EmitCase"]; PROP = ["Isolated", "SignalsMatch", "NoSpurious"]
ALL = {"new", "newv", "copy", "var", "move", "assign", "massign", "eq", "set", "setp", "push", "ptr", "ptrsame", "in", "ext", "share", "del", "cell"}

def consts(fields, slots):
    return dict(Slots=set(range(1, slots + 1)), Fields=set(fields), SubFields={f for f in fields if f == "m"}, ContFields={f for f in fields if f in "cd"})
def explore(c, what, fields, slots, ops, length, simulate=None, seed=None):
    co = consts(fields, slots); co.update(Ops=set(ops), MaxLen=length, Tour=simulate is None, Emit=True)
    t = vp.tlc("MessageGen", co, INV, PROP if simulate is None else (), view="View" if simulate is None else None, simulate=simulate,
               depth=length + 1 if simulate else None, seed=seed, workers=1 if simulate else 8)
    c.add("states", t.states); c.add("transitions", len(t.lines) if simulate is None else t.states)
    c.stage("model " + what, states=t.states, scenarios=len(t.lines), exhaustive=simulate is None, length=length)
    return [x["s"] for x in t.lines]

def instances(fields, rng, every):
    """assignments of declared fields to the names of the specification"""
    if every and len(fields) == 1: return [{fields: x} for x in KIND[fields]]
    out = []
    for j in range(max(len(KIND[f]) for f in fields)):
        m = {}
        for f in fields:
            l = [x for x in KIND[f] if x not in m.values()]
            m[f] = l[(j + (0 if f == fields[0] else rng.randrange(len(l)))) % len(l)] if KIND[f][j % len(KIND[f])] in m.values() or f != fields[0] else KIND[f][j % len(KIND[f])]
        out.append(m)
    return out
def cases(scen, inst, slots, rng, share=1):
    out = []
    for m in inst:
        two = "bo" in m.values()   # bool has two values only
        for s in scen:
            if share < 1 and rng.random() > share: continue
            if two and any(x["op"] in ("set", "setp", "newv") and x["v"] == 2 for x in s): continue
            push = any(x["op"] == "push" for x in s)
            vs = (0,) if push else (0, 1, 2) if s[-1]["op"] == "eq" else (rng.choice((0, 0, 1, 1, 2)),)
            out += [dict(s=s, fm=m, n=slots, var=v, look=rng.choice(("all", "end"))) for v in vs]
    return out

def settle(c, cli, cs, hint, fields, slots, what):
    recs = vp.run_cli(cli, cs)
    co = consts(fields, slots); co["What"] = what
    # damaged recordings have to be rejected
    probes = []
    for r in [r for r in recs if r["r"] == "ok"]:
        op = r["s"][-1]["op"]
        if what == "values": fit = op in ("new", "newv")
        else: fit = op == "set" and r["s"][-1]["v"] > 0 and all(x["op"] == "new" for x in r["s"][:-1])
        if not fit or len(probes) >= 5: continue
        q = json.loads(json.dumps(r)); o = q["o"][-1]; probes.append(q)
        if what == "values": o["v"][q["s"][-1]["k"] - 1][0][fields[0]] = 7
        else: o["ev"] = []
    bad, n = vp.judge("MessageTrace", recs + probes, co)
    ids = {id(p) for p in probes}
    hit = sum(1 for r, _ in bad if id(r) in ids)
    bad = [(r, w) for r, w in bad if id(r) not in ids]
    if hit != len(probes) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(probes) - hit, len(probes)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance " + hint, recordings=len(recs), rejected=len(bad))
    if recs and not getattr(c, "sample_list", None): c.sample_list = [{k: recs[j][k] for k in ("s", "fm", "o")} for j in (0, len(recs) // 2) if "o" in recs[j]]
    for r, w in sorted(bad, key=lambda x: len(x[0]["s"]))[:100]:
        c.violate("%s | fields %s scenario %s %s" % (w[:500], dict(r["fm"], values=r["var"], look=r["look"]), " ".join("%s(%s)" % (s["op"], ",".join(str(s[k]) for k in "kjfv" if s[k] not in (0, ""))) for s in r["s"]), (r.get("stderr") or "")[:400]), r)

def run(c, what, full, longs):
    cli = vp.build("msgcli") + "/msgcli"
    rng = random.Random(vp.SEED)
    for fields, slots, ops, length, share in full:
        sc = explore(c, "fields " + fields, fields, slots, ops, length)
        settle(c, cli, cases(sc, instances(fields, rng, True), slots, rng, share), "fields " + fields, fields, slots, what)
    for fields, slots, length, num, cap in longs:
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(explore, c, "long histories", fields, slots, ALL, length, num, vp.SEED * 1000 + j) for j in range(8)]
            sc = [x for f in fs for x in f.result()]
        sc = rng.sample(sc, min(len(sc), cap))
        inst = [m for _ in range(4) for m in instances(fields, rng, False)]
        cs = []
        for j, s in enumerate(sc):
            m = inst[j % len(inst)]
            cs += cases([s], [m], slots, rng) or cases([s], [dict(m, **{k: next(x for x in SCALAR if x not in m.values()) for k in m if m[k] == "bo"})], slots, rng)
        settle(c, cli, cs, "long histories", fields, slots, what)

def P07(c):
    q = c.tier == "quick"
    o = ALL
    run(c, "values", [("a", 2, o - {"cell"}, 5 if q else 6, 1), ("c", 2, o, 5 if q else 6, 1 if q else 1), ("m", 2, o - {"cell"}, 6 if q else 7, 1)],
        [("abcm", 3, 14, 25 if q else 400, 4000 if q else 60000), ("bdm", 4, 30, 10 if q else 150, 2000 if q else 30000)])
def P08(c):
    q = c.tier == "quick"
    o = ALL - {"eq", "cell", "share"}
    run(c, "signals", [("a", 2, o, 5 if q else 6, 1), ("c", 2, o, 5 if q else 6, 1), ("m", 2, o, 6 if q else 7, 1)],
        [("abcm", 3, 14, 25 if q else 400, 4000 if q else 60000), ("bdm", 4, 30, 10 if q else 150, 2000 if q else 30000)])
