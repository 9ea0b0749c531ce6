"""P01-P06: the wire format.  Spec: Wire (meaning of bytes), WireSender/WireRaw (inputs), WireTrace (judge)."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import vp
ALL = ["Scalars", "Repeats", "Leaf", "Outer", "Mid", "Maps", "Numbers", "Node", "Nothing", "Kinds", "Others"]

def gen(c, what, types=ALL, ops=1, feat=(), same=False, sample=0, mut=False, simulate=None, depth=None, seed=None, workers=8):
    t = vp.tlc("WireSender", dict(Types=types, MaxOps=ops, Feat=set(feat), Same=same, Sample=sample, Mut=mut, Emit=True),
               invariants=["Agree", "Total", "EmitCase"], simulate=simulate, depth=depth, seed=seed, workers=workers)
    c.add("states", t.states); c.add("transitions", max(0, t.states - len(types)))
    c.stage("model " + what, states=t.states, cases=len(t.lines), exhaustive=simulate is None)
    return t.lines

def sim(c, what, n, total, **kw):
    """n independent simulations (distinct seeds) side by side"""
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(gen, c, what, simulate=total // 8, seed=vp.SEED * 1000 + k, workers=1, sample=kw.get("sample", 1), **{x: y for x, y in kw.items() if x != "sample"}) for k in range(8 * n)]
        return [x for f in fs for x in f.result()]

def uniq(cases, key):
    seen = set(); out = []
    for x in cases:
        k = json.dumps([x["t"], x[key]])
        if k not in seen: seen.add(k); out.append(x)
    return out

def probes(records):
    """damaged copies of accepted recordings: the judge has to reject each of them"""
    out = []
    for r in records:
        if r.get("r") == "crash": continue
        if r["op"] == "dec" and r["r"] == "ok" and r["v"]:
            q = dict(r); q["v"] = r["v"][1:]; out.append(q)
        if r["op"] == "dec" and r["r"] == "ex": q = dict(r); q["r"] = "ok"; q["v"] = []; out.append(q)
        if r["op"] == "ser" and r["b"]:
            q = dict(r); q["b"] = r["b"][:-1]; q["r"] = "ok"; q["v2"] = r["v2"][1:] + [[-1, []]]; out.append(q)
        if r["op"] == "hist":
            for k, s in enumerate(r["h"]):
                if s["o"] == "dec" and s["r"] == "ok" and s["v"]:
                    q = json.loads(json.dumps(r)); q["h"][k]["v"] = []; out.append(q); break
        if len(out) >= 6: break
    return out

def settle(c, cli, cases, checks, hint):
    recs = vp.run_cli(cli, cases)
    pr = probes(recs)
    bad, n = vp.judge("WireTrace", recs + pr, dict(Checks=set(checks)))
    hit = sum(1 for r, _ in bad if any(r is p for p in pr))
    bad = [(r, w) for r, w in bad if not any(r is p for p in pr)]
    if hit != len(pr) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(pr) - hit, len(pr)))
    c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit)
    c.stage("conformance " + hint, recordings=len(recs), rejected=len(bad))
    if recs and not getattr(c, "sample_list", None): c.sample_list = [{k: recs[j][k] for k in recs[j] if k != "i"} for j in (0, len(recs) // 2)]
    if bad:   # only what repeats counts
        again = vp.run_cli(cli, [dict(x[0]) if False else {k: x[0][k] for k in ("op", "t", "b", "v", "s") if k in x[0] and not (k == "v" and x[0]["op"] == "dec") and not (k == "b" and x[0]["op"] == "ser")} for x in bad[:200]], jobs=4)
        bad2, _ = vp.judge("WireTrace", again, dict(Checks=set(checks)))
        for r, w in bad2:
            c.violate("%s: %s %s input %s result %s" % (w, r["op"], r["t"], json.dumps(r.get("b") if r["op"] == "dec" else r.get("v") or r.get("s"))[:200], json.dumps({k: r.get(k) for k in ("r", "v", "v2", "b", "how")})[:300]), r)
        if not bad2: c.notes.append("rejections did not repeat")
    return recs

SHAPES = ["str", "byt", "packed", "wide", "texts", "msgs", "map", "sub"]
def big(c, cli, shapes, checks, damages=("none",)):
    """large values: sizes around every step of the length prefix"""
    sizes = [1, 30, 126, 127, 128, 129, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 70000]
    if c.tier != "quick": sizes += [2, 3, 40, 8191, 8192, 131072, 1000000, 2097151, 2097152, 3000000]
    few = [1, 30, 127, 128, 300, 1500] + ([5000, 16384] if c.tier != "quick" else [])
    k = dict(Shapes=set(shapes), Sizes=set(sizes), Few=set(few), Damages=set(damages))
    t = vp.tlc("WireBig", dict(k, Emit=True), ["Agree", "Lengths", "EmitCase"])
    c.add("states", t.states); c.stage("model large values", states=t.states, cases=len(t.lines), exhaustive=True)
    def look(cases):
        recs = [{x: r.get(x, False) for x in ("i", "op", "t", "shape", "n", "damage", "len", "r", "dec", "same", "out", "back", "how")} for r in vp.run_cli(cli, cases)]
        for r in recs: r["out"] = int(r["out"])
        pr = [dict(recs[0], r="crash"), dict(recs[-1], len=recs[-1]["len"] + 1)]
        bad, _ = vp.judge("WireBigTrace", recs + pr, dict(k, Emit=False, Checks=set(checks)), spec="TSpec")
        hit = sum(1 for r, _ in bad if any(r is p for p in pr)); bad = [x for x in bad if not any(x[0] is p for p in pr)]
        if hit != len(pr) and not bad: raise vp.ToolError("judge accepted damaged recordings")
        return recs, bad
    recs, bad = look(t.lines)
    c.add("traces", len(recs)); c.stage("conformance large values", recordings=len(recs), rejected=len(bad))
    if bad:
        ids = {(r["shape"], r["n"], r["damage"]) for r, _ in bad[:20]}
        for r, w in look([x for x in t.lines if (x["shape"], x["n"], x["damage"]) in ids])[1]:
            c.violate("%s: large value %s of %d, %s" % (w, r["shape"], r["n"], r["damage"]), r)

GROWING = ["texts", "blobs", "msgs", "unpacked"]
SLOW = "decoding a repeated field of n elements that come one by one (repeated string, bytes, messages, unpacked numbers) takes time that is quadratic in n"
def cost(c, cli):
    """time in proportion to the input"""
    k = dict(Shapes=set(SHAPES + ["unk", "unks", "unkv", "over", "num", "key", "merge"] + GROWING), Sizes={20000} if c.tier == "quick" else {20000, 60000}, Few={400} if c.tier == "quick" else {400, 1000}, Damages={"none"})
    t = vp.tlc("WireCost", dict(k, Emit=True), ["Valid", "Scale", "EmitCost"], spec="CSpec")
    c.add("states", t.states); c.stage("model time", states=t.states, cases=len(t.lines))
    def look(cases, jobs):
        recs = [{x: r.get(x, 0) for x in ("shape", "n", "r", "one", "eight")} for r in vp.run_cli(cli, cases, jobs=jobs)]
        pr = [dict(recs[0], one=1000, eight=64000), dict(recs[0], r="ex")]
        bad, _ = vp.judge("WireCostTrace", recs + pr, dict(k, Emit=False), spec="TSpec")
        hit = sum(1 for r, _ in bad if any(r is p for p in pr)); bad = [x for x in bad if not any(x[0] is p for p in pr)]
        if hit != len(pr): raise vp.ToolError("judge accepted damaged recordings")
        return recs, bad
    recs, bad = look(t.lines, 4)
    if bad:    # once more, alone
        ids = {(r["shape"], r["n"]) for r, _ in bad}
        bad = look([x for x in t.lines if (x["shape"], x["n"]) in ids], 1)[1]
    c.add("traces", len(recs)); c.stage("conformance time", recordings=len(recs), rejected=len(bad), microseconds={r["shape"]: [r["one"], r["eight"]] for r in recs})
    for r, w in bad:
        if r["shape"] in GROWING and r["r"] == "ok" and vp.known("P05", "quadratic"):
            if SLOW not in c.known: c.known.append(SLOW)
        else: c.violate("%s: %s of %d units" % (w, r["shape"], r["n"]), r)

def dec(cases): return [dict(op="dec", t=x["t"], b=x["b"]) for x in uniq(cases, "b")]
def ser(cases): return [dict(op="ser", t=x["t"], v=x["v"]) for x in uniq(cases, "v")]

def values(c):
    """values: exhaustive single settings, exhaustive pairs of settings of one field, random longer ones"""
    n = 1 if c.tier == "quick" else 12
    cases = gen(c, "every field, every catalogued value", ops=1, feat=["many", "unpacked"])
    cases += gen(c, "pairs on one field", types=["Repeats", "Maps", "Outer", "Mid", "Node", "Leaf", "Kinds"], ops=2, same=True, feat=["unpacked"])
    cases += sim(c, "random messages", n, 900, ops=12, feat=["many", "unpacked"], depth=13)
    return cases

def P01(c):
    d = vp.build("wirecli")
    settle(c, d + "/wirecli", ser(values(c)), ["roundtrip"], "round trip")
    big(c, d + "/wirecli", SHAPES, ["roundtrip"])
def P02(c):
    d = vp.build("wirecli")
    settle(c, d + "/wirecli", ser(values(c)), ["encoding"], "emitted bytes")
    big(c, d + "/wirecli", SHAPES, ["encoding"])
def P03(c):
    d = vp.build("wirecli"); n = 1 if c.tier == "quick" else 10
    cases = gen(c, "every single operation", ops=1, feat=["many", "unpacked", "pad", "mis"])
    cases += gen(c, "pairs on one field", types=["Scalars", "Repeats", "Maps", "Outer", "Mid", "Node", "Leaf", "Kinds"], ops=2, same=True, feat=["unpacked"])
    cases += sim(c, "random messages", n, 900, ops=10, feat=["many", "unpacked", "pad"], depth=11)
    settle(c, d + "/wirecli", dec(cases), ["decode"], "decode")
    big(c, d + "/wirecli", SHAPES, ["decode"])
def P04(c):
    d = vp.build("wirecli"); n = 1 if c.tier == "quick" else 10
    cases = gen(c, "every single unknown field", ops=1, feat=["many", "unk"])
    cases += gen(c, "unknown fields around known ones", types=["Leaf", "Outer", "Mid", "Node", "Nothing", "Numbers"], ops=2, sample=30, feat=["unk"])
    cases += sim(c, "random messages", n, 1200, ops=8, feat=["unk", "mis", "unpacked"], depth=9)
    settle(c, d + "/wirecli", dec(cases), ["decode"], "unknown fields")
    big(c, d + "/wirecli", ["unk"], ["decode"])
def P05(c):
    d = vp.build("wirecli"); n = 1 if c.tier == "quick" else 8
    raw = vp.tlc("WireRaw", dict(Types={"Scalars", "Repeats", "Outer", "Mid", "Maps", "Node"}, MaxLen=4 if c.tier == "quick" else 5, Emit=True), ["Total", "EmitCase"])
    c.add("states", raw.states); c.add("transitions", raw.states - 6); c.stage("model all short inputs", states=raw.states, exhaustive=True)
    settle(c, d + "/wirecli", dec(raw.lines), ["decode"], "all short inputs")
    cases = []
    cases += sim(c, "damaged messages", n, 1500, ops=3, feat=["unk", "unpacked"], mut=True, sample=12, depth=5)
    if n > 1: cases += sim(c, "damaged messages", n, 1500, ops=3, feat=["unk", "unpacked", "many"], mut=True, sample=12, depth=5)
    cases += gen(c, "single operations with any damage", types=["Leaf", "Outer", "Mid"], ops=1, mut=True, feat=[])
    settle(c, d + "/wirecli", dec(cases), ["decode"], "damaged messages")
    big(c, d + "/wirecli", SHAPES + ["unk"], ["reject"], ("cut", "short"))
    cost(c, d + "/wirecli")
    # nesting: the specification has no limit, the implementation may have one (not below 100)
    deep = []
    for depth in (10, 99, 100, 600, 3000, 20000) + ((100000,) if c.tier != "quick" else ()):
        for tag in (26, 34):
            b = []
            parts = []
            size = 0
            for _ in range(depth):   # built inside out, lengths first
                ln = []; x = size
                while True:
                    if x > 127: ln.append(x & 127 | 128); x >>= 7
                    else: ln.append(x); break
                if tag == 34:        # map entry with only a value
                    inner = [18] + ln; size2 = size + len(inner); ln2 = []; x = size2
                    while True:
                        if x > 127: ln2.append(x & 127 | 128); x >>= 7
                        else: ln2.append(x); break
                    parts.append([tag] + ln2 + inner); size = size2 + 1 + len(ln2)
                else: parts.append([tag] + ln); size += 1 + len(ln)
            for p in reversed(parts): b += p
            deep.append(dict(op="deep", t="Node", b=b, n=depth))
    for r in vp.run_cli(d + "/wirecli", deep, jobs=8):
        ok = r["r"] == "ok" or (r["r"] == "ex" and r["n"] > 100)
        c.add("nesting_cases", 1)
        if not ok: c.violate("nesting depth %d: %s" % (r["n"], r["r"]), dict(depth=r["n"], result=r["r"], how=r.get("how"), stderr=r.get("stderr")))
def P06(c):
    d = vp.build("wirecli"); n = 1 if c.tier == "quick" else 10
    cases = []
    for k in range(n):
        good = uniq(gen(c, "messages", ops=4, feat=["unpacked"], sample=1, simulate=400, depth=5, seed=vp.SEED * 100 + k, workers=1), "b")
        broken = uniq(gen(c, "damaged messages", ops=3, feat=["unpacked"], mut=True, sample=2, simulate=300, depth=5, seed=vp.SEED * 200 + k, workers=1), "b")
        d2 = vp.scratch(); f = d2 + "/cases.ndjson"
        with open(f, "w") as h:
            for x in good + broken: h.write(json.dumps(dict(t=x["t"], b=x["b"], v=x["v"]), separators=(",", ":")) + "\n")
        t = vp.tlc("WireHistory", dict(MaxLen=7, Emit=True), ["TypeOK", "EmitCase"], env={"CASES": f}, simulate=1500, depth=8, seed=vp.SEED * 300 + k, workers=1)
        c.add("states", t.states); c.stage("model histories of one object", states=t.states, histories=len(t.lines))
        cases += t.lines
    settle(c, d + "/wirecli", [dict(op="hist", t=x["t"], s=x["s"]) for x in cases], ["history"], "histories")
