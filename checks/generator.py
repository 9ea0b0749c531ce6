"""P26: the generator.  Specs: Schema (what a schema has to become), SchemaGen (schemas), SchemaTrace (judge).
Implementation side: the real protoc plugin, moc, the compiler, and a program using every generated class."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vp
QI = "/usr/include/x86_64-linux-gnu/qt5"
SAMPLE = dict(int32="QtProtobuf::int32(5)", int64="QtProtobuf::int64(600)", uint32="QtProtobuf::uint32(300)", uint64="QtProtobuf::uint64(70000)", sint32="QtProtobuf::sint32(-2)", sint64="QtProtobuf::sint64(-3)",
              fixed32="QtProtobuf::fixed32(258)", fixed64="QtProtobuf::fixed64(259)", sfixed32="QtProtobuf::sfixed32(-2)", sfixed64="QtProtobuf::sfixed64(-3)", bool="true", float="1.5f", double="-2.5",
              string="QString::fromUtf8(\"h\\xc3\\xa4\")", bytes="QByteArray(\"\\0\\xff\", 2)")
LIST = dict(string="QStringList", bytes="QByteArrayList", bool="QtProtobuf::BoolList", float="QtProtobuf::FloatList", double="QtProtobuf::DoubleList")
COMMENTS = ["plain words", "with $dollar$ and $ in it", "a */ b, a * star, a /* slash, and a backslash \\\\", "ends with a backslash \\\\", "\"quotes\" 'and' <angles> %1", "umlaut \u00e4\u00f6 and \u65e5\u672c"]
NAMES = None

def names():
    """the table Names of the specification"""
    import re
    s = open(os.path.join(vp.SPEC, "Schema.tla")).read()
    return [None] + [dict(p=a, c=b, cap=c, e=d) for a, b, c, d in re.findall(r'N\("(\w+)", "(\w+)", "(\w+)", "(\w+)"\)', s)]

# ------------------------------------------------------------------ the schema as .proto files
def path_of(s, o, f): return ("/".join(s["pk"][f - 1]) + "/" if o["folder"] or o["multi"] else "") + s["pk"][f - 1][-1] + ".proto"
def protos(s, o):
    out = {}; nc = [0]
    def note(ind):
        if not o["comments"]: return ""
        nc[0] += 1; return "%s// %s\n" % (ind, COMMENTS[nc[0] % len(COMMENTS)])
    def mname(m): M = s["msgs"][m - 1]; return (mname(M["parent"]) + "." if M["parent"] else "." + ".".join(s["pk"][M["file"] - 1]) + ".") + M["name"]
    def ename(e): E = s["enums"][e - 1]; return (mname(E["owner"]) + "." if E["owner"] else "." + ".".join(s["pk"][E["file"] - 1]) + ".") + E["name"]
    def enum(E, ind):
        return note(ind) + ind + "enum %s {\n" % E["name"] + "".join(note(ind + "  ") + ind + "  %s = %d;\n" % (v["p"], v["v"]) for v in E["vals"]) + ind + "}\n"
    def msg(m, ind):
        M = s["msgs"][m - 1]; t = note(ind) + ind + "message %s {\n" % M["name"]
        for e, E in enumerate(s["enums"], 1):
            if E["owner"] == m: t += enum(E, ind + "  ")
        for k, K in enumerate(s["msgs"], 1):
            if K["parent"] == m: t += msg(k, ind + "  ")
        for f in s["fields"]:
            if f["m"] != m: continue
            ty = mname(f["ref"]) if f["type"] == "msg" else (ename(f["ref"]) if f["type"] == "enum" else f["type"])
            pre = dict(one="%s", rep="repeated %s", map="map<" + f["key"] + ", %s>")[f["card"]] % ty
            t += note(ind + "  ") + ind + "  %s %s = %d%s;\n" % (pre, NAMES[f["n"]]["p"], f["num"], " [json_name = \"j-%s\"]" % NAMES[f["n"]]["p"] if f["js"] else "")
        return t + ind + "}\n"
    for f in (1, 2):
        t = "syntax = \"proto3\";\npackage %s;\n" % ".".join(s["pk"][f - 1])
        if f == 2: t += "import \"%s\";\n" % path_of(s, o, 1)
        for E in s["enums"]:
            if E["owner"] == 0 and E["file"] == f: t += enum(E, "")
        for m, M in enumerate(s["msgs"], 1):
            if M["parent"] == 0 and M["file"] == f: t += msg(m, "")
        for v in s["svcs"]:
            if v["file"] == f:
                t += note("") + "service %s {\n" % v["name"] + "".join(note("  ") + "  rpc %s(%s) returns (%s%s);\n" % (r["p"], mname(r["in"]), "stream " if r["stream"] else "", mname(r["out"])) for r in v["rpcs"]) + "}\n"
        out[path_of(s, o, f)] = t
    return out

# ------------------------------------------------------------------ a program that uses everything
def program(s, o, headers):
    ns = lambda f: ("xn::" if o["extra"] else "") + "::".join(s["pk"][f - 1]) + "::"
    def cls(m): M = s["msgs"][m - 1]; return (cls(M["parent"]) + "::" if M["parent"] else ns(M["file"])) + M["name"]
    def escope(e): E = s["enums"][e - 1]; return cls(E["owner"]) if E["owner"] else ns(E["file"]) + E["name"] + "Gadget"
    def ety(e): return escope(e) + "::" + s["enums"][e - 1]["name"]
    def scalar(m):
        q = [f for f in s["fields"] if f["m"] == m and f["card"] == "one" and f["type"] in SAMPLE]
        return q[0] if q else None
    def value(f):
        if f["type"] == "enum": E = s["enums"][f["ref"] - 1]; return "%s::%s" % (escope(f["ref"]), E["vals"][-1]["c"])
        if f["type"] == "msg": return "sample%d()" % f["ref"]
        return SAMPLE[f["type"]]
    def cap(f): return NAMES[f["n"]]["cap"]
    L = ["#include <%s>" % h for h in headers] + ["#include <QCoreApplication>", "#include <QMetaProperty>", "#include <QMetaEnum>", "#include <cstdio>", "#include <string>", "#include <QPointer>",
         "#include <QProtobufSerializer>", "#include <QAbstractGrpcChannel>", "#include <QGrpcStream>", "#include <QGrpcCallReply>"]
    L += ["using namespace QtProtobuf;", "static const char *sep = \"\";",
          "static std::string js(const char *c) { return std::string(\"\\\"\") + c + \"\\\"\"; }",
          "static std::string bytes(const QByteArray &b) { std::string r = \"[\"; for (int i = 0; i < b.size(); i++) r += (i ? \",\" : \"\") + std::to_string((unsigned char)b[i]); return r + \"]\"; }",
          "template <typename M> static void props(int m) { for (auto &e : M::propertyOrdering) { QMetaProperty p = M::staticMetaObject.property(e.second.qtProperty);",
          "  printf(\"%s{\\\"m\\\":%d,\\\"num\\\":%d,\\\"name\\\":%s,\\\"type\\\":%s,\\\"json\\\":%s,\\\"sig\\\":%s,\\\"w\\\":%d}\", sep, m, int(e.first), js(p.name()).c_str(), js(p.typeName()).c_str(), js(qPrintable(e.second.jsonName)).c_str(), js(p.notifySignal().name()).c_str(), int(p.isWritable() && p.isReadable())); sep = \",\"; } }",
          "template <typename M> static void aliases(int m) { for (int i = M::staticMetaObject.propertyOffset(); i < M::staticMetaObject.propertyCount(); i++) { bool own = false; for (auto &e : M::propertyOrdering) own |= int(e.second.qtProperty) == i;",
          "  QMetaProperty p = M::staticMetaObject.property(i); if (!own) { printf(\"%s{\\\"m\\\":%d,\\\"name\\\":%s,\\\"type\\\":%s}\", sep, m, js(p.name()).c_str(), js(p.typeName()).c_str()); sep = \",\"; } } }",
          "static void keys(const QMetaObject &mo, const char *name) { int i = mo.indexOfEnumerator(name); printf(\"[\"); if (i >= 0) { QMetaEnum e = mo.enumerator(i);",
          "  for (int k = 0; k < e.keyCount(); k++) printf(\"%s{\\\"k\\\":%s,\\\"v\\\":%d}\", k ? \",\" : \"\", js(e.key(k)).c_str(), e.value(k)); } printf(\"]}\"); }",
          "static QProtobufSerializer ser;",
          "template <typename M> static void wire(int j, M &v) { QByteArray b = v.serialize(&ser); M w; w.deserialize(&ser, b); M x(v); QByteArray c = w.serialize(&ser);",
          "  printf(\"%s{\\\"j\\\":%d,\\\"b\\\":%s,\\\"back\\\":%d}\", sep, j, bytes(b).c_str(), int(v == w && x == v && c == b && !(M() == v))); sep = \",\"; }"]
    for m in range(1, len(s["msgs"]) + 1):
        g = scalar(m)
        L.append("static %s sample%d() { %s v; %s return v; }" % (cls(m), m, cls(m), "v.set%s(%s);" % (cap(g), SAMPLE[g["type"]]) if g else ""))
    if s["svcs"]:
        L += ["struct Fake : public QAbstractGrpcChannel { QString svc, m; QByteArray arg, out;",
              "  QGrpcStatus call(const QString &a, const QString &b, const QByteArray &c, QByteArray &r) override { m = a; svc = b; arg = c; r = out; return QGrpcStatus(QGrpcStatus::Ok); }",
              "  void call(const QString &a, const QString &b, const QByteArray &c, QGrpcCallReply *r) override { m = a; svc = b; arg = c; QObject *x = new QObject; QObject::connect(x, &QObject::destroyed, r, [this, r] { r->setData(out); emit r->finished(); }); x->deleteLater(); }",
              "  void stream(QGrpcStream *s, const QString &b, QAbstractGrpcClient *) override { m = s->method(); svc = b; arg = s->arg(); QObject *x = new QObject; QObject::connect(x, &QObject::destroyed, s, [this, s] { s->handler(out); }); x->deleteLater(); }",
              "  std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return std::make_shared<QProtobufSerializer>(); } };",
              "static void turn() { for (int i = 0; i < 3; i++) { QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); QCoreApplication::processEvents(); } }",
              "static void said(Fake &f, const char *way, bool got) { printf(\"%s{\\\"svc\\\":%s,\\\"m\\\":%s,\\\"way\\\":%s,\\\"arg\\\":%s,\\\"got\\\":%s}\", sep, js(qPrintable(f.svc)).c_str(), js(qPrintable(f.m)).c_str(), js(way).c_str(), bytes(f.arg).c_str(), got ? \"true\" : \"false\"); sep = \",\"; f.svc.clear(); f.m.clear(); f.arg.clear(); }"]
    B = []
    for j, f in enumerate(s["fields"], 1):   # vJ(): the sample of field J
        C = cls(f["m"]); b = "static auto v%d() { " % j
        if f["card"] == "one": b += "%s l = %s;" % (ety(f["ref"]) if f["type"] == "enum" else "auto", value(f))
        elif f["card"] == "rep":
            if f["type"] == "msg": t = cls(f["ref"]); b += "%sRepeated l; l.append(QSharedPointer<%s>(new %s(%s))); l.append(QSharedPointer<%s>(new %s(%s)));" % (t, t, t, value(f), t, t, value(f))
            elif f["type"] == "enum": b += "%sRepeated l; l << %s << %s;" % (ety(f["ref"]), value(f), value(f))
            else: b += "%s l; l << %s << %s;" % (LIST.get(f["type"], "QtProtobuf::%sList" % f["type"]), SAMPLE[f["type"]], SAMPLE[f["type"]])
        else:
            v = value(f) if f["type"] != "msg" else "QSharedPointer<%s>(new %s(%s))" % (cls(f["ref"]), cls(f["ref"]), value(f))
            b += "%s::%s l; l.insert(%s, %s);" % (C, NAMES[f["n"]]["e"], SAMPLE[f["key"]], v)
        L.append(b + " return l; }")
    for m in range(1, len(s["msgs"]) + 1):   # constructors: one per prefix of the fields
        js = [j for j, f in enumerate(s["fields"], 1) if f["m"] == m]
        L.append("static void c%d() { %s w;" % (m, cls(m)))
        for k, j in enumerate(js, 1): L.append("  { w.set%s(v%d()); %s v(%s); printf(\"%%s{\\\"m\\\":%d,\\\"k\\\":%d,\\\"ok\\\":%%d}\", sep, int(v == w && v.serialize(&ser) == w.serialize(&ser))); sep = \",\"; }" % (cap(s["fields"][j - 1]), j, cls(m), ", ".join("v%d()" % x for x in js[:k]), m, k))
        L.append("}")
    for j, f in enumerate(s["fields"], 1):
        if f["type"] == "msg" and not scalar(f["ref"]): continue
        C = cls(f["m"]); b = "static void f%d() { %s v; v.set%s(v%d());" % (j, C, cap(f), j)
        if f["card"] == "one" and f["type"] in SAMPLE:
            pv = SAMPLE[f["type"]].split("(", 1)[1][:-1] if o["qml"] and f["type"] in ("int32", "sfixed32", "fixed32") else SAMPLE[f["type"]]
            b += " { %s u; u.setProperty(\"%s\", QVariant::fromValue(%s)); if (u != v || u.property(\"%s\") != v.property(\"%s\")) v = %s(); }" % (C, NAMES[f["n"]]["c"], pv, NAMES[f["n"]]["c"], NAMES[f["n"]]["c"], C)
        L.append(b + " wire(%d, v); }" % j); B.append("  f%d();" % j)
    L += ["int main(int argc, char **argv) { QCoreApplication app(argc, argv); setvbuf(stdout, nullptr, _IONBF, 0); QtProtobuf::qRegisterProtobufTypes();", "  printf(\"{\\\"props\\\":[\");"]
    L += ["  props<%s>(%d);" % (cls(m), m) for m in range(1, len(s["msgs"]) + 1)]
    L.append("  sep = \"\"; printf(\"],\\\"aliases\\\":[\");")
    L += ["  aliases<%s>(%d);" % (cls(m), m) for m in range(1, len(s["msgs"]) + 1)]
    L.append("  printf(\"],\\\"enums\\\":[\");")
    for e, E in enumerate(s["enums"], 1): L.append("  printf(\"%s{\\\"e\\\":%d,\\\"keys\\\":\"); keys(%s::staticMetaObject, \"%s\");" % ("," if e > 1 else "", e, escope(e), E["name"]))
    L.append("  printf(\"],\\\"fe\\\":[\");")
    for m, M in enumerate(s["msgs"], 1): L.append("  printf(\"%s{\\\"m\\\":%d,\\\"keys\\\":\"); keys(%s::staticMetaObject, \"QtProtobufFieldEnum\");" % ("," if m > 1 else "", m, cls(m)))
    L += ["  sep = \"\"; printf(\"],\\\"wire\\\":[\");"] + B + ["  sep = \"\"; printf(\"],\\\"ctors\\\":[\");"] + ["  c%d();" % m for m in range(1, len(s["msgs"]) + 1)] + ["  sep = \"\"; printf(\"],\\\"calls\\\":[\");"]
    for v in s["svcs"]:
        c = ns(v["file"]) + v["name"][0].upper() + v["name"][1:] + "Client"
        L.append("  { auto ch = std::make_shared<Fake>(); Fake &f = *ch; %s c; c.attachChannel(ch);" % c)
        for r in v["rpcs"]:
            t = cls(r["out"]); L.append("    { %s want = sample%d(); f.out = want.serialize(&ser); %s arg = sample%d();" % (t, r["out"], cls(r["in"]), r["in"]))
            if r["stream"]:
                L += ["      { bool ok = false; auto st = c.stream%s(arg); QObject::connect(st.get(), &QGrpcStream::messageReceived, st.get(), [&] { ok = st->read<%s>() == want; }); turn(); said(f, \"stream\", ok); st->abort(); turn(); }" % (r["up"], t),
                      "      { %s into; auto st = c.stream%s(arg, QPointer<%s>(&into)); turn(); said(f, \"into\", into == want); if (st) st->abort(); turn(); }" % (t, r["up"], t)]
            else:
                L += ["      { bool ok = false; auto re = c.%s(arg); QObject::connect(re.get(), &QGrpcCallReply::finished, re.get(), [&] { ok = re->read<%s>() == want; }); turn(); said(f, \"call\", ok); }" % (r["p"], t),
                      "      { bool ok = false; QObject ctx; c.%s(arg, &ctx, [&](QGrpcCallReplyShared re) { ok = re->read<%s>() == want; }); turn(); said(f, \"then\", ok); }" % (r["p"], t),
                      "      { %s into; auto st = c.%s(arg, QPointer<%s>(&into)); said(f, \"sync\", into == want && st.code() == QGrpcStatus::Ok); }" % (t, r["p"], t)]
            L.append("    }")
        L.append("  }")
    L += ["  printf(\"]}\\n\"); fflush(stdout); return 0; }"]
    return "\n".join(L) + "\n"

# ------------------------------------------------------------------ running the tools
def sh(cmd, cwd=None, env=None, timeout=600):
    try: p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired: return -1, "", "timeout"
    return p.returncode, p.stdout, p.stderr
def options(o):
    return ":".join([("MULTI" if o["multi"] else "SINGLE")] + [k for k, f in (("QML", "qml"), ("COMMENTS", "comments"), ("FOLDER", "folder"), ("FIELDENUM", "fieldenum")) if o[f]] + (["EXTRA_NAMESPACE=\"xn\""] if o["extra"] else []))
def tree(d):
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs: r[os.path.relpath(os.path.join(b, f), d)] = open(os.path.join(b, f), "rb").read()
    return r
def includes(d):
    R = vp.REPO + "/src/"
    dirs = [d + "/include"] + [d + "/include/" + x for x in sorted(os.listdir(d + "/include"))] + [d + "/src/protobuf", d + "/src/grpc", R + "protobuf", R + "protobuf/quick", R + "grpc", R + "qttypes", QI] + [QI + "/" + x for x in ("QtCore", "QtQml", "QtNetwork")]
    return ["-I" + x for x in dirs]
class Case:
    def __init__(self, s, o, work, d):
        self.s, self.o, self.work, self.d = s, o, work, d; self.err = ""
    def record(self, **kw):
        r = dict(s=self.s, o=self.o, r="ok", same=True, props=[], aliases=[], enums=[], fe=[], wire=[], ctors=[], calls=[]); r.update(kw); r["stderr"] = self.err[:3000]; return r
    def generate(self):
        """two runs of the plugin that differ in everything but the schema and the options"""
        src = self.work + "/src"; fs = protos(self.s, self.o)
        for n, t in fs.items():
            os.makedirs(os.path.dirname(src + "/" + n), exist_ok=True); open(src + "/" + n, "w").write(t)
        self.outs = []
        for k, (cwd, env) in enumerate(((src, dict(LC_ALL="C.UTF-8", TZ="UTC")), ("/", dict(LC_ALL="C", LANG="de_DE.UTF-8", TZ="Asia/Tokyo", HOME="/nonexistent", MALLOC_PERTURB_="165")))):
            out = "%s/out%d" % (self.work, k); os.makedirs(out)
            e = dict(env, ASAN_OPTIONS="detect_leaks=0", QT_PROTOBUF_OPTIONS=options(self.o))
            rc, so, se = sh(["protoc", "--plugin=protoc-gen-qtprotobufgen=" + self.d + "/src/generator/qtprotobufgen", "--qtprotobufgen_out=" + out, "-I" + src] + sorted(fs), cwd=cwd, env=e)
            if rc: self.err = se; return False
            self.outs.append(tree(out))
        self.same = self.outs[0] == self.outs[1]
        return True
    def jobs(self):
        """what has to be compiled: (kind, command)"""
        out = self.work + "/out0"; inc = ["-I" + out] + includes(self.d)
        self.headers = sorted(f for f in self.outs[0] if f.endswith(".h"))
        open(self.work + "/main.cpp", "w").write(program(self.s, self.o, self.headers))
        cc = [os.environ.get("VP_GENCXX", "g++"), "-std=c++14", "-fPIC", "-O0", "-w", "-fsanitize=address", "-c"] + inc
        j = [("the program that uses it", cc + [self.work + "/main.cpp", "-o", self.work + "/main.o"])]
        for f in self.headers:
            m = out + "/" + f[:-2] + "_moc.cpp"
            rc, so, se = sh(["/usr/lib/qt5/bin/moc", out + "/" + f, "-o", m] + inc)
            if rc: self.err = f + ": " + se; return None
            if os.path.getsize(m): j.append(("moc of " + f, cc + ["-I" + os.path.dirname(m), m, "-o", m + ".o"]))
        for f in sorted(f for f in self.outs[0] if f.endswith(".cpp")): j.append((f, cc + ["-I" + os.path.dirname(out + "/" + f), out + "/" + f, "-o", out + "/" + f + ".o"]))
        return j
    def run(self):
        out = self.work + "/out0"; objs = [self.work + "/main.o"] + [os.path.join(b, f) for b, _, fs in os.walk(out) for f in fs if f.endswith(".o")]
        lib = [self.d + "/" + x for x in ("src/grpc", "src/protobuf")]
        rc, so, se = sh(["g++", "-fsanitize=address", "-o", self.work + "/a.out"] + objs + ["-L" + x for x in lib] + ["-Wl,-rpath," + x for x in lib] + ["-l" + x for x in LIBS] + ["-lQt5Qml", "-lQt5Network", "-lQt5Core"])
        if rc: self.err = se; return self.record(r="does not link")
        rc, so, se = sh([self.work + "/a.out"], env=dict(ASAN_OPTIONS="detect_leaks=0", LC_ALL="C.UTF-8", QT_LOGGING_RULES="*=false"), timeout=120)
        self.err = se + (" after ..." + so[-120:] if rc else "")
        try: return self.record(same=self.same, **json.loads(so)) if rc == 0 else self.record(r="the generated classes crash")
        except ValueError: return self.record(r="the generated classes do not run to the end")
LIBS = []

def realise(cs, d):
    """all cases: generate, compile everything in parallel, run"""
    recs = [None] * len(cs)
    with ThreadPoolExecutor(8) as ex:
        gen = list(ex.map(lambda c: c.generate(), cs))
        alive = []
        for k, ok in enumerate(gen):
            if not ok: recs[k] = cs[k].record(r="the generator fails")
        js = list(ex.map(lambda k: cs[k].jobs() if gen[k] else None, range(len(cs))))
        todo = []
        for k, j in enumerate(js):
            if not gen[k]: continue
            if j is None: recs[k] = cs[k].record(r="moc fails"); continue
            alive.append(k); todo += [(k, what, cmd) for what, cmd in j]
        todo.sort(key=lambda x: (0 if x[1].startswith("the program") else 1, -os.path.getsize(x[2][-3])))
        for (k, what, cmd), (rc, so, se) in zip(todo, ex.map(lambda x: sh(x[2]), todo)):
            if rc and recs[k] is None:
                lines = [l for l in se.splitlines() if "error" in l]; cs[k].err = "\n".join(lines[:6]) or se[:1500]; recs[k] = cs[k].record(r="does not compile: " + what)
        for k, r in zip([k for k in alive if recs[k] is None], ex.map(lambda k: cs[k].run(), [k for k in alive if recs[k] is None])): recs[k] = r
    return recs, len(todo)

def P26(c):
    global NAMES, LIBS
    q = c.tier == "quick"
    NAMES = names(); rng = random.Random(vp.SEED)
    n = 4 if q else 40
    t = vp.tlc("SchemaGen", dict(Emit=True, MaxMsgs=8, MaxEnums=5, MaxFields=40), ["Ok", "Refs", "OwnProperty", "OwnNumber", "EmitCase"], simulate=3 * n, depth=300, workers=1)
    c.add("states", t.states); c.add("transitions", t.states)
    cat = [x for x in t.lines if len(x["fields"]) > 40][:1]; rnd = [x for x in t.lines if len(x["fields"]) <= 40][:n]
    if not cat: raise vp.ToolError("the catalogue of fields is missing")
    c.stage("schemas", catalogue_fields=len(cat[0]["fields"]), random=len(rnd))
    d = vp.build(["qtprotobufgen", "Protobuf", "Grpc"])
    LIBS = [f[3:-3] for x in ("src/grpc", "src/protobuf") for f in sorted(os.listdir(d + "/" + x)) if f.startswith("lib") and f.endswith(".so")]
    O = lambda multi, qml, comments, folder, fieldenum, extra: dict(multi=multi, qml=qml, comments=comments, folder=folder or multi, fieldenum=fieldenum, extra=extra)
    plan = [(cat[0], O(False, False, False, False, False, "")), (cat[0], O(True, True, True, False, True, "xn")), (cat[0], O(False, True, False, True, True, ""))]
    for k, s in enumerate(rnd): plan.append((s, O(k % 2 == 0, rng.random() < .5, rng.random() < .5, rng.random() < .5, rng.random() < .5, rng.choice(["", "xn"]))))
    if not q:
        for m in range(64): plan.append((cat[0] if m % 4 == 0 else rnd[m % len(rnd)], O(bool(m & 1), bool(m & 2), bool(m & 4), bool(m & 8), bool(m & 16), "xn" if m & 32 else "")))
    done = 0
    while plan:
        part, plan = plan[:24], plan[24:]
        root = vp.scratch(); cs = []
        for k, (s, o) in enumerate(part): os.makedirs("%s/c%d" % (root, k)); cs.append(Case(s, o, "%s/c%d" % (root, k), d))
        recs, files = realise(cs, d)
        probes = []
        for r in [r for r in recs if r["r"] == "ok"]:
            for what in ("props", "aliases", "wire", "enums", "ctors", "calls", "num", "same"):
                p = json.loads(json.dumps(r))
                if what == "num": p["props"][-1]["num"] += 1
                elif what == "same": p["same"] = False
                elif not p[what]: continue
                elif what == "enums": p["enums"][0]["keys"][-1]["v"] += 1 if p["enums"][0]["keys"][-1]["v"] < 9 else -1
                elif what == "wire": p["wire"][0]["b"][-1] ^= 1
                else: p[what].pop()
                probes.append(p)
        bad, _ = vp.judge("SchemaTrace", recs + probes)
        ids = {id(p) for p in probes}
        hit = sum(1 for r, _ in bad if id(r) in ids); bad = [(r, w) for r, w in bad if id(r) not in ids]
        if hit != len(probes) and not bad: raise vp.ToolError("judge accepted %d of %d damaged recordings" % (len(probes) - hit, len(probes)))
        c.add("traces", len(recs)); c.add("damaged_recordings_rejected", hit); c.add("compiled_files", files)
        c.stage("conformance", schemas=len(recs), files=files, fields=sum(len(r["wire"]) for r in recs), calls=sum(len(r["calls"]) for r in recs), rejected=len(bad))
        if not getattr(c, "sample_list", None): c.sample_list = [dict(o=r["o"], messages=len(r["s"]["msgs"]), props=r["props"][:4], wire=r["wire"][:4]) for r in recs[:2]]
        for r, w in bad[:20]:
            k = [x for x in range(len(recs)) if recs[x] is r][0]
            c.violate("%s | options %s | %s" % (w, options(r["o"]), (r.get("stderr") or "")[:1200]), dict(s=r["s"], o=r["o"], protos=protos(r["s"], r["o"]), why=w))
        shutil.rmtree(root, ignore_errors=True)
        if c.violations: return
    c.assumptions += ["protoc, moc and the compiler are trusted", "schemas within the supported subset (Schema!Supported); random schemas are a sample"]
