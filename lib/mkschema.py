#!/usr/bin/env python3
"""One table of message types -> harness/proto/wire.proto, harness/wire_access.inc (C++), spec/WireSchema.tla.
The outputs are committed; rerun only when the table changes."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = ["int32","int64","uint32","uint64","sint32","sint64","fixed32","fixed64","sfixed32","sfixed64","float","double","bool","string","bytes","Color"]
short = dict(int32="i32",int64="i64",uint32="u32",uint64="u64",sint32="s32",sint64="s64",fixed32="f32",fixed64="f64",sfixed32="sf32",sfixed64="sf64",float="flt",double="dbl",bool="bool",string="str",bytes="byt",Color="en",Leaf="msg")
# message -> list of (number, name, kind, type[, keytype])
M = {}
M["Scalars"] = [(i+1, "a_"+short[t], "one", t) for i, t in enumerate(S)]
M["Repeats"] = [(i+1, "r_"+short[t], "rep", t) for i, t in enumerate(S)] + [(17, "r_msg", "rep", "Leaf")]
M["Leaf"] = [(1,"v","one","sint32"),(2,"s","one","string"),(3,"l","rep","uint32")]
M["Outer"] = [(1,"x","one","Leaf"),(2,"y","one","Mid"),(3,"z","one","int32")]
M["Mid"] = [(1,"p","one","Leaf"),(2,"q","rep","Leaf"),(3,"m","map","Leaf","int32"),(4,"n","one","uint64")]
M["Maps"] = [(1,"m_i32","map","string","int32"),(2,"m_i64","map","int64","int64"),(3,"m_u32","map","uint32","uint32"),
  (4,"m_u64","map","bytes","uint64"),(5,"m_s32","map","sint64","sint32"),(6,"m_s64","map","double","sint64"),
  (7,"m_f32","map","fixed64","fixed32"),(8,"m_f64","map","fixed32","fixed64"),(9,"m_sf32","map","sfixed64","sfixed32"),
  (10,"m_sf64","map","sfixed32","sfixed64"),(11,"m_bool","map","int32","bool"),(12,"m_str","map","Leaf","string"),(13,"m_en","map","Color","string"),
  (14,"m_flt","map","float","int32"),(15,"m_ss","map","string","string"),(16,"m_su","map","uint64","string"),
  (17,"m_ss32","map","sint32","string"),(18,"m_sb","map","bool","string"),(19,"m_si","map","int32","string")]
M["Numbers"] = [(n,"n%s" % (n if n < 536870911 else "max"),"one","int32") for n in (1,15,16,2047,2048,262143,262144,33554431,33554432,536870911)]
M["Node"] = [(1,"v","one","int32"),(3,"kids","rep","Node"),(4,"named","map","Node","string")]
M["Nothing"] = []
# enums of messages, of nested messages, and several of one name
M["Kinds"] = [(1,"t","one","Tint"),(2,"l","rep","Tint"),(3,"m","map","Tint","string"),(4,"d","one","Kinds::Deep"),(5,"c","one","Color"),(6,"o","one","Others.Tint"),(7,"dl","rep","Kinds::Deep")]
M["Others"] = [(1,"t","one","Tint"),(2,"l","rep","Tint"),(3,"m","map","Tint","uint32")]
NESTED = {"Kinds::Deep": [(1,"t","one","Tint"),(2,"l","rep","Tint"),(3,"m","map","Tint","sint32"),(4,"v","one","sint32")]}
TINT = "enum Tint { %s_NONE = 0; %s_ONE = 1; %s_TWO = 2; %s_MINUS = -3; %s_TOP = 2147483647; %s_BOTTOM = -2147483648; }"
ENUMS = {"Tint", "Others.Tint"}
ENUM_IN = {"Kinds": "K", "Others": "O", "Kinds::Deep": "D"}

def camel(n):
    parts = n.split("_")
    return parts[0] + "".join(x[:1].upper()+x[1:] for x in parts[1:])
def setter(n):
    c = camel(n); return "set"+c[0].upper()+c[1:]

out = ['syntax = "proto3";','package vp.wire;','','enum Color { RED = 0; GREEN = 1; BLUE = 2; MINUS = -3; TOP = 2147483647; BOTTOM = -2147483648; }','']
def body(m, fs, ind):
    if m in ENUM_IN: out.append(ind + TINT % ((ENUM_IN[m],) * 6))
    for n in NESTED:
        if n.startswith(m + "::"): out.append(ind + "message %s {" % n.split("::")[1]); body(n, NESTED[n], ind + "    "); out.append(ind + "}")
    for f in fs:
        f = f[:3] + (f[3].replace("::", "."),) + f[4:]
        if f[2] == "one": out.append(ind + "%s %s = %d;" % (f[3], f[1], f[0]))
        elif f[2] == "rep": out.append(ind + "repeated %s %s = %d;" % (f[3], f[1], f[0]))
        else: out.append(ind + "map<%s, %s> %s = %d;" % (f[4], f[3], f[1], f[0]))
# users of the enums of another message have to follow it
for m, fs in sorted(M.items(), key=lambda x: x[0] == "Kinds"):
    out.append("message %s {" % m); body(m, fs, "    "); out.append("}\n")
open(V+"/harness/proto/wire.proto","w").write("\n".join(out))

out = ["// generated by lib/mkschema.py"]
open(V+"/harness/wire_messages.inc","w").write("#define VP_WIRE_MESSAGES(X) " + " ".join("X(%s)" % m for m in M)+"\n#define VP_WIRE_NESTED(X) " + " ".join("X(%s)" % m for m in NESTED) + "\n")
for m, fs in list(M.items()) + list(NESTED.items()):
    out.append("static QJsonArray dumpMsg(const %s &m) {\n    QJsonArray r; Q_UNUSED(m)" % m)
    for f in sorted(fs):
        if f[2] == "one" and (f[3] in M or f[3] in NESTED): # through the property: the getter would create the object
            out.append('    if (const auto *p = m.property("%s").value<%s *>()) put(r, %d, *p);' % (camel(f[1]), f[3], f[0]))
        else: out.append("    put(r, %d, m.%s());" % (f[0], camel(f[1])))
    out.append("    return r;\n}")
    out.append("static void loadMsg(%s &m, const QJsonArray &a) {\n    Q_UNUSED(m)\n    for (const auto &e : a) { const QJsonArray p = e.toArray(); switch (p.at(0).toInt()) {" % m)
    for f in sorted(fs): out.append("    case %d: { std::decay_t<decltype(m.%s())> v{}; load(v, p.at(1)); m.%s(v); break; }" % (f[0], camel(f[1]), setter(f[1])))
    out.append('    default: qFatal("unknown field"); } }\n}')
open(V+"/harness/wire_access.inc","w").write("\n".join(out)+"\n")

# messages of QtCore.proto and QtGui.proto (spec only: the classes come from the Qt types library)
def flat(t, *names): return [(i + 1, n, "one", t) for i, n in enumerate(names)]
Q = {}
Q["QUrl"] = flat("string", "url"); Q["QChar"] = flat("bytes", "character"); Q["QUuid"] = flat("string", "uuid")
Q["QTime"] = flat("sint32", "msec"); Q["QDate"] = flat("sint32", "year", "month", "day")
Q["QDateTime"] = [(1, "date", "one", "QDate"), (2, "time", "one", "QTime")]
Q["QSize"] = flat("sint32", "width", "height"); Q["QSizeF"] = flat("double", "width", "height")
Q["QPoint"] = flat("sint32", "x", "y"); Q["QPointF"] = flat("double", "x", "y")
Q["QRect"] = [(1, "position", "one", "QPoint"), (2, "size", "one", "QSize")]
Q["QRectF"] = [(1, "position", "one", "QPointF"), (2, "size", "one", "QSizeF")]
Q["QPolygon"] = [(1, "points", "rep", "QPoint")]; Q["QPolygonF"] = [(1, "points", "rep", "QPointF")]
Q["QColor"] = flat("uint32", "rgba")
Q["QMatrix4x4"] = flat("float", *["m%d%d" % (i, j) for i in range(1, 5) for j in range(1, 5)])
Q["QVector2D"] = flat("float", "x", "y"); Q["QVector3D"] = flat("float", "x", "y", "z"); Q["QVector4D"] = flat("float", "x", "y", "z", "w")
Q["QTransform"] = flat("double", *["m%d%d" % (i, j) for i in range(1, 4) for j in range(1, 4)])
Q["QQuaternion"] = [(1, "scalar", "one", "float"), (2, "vector", "one", "QVector3D")]
Q["QImage"] = [(1, "data", "one", "bytes"), (2, "format", "one", "string")]
QTYPES = list(Q)
Q["QtHolder"] = [(i + 1, "f%d" % (i + 1), "one", t) for i, t in enumerate(QTYPES)] + [(100, "mark", "one", "sint32")]
out = ['syntax = "proto3";', 'package vp.qt;', 'import "QtProtobuf/QtCore.proto";', 'import "QtProtobuf/QtGui.proto";', 'message Holder {']
out += ["    QtProtobuf.%s f%d = %d;" % (t, i + 1, i + 1) for i, t in enumerate(QTYPES)] + ["    sint32 mark = 100;", "}", ""]
open(V+"/harness/proto/qt.proto","w").write("\n".join(out))
open(V+"/harness/qt_types.inc","w").write("#define VP_QT_TYPES(X) " + " ".join("X(%d, %s)" % (i + 1, t) for i, t in enumerate(QTYPES)) + "\n")
ALLM = dict(M); ALLM.update(NESTED); ALLM.update(Q)

def fld(f):
    return '[k |-> "%s", t |-> "%s", key |-> "%s"]' % (f[2], "Color" if f[3] in ENUMS else f[3], f[4] if len(f) > 4 else "")
out = ["---------------------------- MODULE WireSchema ----------------------------",
"(* generated by lib/mkschema.py: the message types of harness/proto/wire.proto.",
"   k: one | rep | map;  t: element/value type;  key: key type of a map *)",
"EXTENDS TLC", "",
"MsgTypes == {%s}" % ", ".join('"%s"' % m for m in M), "",
"QtSeq == <<%s>>" % ", ".join('"%s"' % m for m in QTYPES), ""]
for m, fs in ALLM.items():
    body_ = " @@\n    ".join("%d :> %s" % (f[0], fld(f)) for f in sorted(fs)) if fs else "[x \\in {} |-> 0]"
    out.append("%s_ == %s" % (m.replace("::", "_"), body_))
out.append("\nSchema(m) == CASE " + "\n            [] ".join('m = "%s" -> %s_' % (m, m.replace("::", "_")) for m in ALLM))
out.append("="*75)
open(V+"/spec/WireSchema.tla","w").write("\n".join(out)+"\n")
