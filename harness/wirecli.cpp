// Drives the real serializer with inputs given as JSON lines; prints one JSON line with what is observable.
//  {"i":n,"op":"dec","t":T,"b":[..]}   -> "r":"ok","v":value | "r":"ex"
//  {"i":n,"op":"ser","t":T,"v":value}  -> "r":"ok","b":[..],"v2":what the real decoder makes of b,"eq":a==b
//  {"i":n,"op":"big","t":T,"segs":runs of bytes,"vsegs":value with runs} -> "r", "dec": the bytes decode to the value,
//     "same": the value is serialized to the bytes, "back": and these decode to the value
//  {"i":n,"op":"time","t":T,"segs":runs of bytes,"segs8":eight times as many} -> "r", "one", "eight": microseconds
//  {"i":n,"op":"hist","t":T,"s":[[op,arg]..]} -> "h":[{"o":op,"r":..,"b":..,"v":value}..], one object, one serializer
#include "wireval.h"
#include <cstdio>
#include <ctime>
#include <iostream>
#include <string>
#include "qprotobufserializer.h"
#include "qprotobufserializerregistry_p.h"
using namespace QtProtobuf;

static QAbstractProtobufSerializer &ser() { static auto s = QProtobufSerializerRegistry::instance().getSerializer("protobuf"); return *s; }

template <typename T> static QString decode(T &m, const QByteArray &data) {
    // exact heap copy, so that AddressSanitizer sees reads past the end
    try { ser().deserialize(&m, data); return QStringLiteral("ok"); }
    catch (const std::exception &) { return QStringLiteral("ex"); }
    catch (...) { return QStringLiteral("foreign"); }
}
static QByteArray exact(const QJsonValue &v) { QByteArray b = jsonToBytes(v); b.squeeze(); return b; }

// an object {"u":[..],"n":k} in an array stands for k copies of the elements u
static QJsonValue expand(const QJsonValue &v) {
    if (!v.isArray()) return v;
    QJsonArray r;
    for (const auto &e : v.toArray()) {
        if (!e.isObject()) { r.append(expand(e)); continue; }
        const QJsonArray u = e.toObject()["u"].toArray(); const int n = e.toObject()["n"].toInt();
        for (int k = 0; k < n; ++k) for (const auto &x : u) r.append(x);
    }
    return r;
}
static QByteArray expandBytes(const QJsonValue &v) {
    QByteArray r;
    for (const auto &e : v.toArray()) r += jsonToBytes(e.toObject()["u"]).repeated(e.toObject()["n"].toInt());
    r.squeeze(); return r;
}

// without the fields of the message itself that hold the default of a fixed size, of bytes or of a message: these may be
// written or not, and the order of different fields is free
static QByteArray withoutDefaults(const QByteArray &o)
{
    QMap<quint64, QByteArray> r; int at = 0;
    auto varint = [&](quint64 &v) { v = 0; for (int s = 0; at < o.size() && s < 64; s += 7) { const uchar c = uchar(o[at++]); v |= quint64(c & 127) << s; if (c < 128) return true; } return false; };
    while (at < o.size()) {
        const int from = at; quint64 tag, n = 0; bool empty = false;
        if (!varint(tag)) return o;
        switch (tag & 7) {
        case 0: if (!varint(n)) return o; break;
        case 1: case 5: n = (tag & 7) == 1 ? 8 : 4; empty = o.mid(at, int(n)) == QByteArray(int(n), 0); at += int(n); break;
        case 2: if (!varint(n) || n > quint64(o.size() - at)) return o; empty = n == 0; at += int(n); break;
        default: return o;
        }
        if (at > o.size()) return o;
        if (!empty) r[tag >> 3] += o.mid(from, at - from);
    }
    return QByteArrayList(r.values()).join();
}
template <typename T> static void run(const QJsonObject &in, QJsonObject &out) {
    const QString op = in["op"].toString();
    if (op == "dec") {
        T m; QString r = decode(m, exact(in["b"]));
        out["r"] = r; if (r == "ok") out["v"] = dumpMsg(m);
    } else if (op == "big") {
        const QByteArray b = expandBytes(in["segs"]); T v, m, n; loadMsg(v, expand(in["vsegs"]).toArray());
        out["r"] = decode(m, b); out["dec"] = dumpMsg(m) == dumpMsg(v) && m == v;
        const QByteArray o = ser().serialize<T>(&v), w = withoutDefaults(o); out["out"] = w.size(); out["same"] = w == b;
        out["back"] = decode(n, o) == "ok" && n == v && dumpMsg(n) == dumpMsg(v);
        out.remove("segs"); out.remove("vsegs");
    } else if (op == "time") {
        // processor time for the input and for one of eight times the size, the best of three
        for (const char *k : {"segs", "segs8"}) {
            const QByteArray b = expandBytes(in[k]); qint64 best = -1; QString r;
            for (int j = 0; j < 3; ++j) {
                T m; timespec t0, t1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0); r = decode(m, b); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
                const qint64 us = (t1.tv_sec - t0.tv_sec) * 1000000LL + (t1.tv_nsec - t0.tv_nsec) / 1000;
                if (best < 0 || us < best) best = us;
            }
            out[k == std::string("segs") ? "one" : "eight"] = int(qMin<qint64>(best, 60000000)); if (out["r"].toString("ok") == "ok") out["r"] = r; out.remove(k);
        }
    } else if (op == "deep") {
        T m; out["r"] = decode(m, exact(in["b"])); out.remove("b");
    } else if (op == "ser") {
        T m; loadMsg(m, in["v"].toArray());
        QByteArray b = ser().serialize<T>(&m);
        T n; QString r = decode(n, b);
        out["r"] = r; out["b"] = bytesToJson(b); out["v1"] = dumpMsg(m); out["v2"] = dumpMsg(n); out["eq"] = (m == n) && !(m != n);
    } else if (op == "hist") {
        T m; QJsonArray h;
        for (const auto &e : in["s"].toArray()) {
            const QJsonArray st = e.toArray(); const QString o = st.at(0).toString(); QString r = "ok";
            QJsonObject e2{{"o", o}};
            if (o == "dec") { e2["b"] = st.at(1); r = decode(m, exact(st.at(1))); T f; decode(f, exact(st.at(1))); e2["f"] = dumpMsg(f); }
            else if (o == "set") { loadMsg(m, st.at(1).toArray()); }
            else if (o == "ser") { e2["b"] = bytesToJson(ser().serialize<T>(&m)); }
            else if (o == "copy") { T c(m); T d; d = c; m = d; }
            e2["r"] = r; e2["v"] = dumpMsg(m); h.append(e2);
        }
        out["h"] = h; out["r"] = "ok";
    }
}

int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    qRegisterProtobufTypes();
    QLoggingCategory::setFilterRules("*=false");
    std::string line;
    while (std::getline(std::cin, line)) {
        const QJsonObject in = QJsonDocument::fromJson(QByteArray::fromStdString(line)).object();
        QJsonObject out = in;
        printf("BEGIN %d\n", in["i"].toInt()); fflush(stdout);
        const QString t = in["t"].toString();
#define RUN(M) if (t == #M) run<M>(in, out);
        VP_WIRE_MESSAGES(RUN)
        QByteArray o = QJsonDocument(out).toJson(QJsonDocument::Compact);
        fwrite(o.constData(), 1, o.size(), stdout); fputc('\n', stdout);
    }
    fflush(stdout);
    printf("END\n");
    return 0;
}
