// Runs concurrent programs of registerHandler/findHandler (spec/Registry.tla) and records the history.
// Input: {"i":n,"th":[[{"op":"reg"|"find","t":type,"v":version}...]...],"d":[[delays in us]...]}; types are local to the case.
// Output: "h": operations with thread, start and end time (a global counter) and result (0 none, -1 incoherent handler).
#include <QtCore>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <thread>
#include <unistd.h>
#include <vector>
#include "syncpoints.h"
#include "qprotobufserializer.h"
#include "qprotobufmetaproperty.h"
#include "qprotobufselfcheckiterator.h"
#include "qabstractprotobufserializer_p.h"
using namespace QtProtobuf;
struct Op { int reg, t, v, inv, ret, res; };
static std::atomic<int> g_clock{0};
static QString g_json;
struct Box { int type, version; std::string text; };
static QtProtobufPrivate::SerializationHandler make(int type, int version)
{
    auto a = std::make_shared<Box>(Box{type, version, std::string(40, 'a' + version % 26)});
    auto b = std::make_shared<Box>(*a);
    return {[a](const QAbstractProtobufSerializer *, const QVariant &, const QProtobufMetaProperty &, QByteArray &out) { out = QByteArray::fromRawData(reinterpret_cast<const char *>(a.get()), sizeof(int) * 2); },
            [b](const QAbstractProtobufSerializer *, QProtobufSelfcheckIterator &, QVariant &out) { out = qint64(b->type) << 32 | b->version; },
            QtProtobufPrivate::HandlerType(version % 4)};
}
static int value(const QtProtobufPrivate::SerializationHandler &h, int type, const QProtobufMetaProperty &mp)
{
    if (!h.serializer && !h.deserializer) return 0;
    if (!h.serializer || !h.deserializer) return -1;
    QByteArray out, none; QVariant var; QProtobufSelfcheckIterator it(none);
    h.serializer(nullptr, QVariant(), mp, out);
    int t, v; memcpy(&t, out.constData(), 4); memcpy(&v, out.constData() + 4, 4);
    h.deserializer(nullptr, it, var);
    qint64 x = var.toLongLong();
    return t == type && int(x >> 32) == type && int(x) == v && h.type == QtProtobufPrivate::HandlerType(v % 4) ? v : -1;
}
int main()
{
    QtProtobufPrivate::findHandler(-1);
    QTextStream in(stdin);
    QProtobufMetaProperty mp(QObject::staticMetaObject.property(0), 1, g_json);
    int base = 1 << 20;
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        base += 1024;
        std::vector<std::vector<Op>> th; std::vector<std::vector<int>> dl;
        for (auto t : o["th"].toArray()) { th.emplace_back(); for (auto x : t.toArray()) { auto p = x.toObject(); th.back().push_back({p["op"].toString() == "reg", base + p["t"].toInt(), p["v"].toInt(), 0, 0, 0}); } }
        for (auto t : o["d"].toArray()) { dl.emplace_back(); for (auto x : t.toArray()) dl.back().push_back(x.toInt()); }
        dl.resize(th.size());
        std::atomic<int> ready{0}, done{0}; std::atomic<bool> go{false};
        std::vector<std::thread> pool;
        for (size_t k = 0; k < th.size(); ++k) {
            pool.emplace_back([&, k]() {
                std::vector<QtProtobufPrivate::SerializationHandler> hs, got;
                for (auto &op : th[k]) hs.push_back(op.reg ? make(op.t, op.v) : QtProtobufPrivate::SerializationHandler{});
                got.resize(th[k].size());
                vpScript = {dl[k].data(), int(dl[k].size()), 0};
                ready++;
                while (!go) std::this_thread::yield();
                for (size_t j = 0; j < th[k].size(); ++j) {
                    Op &op = th[k][j];
                    op.inv = ++g_clock;
                    if (op.reg) QtProtobufPrivate::registerHandler(op.t, hs[j]); else got[j] = QtProtobufPrivate::findHandler(op.t);
                    op.ret = ++g_clock;
                }
                vpScript = {nullptr, 0, 0};
#if !defined(__SANITIZE_THREAD__)
                for (size_t j = 0; j < th[k].size(); ++j) if (!th[k][j].reg) th[k][j].res = value(got[j], th[k][j].t, mp);
#endif
                done++;
            });
        }
        while (ready < int(th.size())) std::this_thread::yield();
        go = true;
        QString res = "ok";
        auto t0 = std::chrono::steady_clock::now();
        while (done < int(th.size())) {
            std::this_thread::sleep_for(std::chrono::microseconds(200));
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(12)) { res = "hang"; break; }
        }
        if (res == "hang") { o["r"] = res; o["h"] = QJsonArray(); printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout); _exit(3); }
        for (auto &t : pool) t.join();
        QJsonArray h;
        for (size_t k = 0; k < th.size(); ++k) for (auto &op : th[k])
            h.append(QJsonObject{{"p", int(k) + 1}, {"op", op.reg ? "reg" : "find"}, {"t", op.t - base}, {"v", op.reg ? op.v : op.res}, {"inv", op.inv}, {"ret", op.ret}});
        o.remove("d"); o.remove("th"); o["r"] = res; o["h"] = h;
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
    }
    printf("END\n");
    return 0;
}
