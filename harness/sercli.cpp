// Threads serialize and deserialize messages of their own while other threads keep registering handlers.
#include <QtCore>
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
#include <vector>
#include "syncpoints.h"
#include "msg.qpb.h"
#include "qprotobufserializer.h"
#include "qabstractprotobufserializer_p.h"
using namespace vp::msg;
static void fill(Msg &m, int n)
{
    m.setI32(n); m.setSt(QString("s%1").arg(n)); m.setSub(Sub()); m.sub().setV(n); m.sub().setR({n, n + 1}); m.sub().setT("t"); m.setLeaf(Leaf()); m.leaf().setW(n);
    m.ri32() << n << -n; m.rst() << "a" << QString::number(n); m.ren() << KindGadget::K1;
    QSharedPointer<Item> it(new Item); it->setV(n); it->setT("i"); m.rit() << it << it;
    m.ms().insert("k", n); m.mi().insert(n, it); m.ml().insert(n, "x"); m.setEn(KindGadget::K2);
}
int main()
{
    QtProtobuf::qRegisterProtobufTypes();
    QTextStream in(stdin);
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        const int threads = o["n"].toInt(), writers = o["w"].toInt(), rounds = o["rounds"].toInt();
        std::vector<QByteArray> want(threads);
        for (int k = 0; k < threads; ++k) { QtProtobuf::QProtobufSerializer s; Msg m; fill(m, k + 1); want[k] = m.serialize(&s); }
        std::vector<std::pair<int, QtProtobufPrivate::SerializationHandler>> known;
        for (int id : {qMetaTypeId<Sub *>(), qMetaTypeId<Leaf *>(), qMetaTypeId<Item *>(), qMetaTypeId<ItemRepeated>(), qMetaTypeId<Msg::MsEntry>(), qMetaTypeId<Msg::MiEntry>(), qMetaTypeId<Msg::MlEntry>()})
            known.emplace_back(id, QtProtobufPrivate::findHandler(id));
        std::atomic<int> done{0}, bad{0}, ready{0}; std::atomic<bool> stop{false};
        std::vector<std::thread> pool;
        for (int k = 0; k < threads; ++k) pool.emplace_back([&, k]() {
            QtProtobuf::QProtobufSerializer s; ready++;
            while (ready < threads) std::this_thread::yield();
            for (int j = 0; j < rounds; ++j) {
                try {
                    Msg m; fill(m, k + 1);
                    if (m.serialize(&s) != want[k]) bad++;
                    Msg r; r.deserialize(&s, want[k]);
                    if (r.serialize(&s) != want[k]) bad++;
                } catch (...) { bad++; }
            }
            done++;
        });
        for (int k = 0; k < writers; ++k) pool.emplace_back([&, k]() {
            int extra = (1 << 24) + k * (1 << 18);
            while (!stop) {
                for (auto &p : known) QtProtobufPrivate::registerHandler(p.first, p.second);
                for (int j = 0; j < 50; ++j) QtProtobufPrivate::registerHandler(extra++, known[0].second);
                std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
        });
        QString res = "ok";
        auto t0 = std::chrono::steady_clock::now();
        while (done < threads) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(60)) { res = "hang"; break; } }
        stop = true;
        if (res == "ok") for (auto &t : pool) t.join();
        if (res == "ok" && bad) res = QString("%1 messages came out wrong").arg(int(bad));
        o["r"] = res; o["h"] = QJsonArray();
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
        if (res == "hang") _exit(3);
    }
    printf("END\n");
    return 0;
}
