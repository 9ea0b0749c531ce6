// Runs concurrent programs of spec/ClientThreads.tla: the client and its channel live in one thread, callers in others.
#include <QtCore>
#include <atomic>
#include <mutex>
#include <thread>
#include <unistd.h>
#include "qabstractgrpcchannel.h"
#include "qabstractgrpcclient.h"
#include "qgrpccallreply.h"
#include "qgrpcstream.h"
#include "qprotobufserializerregistry_p.h"
#include "grpcvp.qpb.h"
#include "grpcvp_grpc.qpb.h"
using namespace QtProtobuf;
using namespace vp;

static std::shared_ptr<QAbstractProtobufSerializer> ser() { return QProtobufSerializerRegistry::instance().getSerializer("protobuf"); }
static QByteArray rep(const QString &v) { Rep r; r.setV(v); return r.serialize(ser().get()); }
enum { MaxId = 4096 };
static std::atomic<int> g_armed[MaxId];
static std::atomic<int> g_joined, g_joiners;
static int g_hang = 20000;

class FakeChannel : public QAbstractGrpcChannel {
public:
    QJsonArray log; QMutex lock; Qt::HANDLE home = nullptr; int turn = 0;
    void entry(int what, const QString &m, const QByteArray &a, QString *arg = nullptr)
    {
        Req r; r.deserialize(ser().get(), a);
        QMutexLocker l(&lock);
        log.append(QJsonObject{{"what", what}, {"m", m}, {"id", int(r.n())}, {"home", QThread::currentThreadId() == home ? 1 : 0}});
        if (arg) *arg = r.a();
        last = r.n();
    }
    int last = 0;
    QGrpcStatus call(const QString &m, const QString &, const QByteArray &a, QByteArray &ret) override
    {
        QString kind; entry(1, m, a, &kind); int id = last;
        if (kind == "serr") return {QGrpcStatus::NotFound, QString("E%1").arg(id)};
        ret = rep(QString("R%1").arg(id));
        return QGrpcStatus::Ok;
    }
    void call(const QString &m, const QString &, const QByteArray &a, QGrpcCallReply *reply) override
    {
        QString kind; entry(2, m, a, &kind); int id = last;
        auto *t = new QTimer(reply);
        QObject::connect(reply, &QGrpcCallReply::error, t, &QTimer::stop);
        QObject::connect(t, &QTimer::timeout, reply, [=]() {
            if (!g_armed[id]) return;
            t->stop();
            if (kind == "aerr") { reply->setData({}); reply->error({QGrpcStatus::NotFound, QString("E%1").arg(id)}); return; }
            reply->setData(rep(QString("R%1").arg(id))); reply->finished();
        });
        t->start(++turn % 3 ? 0 : 1);
    }
    void stream(QGrpcStream *st, const QString &, QAbstractGrpcClient *) override
    {
        QString kind; entry(3, st->method(), st->arg(), &kind); int id = last;
        auto *t = new QTimer(st); auto n = std::make_shared<int>(0);
        QObject::connect(st, &QGrpcStream::finished, t, &QTimer::stop);
        QObject::connect(t, &QTimer::timeout, st, [=]() {
            if (kind == "join" ? g_joined < g_joiners : !g_armed[id]) return;
            if (++*n <= 3) { st->handler(rep(QString("R%1.%2").arg(id).arg(*n))); return; }
            t->stop();
            if (kind != "sabort") st->finished();
        });
        t->start(++turn % 3 ? 0 : 1);
    }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return ser(); }
};

int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    qRegisterProtobufTypes();
    qRegisterMetaType<QtProtobuf::QGrpcStatus>();
    ser();
    QTextStream in(stdin);
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        for (auto &a : g_armed) a = 0;
        QJsonArray th = o["th"].toArray();
        g_joined = 0; g_joiners = 0;
        for (auto t : th) for (auto x : t.toArray()) if (x.toObject()["k"].toString() == "join") ++g_joiners;
        ServiceClient *client = nullptr; std::shared_ptr<FakeChannel> ch; std::atomic<int> up{0}, clerr{0}, clerrAway{0};
        const QString mode = o["mode"].toString("own");    // own: everybody has a thread; home: the client lives in the main thread; caller: the main thread is a caller
        const bool mainHome = mode == "home"; const auto wait = mainHome ? Qt::DirectConnection : Qt::BlockingQueuedConnection;
        QThread home; QObject *boot = new QObject; if (!mainHome) { boot->moveToThread(&home); home.start(); }
        QMetaObject::invokeMethod(boot, [&]() {
            client = new ServiceClient; ch = std::make_shared<FakeChannel>(); ch->home = QThread::currentThreadId();
            client->attachChannel(ch);
            QObject::connect(client, &ServiceClient::error, client, [&](const QGrpcStatus &) { clerr++; if (QThread::currentThreadId() != ch->home) clerrAway++; }, Qt::DirectConnection);
        }, wait);
        QMutex rl; QJsonArray ops; std::atomic<int> done{0}; std::vector<std::thread> pool; std::atomic<bool> hung{false};
        auto work = [&](int p) {
            QObject ctx;    // lives in this thread
            up++; while (up < th.size()) std::this_thread::yield();
            for (auto x : th[p].toArray()) {
                QJsonObject c = x.toObject(); QString k = c["k"].toString(), m = c["m"].toString(); int id = c["id"].toInt(); QStringList evs; int at = -1;
                if (c["w"].toInt()) QThread::usleep(c["w"].toInt());
                Req r; r.setA(k); r.setN(k == "join" ? 0 : id);
                std::atomic<int> ends{0}; QEventLoop loop; QTimer::singleShot(g_hang, &loop, [&]() { hung = true; loop.quit(); });
                if (k == "sync" || k == "serr") {
                    std::unique_ptr<Rep> ret(new Rep);
                    QGrpcStatus s = m == "one" ? client->one(r, QPointer<Rep>(ret.get())) : client->two(r, QPointer<Rep>(ret.get()));
                    evs << QString("ret %1 %2%3").arg(s.code()).arg(s.code() ? s.message() : QString()).arg(ret->v());
                } else if (k == "async" || k == "aerr" || k == "aabort") {
                    QGrpcCallReplyShared reply = m == "one" ? client->one(r) : client->two(r);
                    if (!reply) evs << "no reply";
                    else {
                        auto d1 = QObject::connect(reply.get(), &QGrpcCallReply::finished, reply.get(), [&]() { ends++; }, Qt::DirectConnection);
                        auto d2 = QObject::connect(reply.get(), &QGrpcCallReply::error, reply.get(), [&]() { ends++; }, Qt::DirectConnection);
                        auto *raw = reply.get();
                        reply->subscribe(&ctx, [&, raw]() { evs << "fin " + raw->read<Rep>().v(); loop.quit(); }, [&](const QGrpcStatus &s) { evs << QString("err %1 %2").arg(s.code()).arg(s.code() == QGrpcStatus::Aborted ? QString() : s.message()); loop.quit(); });
                        if (k == "aabort") { reply->abort(); at = ends; }
                        g_armed[id] = 1;
                        loop.exec();
                        for (int j = 0; j < 3; ++j) { QThread::usleep(300); QCoreApplication::processEvents(); }
                        QMetaObject::invokeMethod(client, [&]() { QObject::disconnect(d1); QObject::disconnect(d2); }, Qt::BlockingQueuedConnection);
                        QCoreApplication::sendPostedEvents(&ctx);
                    }
                } else {
                    std::unique_ptr<Rep> ret;
                    if (k == "sret") { QMetaObject::invokeMethod(client, [&]() { ret.reset(new Rep); }, Qt::BlockingQueuedConnection); }
                    QGrpcStreamShared st = m == "watch" ? (ret ? client->streamWatch(r, QPointer<Rep>(ret.get())) : client->streamWatch(r)) : (ret ? client->streamLook(r, QPointer<Rep>(ret.get())) : client->streamLook(r));
                    if (!st) evs << "no stream";
                    else {
                        int msgs = 0; auto *raw = st.get();
                        auto d1 = QObject::connect(raw, &QGrpcStream::finished, raw, [&]() { ends++; }, Qt::DirectConnection);
                        QObject::connect(raw, &QGrpcStream::messageReceived, &ctx, [&]() { ++msgs; if (k == "sabort" && msgs == 3) { st->abort(); at = ends; } });
                        QObject::connect(raw, &QGrpcStream::finished, &ctx, [&]() { evs << QString("fin %1 %2").arg(msgs).arg(raw->read<Rep>().v()); loop.quit(); });
                        QObject::connect(raw, &QGrpcStream::error, &ctx, [&]() { evs << "err"; });
                        g_armed[id] = 1; if (k == "join") g_joined++;
                        loop.exec();
                        QObject::disconnect(d1);
                        QMetaObject::invokeMethod(client, []() {}, Qt::BlockingQueuedConnection);
                        QCoreApplication::sendPostedEvents(&ctx);
                        QObject::disconnect(raw, nullptr, &ctx, nullptr);
                        if (ret) { evs << "val " + ret->v(); QMetaObject::invokeMethod(client, [&]() { ret.reset(); }, Qt::BlockingQueuedConnection); }
                    }
                }
                QMutexLocker l(&rl);
                ops.append(QJsonObject{{"p", p + 1}, {"k", k}, {"m", m}, {"id", id}, {"ev", QJsonArray::fromStringList(evs)}, {"at", at}});
            }
            done++;
        };
        const int here = mode == "caller" ? 1 : 0;
        for (int p = here; p < th.size(); ++p) pool.emplace_back([&, p]() { work(p); });
        if (here) work(0);
        QElapsedTimer el; el.start(); QString res = "ok";
        while (done < th.size()) { if (mainHome) QCoreApplication::processEvents(); QThread::usleep(mainHome ? 20 : 200); if (el.elapsed() > g_hang + 15000) { res = "hang"; break; } }
        if (hung) res = "hang";
        o.remove("th"); o.remove("mode"); o["r"] = res; o["ops"] = ops;
        if (res == "ok") {
            for (auto &t : pool) t.join();
            if (mainHome) QCoreApplication::processEvents();
            QMetaObject::invokeMethod(boot, [&]() { delete client; o["log"] = ch->log; ch.reset(); }, wait);
            QMetaObject::invokeMethod(boot, [&]() { boot->deleteLater(); }, wait);
            home.quit(); home.wait();
        } else o["log"] = QJsonArray();
        o["clerr"] = int(clerr); o["away"] = int(clerrAway);
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
        if (res != "ok") _exit(3);
    }
    printf("END\n");
    fflush(stdout);
    _exit(0);
}
