// Runs scenarios of spec/GrpcClient.tla against the generated client, QAbstractGrpcClient, QGrpcCallReply
// and QGrpcStream.  The channel is scripted; the clock of the process is virtual, so that retries are due
// exactly when the scenario lets time pass.
#include <QtCore>
#include <thread>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "qabstractgrpcchannel.h"
#include "qabstractgrpcclient.h"
#include "qgrpccallreply.h"
#include "qgrpcstream.h"
#include "qprotobufserializerregistry_p.h"
#include "grpcvp.qpb.h"
#include "grpcvp_grpc.qpb.h"

static long long g_skew = 0;   // nanoseconds added to the monotonic clock (which otherwise stands still)
static timespec g_base{};
extern "C" int clock_gettime(clockid_t id, timespec *ts)
{
    if (id != CLOCK_MONOTONIC) return int(syscall(SYS_clock_gettime, id, ts));
    if (g_base.tv_sec == 0) syscall(SYS_clock_gettime, id, &g_base);
    long long t = g_base.tv_sec * 1000000000LL + g_base.tv_nsec + g_skew;
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
    return 0;
}

using namespace QtProtobuf;
using namespace vp;

static QJsonArray *g_ev = nullptr;
static void ev(const QString &k, int id = 0, int code = 0, const QString &txt = {}, int ch = 0)
{
    g_ev->append(QJsonObject{{"k", k}, {"id", id}, {"code", code}, {"txt", txt}, {"ch", ch}});
}

static QByteArray rep(const QString &v) { Rep r; r.setV(v); return r.serialize(QProtobufSerializerRegistry::instance().getSerializer("protobuf").get()); }
// Arguments of the scenarios differ on the wire in few characters only, between a long common beginning with a NUL and a common end.
static const QString Common = QStringLiteral("k") + QChar(0) + QString(QStringLiteral("common")).repeated(60), Tail = QString(QStringLiteral("tail")).repeated(60);
static QString wireArg(const QString &a) { return a.isEmpty() ? a : Common + a + Tail; }
static QString argOf(const QByteArray &b)
{
    Req r; r.deserialize(QProtobufSerializerRegistry::instance().getSerializer("protobuf").get(), b);
    return r.a().startsWith(Common) && r.a().endsWith(Tail) ? r.a().mid(Common.size(), r.a().size() - Common.size() - Tail.size()) : r.a().isEmpty() ? QString() : "?" + r.a();
}
static const QByteArray Bad("\x0a\x7f\x01", 3);

class FakeChannel : public QAbstractGrpcChannel {
public:
    struct Pending { QPointer<QGrpcStream> stream; QPointer<QGrpcCallReply> reply; bool open; };
    explicit FakeChannel(int n) : no(n) {}
    ~FakeChannel() = default;
    QGrpcStatus call(const QString &m, const QString &s, const QByteArray &a, QByteArray &ret) override
    {
        ev("req", 2, 0, s + "/" + m + "/" + argOf(a), no);
        ret = syncData;
        return syncStatus;
    }
    void call(const QString &m, const QString &s, const QByteArray &a, QGrpcCallReply *reply) override
    {
        ev("req", 1, 0, s + "/" + m + "/" + argOf(a), no);
        auto p = std::make_shared<Pending>(Pending{nullptr, reply, true});
        pending.push_back(p);
        lastCall = p;
        QObject::connect(reply, &QGrpcCallReply::error, reply, [p](const QGrpcStatus &) { p->open = false; });
        QObject::connect(reply, &QGrpcCallReply::finished, reply, [p]() { p->open = false; });
    }
    void stream(QGrpcStream *st, const QString &s, QAbstractGrpcClient *) override
    {
        ev("req", 3, 0, s + "/" + st->method() + "/" + argOf(st->arg()), no);
        auto p = std::make_shared<Pending>(Pending{st, nullptr, true});
        pending.push_back(p);
        QObject::connect(st, &QGrpcStream::finished, st, [p]() { p->open = false; });
        if (mode == 1) { p->open = false; st->error({QGrpcStatus::Unavailable, "sync"}); }
        if (mode == 2) { p->open = false; st->finished(); }
    }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return QProtobufSerializerRegistry::instance().getSerializer("protobuf"); }
    std::shared_ptr<Pending> of(QGrpcStream *st)
    {
        std::shared_ptr<Pending> r;
        for (auto &p : pending) if (p->open && p->stream == st) r = p;
        return r;
    }
    int no, mode = 0;
    QByteArray syncData; QGrpcStatus syncStatus{QGrpcStatus::Ok};
    std::vector<std::shared_ptr<Pending>> pending;
    std::shared_ptr<Pending> lastCall;
};

struct Scenario {
    std::unique_ptr<ServiceClient> client{new ServiceClient};
    std::shared_ptr<FakeChannel> ch[2]{std::make_shared<FakeChannel>(1), std::make_shared<FakeChannel>(2)};
    int chan = 0;
    struct Call { QGrpcCallReplyShared reply; std::shared_ptr<FakeChannel::Pending> p; bool bad = false; };
    struct React { QString k; int i = 0; };
    struct Stream { bool fin = false; QGrpcStreamShared held; QPointer<QGrpcStream> obj; bool bad = false; React onval, onmsg, onerr, onfin; };
    std::vector<Call> calls;
    std::vector<std::shared_ptr<Stream>> streams;
    std::vector<QPointer<Rep>> rets;
    std::vector<int> owner;   // of the return objects: index of the stream
    React oncl;
    QString cur;
    QObject ctx;

    Scenario()
    {
        QObject::connect(client.get(), &ServiceClient::error, &ctx, [this](const QGrpcStatus &s) {
            ev("clerr", 0, s.code(), s.message());
            if (cur == "serr" && !oncl.k.isEmpty()) { React q = oncl; oncl = React(); auto &o = *streams[q.i - 1]; if (!o.fin && o.obj) o.obj->abort(); }
        });
    }
    Rep *newRet()
    {
        Rep *r = new Rep; r->setV("-"); rets.push_back(r); owner.push_back(0);
        int n = int(rets.size());
        QObject::connect(r, &Rep::vChanged, &ctx, [this, r, n]() {
            if (r->v() == "-") return;
            ev("val", n, 0, r->v());
            if (cur == "sdel" && owner[n - 1] > 0) { auto o = streams[owner[n - 1] - 1]; react(*o, o->onval); }
        });
        return r;
    }
    void react(Stream &s, React &r)
    {
        React q = r; r = React();
        if (q.k == "abort") { auto &o = *streams[q.i - 1]; if (o.fin) return; if (o.obj && o.held) o.held->abort(); else if (o.obj) o.obj->abort(); }
        else if (q.k == "join") { QString m = s.obj->method(), a = argOf(s.obj->arg()); subscribe(m, a, newRet()); }
    }
    void subscribe(const QString &m, const QString &a, Rep *ret, bool plain = false)
    {
        Req r; r.setA(wireArg(a));
        QGrpcStreamShared s;
        if (plain) s = m == "watch" ? client->streamWatch(r) : client->streamLook(r);
        else s = m == "watch" ? client->streamWatch(r, QPointer<Rep>(ret)) : client->streamLook(r, QPointer<Rep>(ret));
        if (!s) { ev("stream", 0); return; }
        for (size_t j = 0; j < streams.size(); ++j) if (streams[j]->obj == s.get()) { streams[j]->held = s; if (ret) owner[rets.size() - 1] = int(j) + 1; ev("stream", int(j) + 1); return; }
        auto o = std::make_shared<Stream>(); o->held = s; o->obj = s.get();
        streams.push_back(o);
        int n = int(streams.size());
        if (chan > 0 && ch[chan - 1]->mode == 2 && !ch[chan - 1]->of(s.get())) o->fin = true;   // ended at once
        if (ret) owner[rets.size() - 1] = n;
        QObject::connect(s.get(), &QGrpcStream::messageReceived, &ctx, [this, o, n]() {
            ev("smsg", n, 0, o->bad ? QString() : o->obj->read<Rep>().v()); react(*o, o->onmsg); });
        QObject::connect(s.get(), &QGrpcStream::error, &ctx, [this, o, n](const QGrpcStatus &st) { ev("serr", n, st.code(), st.message()); react(*o, o->onerr); });
        QObject::connect(s.get(), &QGrpcStream::finished, &ctx, [this, o, n]() { o->fin = true; ev("sfin", n); react(*o, o->onfin); });
        ev("stream", n);
    }
    void settle()
    {
        for (int k = 0; k < 4; ++k) { QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); }
    }
    std::shared_ptr<FakeChannel::Pending> pending(int i)
    {
        auto o = streams.at(i - 1)->obj; if (!o) return nullptr;
        auto p = ch[0]->of(o); return p ? p : ch[1]->of(o);
    }
    void step(const QJsonObject &c)
    {
        QString op = c["op"].toString(), m = c["m"].toString(), a = c["a"].toString(), d = c["d"].toString();
        int i = c["i"].toInt(), n = c["n"].toInt();
        auto code = static_cast<QGrpcStatus::StatusCode>(n);
        for (auto &r : rets) if (r) r->setV("-");
        cur = op;
        if (op == "attach") { client->attachChannel(ch[i - 1]); chan = i; }
        else if (op == "attachx") {
            std::shared_ptr<FakeChannel> x;
            std::thread([&x]() { x = std::make_shared<FakeChannel>(3); }).join();
            try { client->attachChannel(x); ev("attached"); } catch (const std::exception &) { ev("exc"); }
        }
        else if (op == "mode") ch[i - 1]->mode = n;
        else if (op == "tick") g_skew += 60LL * 1000000000LL;
        else if (op == "call" || op == "callcb") {
            Req r; r.setA(wireArg(a));
            calls.emplace_back();
            int id = int(calls.size());
            for (auto &x : ch) x->lastCall.reset();
            if (op == "callcb") {
                auto cb = [this, id](QGrpcCallReplyShared q) { ev("cbfin", id, 0, q->read<Rep>().v()); };
                if (m == "one") client->one(r, &ctx, cb); else client->two(r, &ctx, cb);
            } else {
                auto q = m == "one" ? client->one(r) : client->two(r);
                calls.back().reply = q;
                ev("reply", q ? id : 0);
                if (q) {
                    QGrpcCallReply *raw = q.get();
                    auto fin = [raw, id]() { ev("cfin", id, 0, raw->read<Rep>().v()); };
                    auto err = [id](const QGrpcStatus &st) { ev("cerr", id, st.code(), st.message()); };
                    if (id % 3 == 1) { QObject::connect(raw, &QGrpcCallReply::finished, &ctx, fin); QObject::connect(raw, &QGrpcCallReply::error, &ctx, err); }
                    else if (id % 3 == 2) q->subscribe(&ctx, fin, err);
                    else { q->subscribe(&ctx, fin); QObject::connect(raw, &QGrpcCallReply::error, &ctx, err); }
                }
            }
            for (auto &x : ch) if (x->lastCall) calls.back().p = x->lastCall;
        }
        else if (op == "cdone" || op == "cbad" || op == "cfail") {
            auto &k = calls.at(i - 1);
            if (k.p && k.p->open && k.p->reply) {
                if (op == "cfail") { k.p->reply->setData({}); k.p->reply->error({code, d}); }
                else { k.p->reply->setData(op == "cbad" ? Bad : rep(d)); k.p->reply->finished(); }
            }
        }
        else if (op == "cabort") calls.at(i - 1).reply->abort();
        else if (op == "sync" || op == "syncbad") {
            for (auto &x : ch) { x->syncStatus = QGrpcStatus(code, n == 0 ? QString() : d); x->syncData = op == "syncbad" ? Bad : n == 0 ? rep(d) : QByteArray(); }
            Req r; r.setA(wireArg(a)); std::unique_ptr<Rep> out(new Rep); out->setV("-");
            QGrpcStatus s = client->one(r, QPointer<Rep>(out.get()));
            ev("status", 0, s.code(), s.message()); if (op == "sync") ev("out", 0, 0, out->v());
        }
        else if (op == "syncnull") { Req r; QGrpcStatus s = client->one(r, QPointer<Rep>()); ev("status", 0, s.code(), s.message()); }
        else if (op == "sub") subscribe(m, a, newRet());
        else if (op == "subn") subscribe(m, a, nullptr, true);
        else if (op == "subnull") { Req r; QGrpcStreamShared s = client->streamWatch(r, QPointer<Rep>()); ev("stream", s ? 99 : 0); }
        else if (op == "sdel" || op == "sbad") { if (auto p = pending(i)) { streams[i - 1]->bad = op == "sbad"; p->stream->handler(op == "sbad" ? Bad : rep(d)); } }
        else if (op == "serr") { if (auto p = pending(i)) { p->open = false; p->stream->error({code, d}); } }
        else if (op == "sfin") { if (auto p = pending(i)) { p->open = false; p->stream->finished(); } }
        else if (op == "sabort") { auto s = streams.at(i - 1)->held; s->abort(); }
        else if (op == "sdrop") streams.at(i - 1)->held.reset();
        else if (op == "rdrop") delete rets.at(i - 1).data();
        else if (op == "oncl") oncl = {a, n};
        else if (op == "onval") streams.at(i - 1)->onval = {a, n};
        else if (op == "onmsg") streams.at(i - 1)->onmsg = {a, n};
        else if (op == "onerr") streams.at(i - 1)->onerr = {a, n};
        else if (op == "onfin") streams.at(i - 1)->onfin = {a, n};
        else if (op == "kill") client.reset();
        settle();
    }
    ~Scenario()
    {
        QJsonArray sink; auto old = g_ev; g_ev = &sink;
        client.reset(); settle();
        calls.clear(); streams.clear();
        for (auto &r : rets) delete r.data();
        settle();
        g_ev = old;
    }
};

int main(int argc, char **argv)
{
    qputenv("QT_NO_GLIB", "1");
    QCoreApplication app(argc, argv);
    qRegisterMetaType<QGrpcStatus>();
    qRegisterProtobufTypes();
    QTextStream in(stdin); in.setCodec("UTF-8");
    std::string out;
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        QJsonArray all;
        QString res = "ok";
        {
            Scenario s;
            for (const auto &c : o["s"].toArray()) {
                QJsonArray e; g_ev = &e;
                try { s.step(c.toObject()); } catch (const std::exception &x) { res = QString("exception ") + x.what(); }
                all.append(e);
            }
            QJsonArray sink; g_ev = &sink;
        }
        o["ev"] = all; o["r"] = res;
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
    }
    printf("END\n");
    return 0;
}
