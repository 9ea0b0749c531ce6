// Runs scenarios of spec/Http2.tla against the generated client with a real channel (HTTP/2, or native with
// "native") talking to the scripted server h2server.js.  Timers of the user's thread run on a virtual clock.
#include <QtCore>
#include <QtNetwork>
#include <time.h>
#include <dlfcn.h>
#include <link.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "qgrpchttp2channel.h"
#include "qgrpcchannel.h"
#include "qgrpccredentials.h"
#include "qgrpcinsecurecredentials.h"
#include "qgrpcsslcredentials.h"
#include "qgrpcuserpasswordcredentials.h"
#include "qgrpccallreply.h"
#include "qgrpcstream.h"
#include "qprotobufserializerregistry_p.h"
#include "grpcvp.qpb.h"
#include "grpcvp_grpc.qpb.h"
#include <grpcpp/security/credentials.h>

static long long g_skew = 0;
static timespec g_base{};
static thread_local bool t_virtual = false;
static uintptr_t g_lo = 0, g_hi = 0;      // where Qt's core library lies: only its timers are virtual
static int findQt(dl_phdr_info *i, size_t, void *)
{
    if (!strstr(i->dlpi_name, "libQt5Core")) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
        const uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
        if (!g_lo || a < g_lo) g_lo = a;
        if (b > g_hi) g_hi = b;
    }
    return 1;
}
extern "C" int clock_gettime(clockid_t id, timespec *ts)
{
    const uintptr_t from = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
    if (id != CLOCK_MONOTONIC || !t_virtual || from < g_lo || from >= g_hi) return int(syscall(SYS_clock_gettime, id, ts));
    if (g_base.tv_sec == 0) syscall(SYS_clock_gettime, id, &g_base);
    long long t = g_base.tv_sec * 1000000000LL + g_base.tv_nsec + g_skew;
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
    return 0;
}
static long long realMs() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000; }
extern "C" int connect(int fd, const struct sockaddr *a, socklen_t l)
{
    static auto real = reinterpret_cast<int (*)(int, const struct sockaddr *, socklen_t)>(dlsym(RTLD_NEXT, "connect"));
    if (a && (a->sa_family == AF_INET || a->sa_family == AF_INET6)) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
    return real(fd, a, l);
}

using namespace QtProtobuf;
using namespace vp;

static QJsonArray *g_ev = nullptr;
static QJsonArray runs(const QByteArray &b)
{
    QJsonArray r;
    for (int i = 0; i < b.size();) { int j = i; while (j < b.size() && b[j] == b[i]) ++j; r.append(QJsonArray{int(uchar(b[i])), j - i}); i = j; }
    return r;
}
static void ev(const QString &k, int id = 0, int code = 0, const QString &txt = {}, const QJsonArray &r = {}, const QJsonArray &hdr = {})
{
    // "~" in texts of scenarios stands for a character that is not ASCII
    g_ev->append(QJsonObject{{"k", k}, {"id", id}, {"code", code}, {"txt", QString(txt).replace(QString::fromUtf8("\u00e9"), "~")}, {"runs", r}, {"hdr", hdr}});
}

struct Server {
    QProcess p; int port = 0, acked = 0, n = 0, gen = 0; bool https = false;
    QByteArray rest; QEventLoop *lp = nullptr;
    Server(const QString &script, bool native)
    {
        p.setProcessChannelMode(QProcess::ForwardedErrorChannel);
        p.start("node", native ? QStringList{script, "native"} : QStringList{script});
        QObject::connect(&p, &QProcess::readyReadStandardOutput, [this]() { take(); });
        while (!port) { if (!p.waitForReadyRead(10000)) qFatal("no server"); take(); }
    }
    void take()
    {
        rest += p.readAllStandardOutput();
        for (int k; (k = rest.indexOf('\n')) >= 0;) {
            QJsonObject o = QJsonDocument::fromJson(rest.left(k)).object(); rest.remove(0, k + 1);
            QString t = o["k"].toString();
            if (t == "port") port = o["port"].toInt();
            else if (t == "ack") { acked = o["n"].toInt(); if (lp) lp->quit(); }
            else if (o["gen"].toInt() != gen || !g_ev) continue;
            else if (t == "req") {
                QJsonArray h; QJsonObject hs = o["headers"].toObject();
                for (auto it = hs.begin(); it != hs.end(); ++it) h.append(QJsonArray{it.key(), it.value()});
                ev("req", o["id"].toInt(), 0, o["path"].toString(), o["body"].toArray(), h);
            }
            else if (t == "cancel") ev("cancel", o["id"].toInt());
        }
    }
    void send(QJsonObject o) { o["n"] = ++n; p.write(QJsonDocument(o).toJson(QJsonDocument::Compact) + "\n"); }
    void wait()           // with the event loop running
    {
        while (acked != n) { QEventLoop l; lp = &l; l.exec(); lp = nullptr; }
    }
    void waitHeld()       // without running the event loop
    {
        while (p.bytesToWrite()) p.waitForBytesWritten(5000);
        while (acked != n) { if (!p.waitForReadyRead(20000)) qFatal("server does not answer"); take(); }
    }
};

struct Creds : public QAbstractGrpcCredentials {
    QGrpcCredentialMap m; std::list<QByteArray> names;
    QGrpcCredentialMap callCredentials() override { return m; }
    QGrpcCredentialMap channelCredentials() override { return {}; }
};

struct Scenario {
    Server &sv; bool native;
    std::shared_ptr<QAbstractGrpcChannel> channel;
    std::unique_ptr<ServiceClient> client{new ServiceClient}, client2{new ServiceClient};    // the second shares the channel
    struct Stream { QGrpcStreamShared held; QPointer<QGrpcStream> obj; int onval = 0; };
    struct Call { QGrpcCallReplyShared held; };
    std::vector<std::shared_ptr<Stream>> streams;
    std::vector<std::shared_ptr<Call>> calls;
    std::vector<std::pair<bool, int>> reqOwner{{false, 0}};   // by request id: is stream, index
    QObject ctx;

    Scenario(Server &s, bool nat, const QJsonArray &creds) : sv(s), native(nat)
    {
        sv.gen++; sv.send({{"op", "new"}, {"gen", sv.gen}}); sv.wait();
        if (native) channel = std::make_shared<QGrpcChannel>(QUrl(QString("ipv4:127.0.0.1:%1").arg(sv.port)), grpc::InsecureChannelCredentials());
        else {
            std::unique_ptr<Creds> c(new Creds); cred = c.get(); sets = creds; use(1);
            channel = std::make_shared<QGrpcHttp2Channel>(QUrl(QString("http://127.0.0.1:%1").arg(sv.port)), std::move(c));
        }
        attach();
        QObject::connect(client2.get(), &ServiceClient::error, &ctx, [](const QGrpcStatus &s) { ev("clerr", 1, s.code(), s.message()); });
        QObject::connect(client.get(), &ServiceClient::error, &ctx, [](const QGrpcStatus &s) { ev("clerr", 0, s.code(), s.message()); });
    }
    void attach() { client->attachChannel(channel); client2->attachChannel(channel); }
    Creds *cred = nullptr; QJsonArray sets;
    void use(int i)
    {
        if (!cred) return;
        cred->m.clear();
        for (const auto &x : sets[i - 1].toArray()) { cred->names.push_back(x.toArray()[0].toString().toUtf8()); cred->m.insert(QLatin1String(cred->names.back().constData()), x.toArray()[1].toString()); }
    }
    static void https(const QString &p, int port)
    {
        const QUrl u(QString("https://localhost:%1").arg(port));
        try {
            if (p == "none") QGrpcHttp2Channel c(u, QGrpcInsecureCallCredentials() | QGrpcInsecureChannelCredentials());
            else if (p == "password") QGrpcHttp2Channel c(u, QGrpcUserPasswordCredentials<>("u", "p") | QGrpcInsecureChannelCredentials());
            else if (p == "ssl") QGrpcHttp2Channel c(u, QGrpcInsecureCallCredentials() | QGrpcSslCredentials(QSslConfiguration()));
            else QGrpcHttp2Channel c(u, QGrpcUserPasswordCredentials<>("u", "p") | QGrpcSslCredentials(QSslConfiguration()));
            ev("accepted");
        } catch (const std::exception &) { ev("refused"); }
    }
    void loop() { QEventLoop l; QTimer::singleShot(0, &l, &QEventLoop::quit); l.exec(); }
    void settle(int want)
    {
        // wait for what has to come, then give what must not come the chance to
        long long t0 = realMs();
        int rounds = 0;
        while (true) {
            sv.send({{"op", "sync"}}); sv.wait(); loop();
            if (native) { QThread::usleep(500); loop(); }
            ++rounds;
            if (g_ev->size() >= want && rounds >= (native ? 3 : 2)) break;
            if (realMs() - t0 > (late < 8 ? 4000 : 200)) { ++late; break; }   // a broken tree must not take forever
        }
    }
    Req arg(const QJsonObject &c) { Req r; r.setA(QString(c["n"].toInt(), QChar(c["c"].toInt()))); return r; }
    static QJsonObject act(const QString &op, const QJsonObject &c)
    {
        QJsonObject o{{"op", op}, {"id", c["i"]}};
        if (op == "data") o["runs"] = c["runs"];
        if (op == "end" || op == "only" || op == "http" || op == "rst") o["code"] = c["code"];
        if (op == "end" || op == "only") o["msg"] = QString::fromLatin1(c["txt"].toString().replace("~", QString::fromUtf8("\u00e9")).toUtf8().toPercentEncoding(" !#$&'()*+,/:;=?@[]"));
        return o;
    }
    void abortReq(int r) { auto o = reqOwner.at(r); if (o.first) streams.at(o.second - 1)->held->abort(); else calls.at(o.second - 1)->held->abort(); }
    static QJsonArray frame(int c, int n, int cut)
    {
        Rep r; r.setB(QByteArray(n, char(c)));
        QByteArray b = r.serialize(QProtobufSerializerRegistry::instance().getSerializer("protobuf").get());
        QByteArray f(5, 0); qToBigEndian<quint32>(quint32(b.size()), f.data() + 1);
        f += b;
        return runs(cut < 0 ? f.left(f.size() + cut) : f + QByteArray(cut, 'z'));
    }
    void step(const QJsonObject &c, int want)
    {
        const QString op = c["op"].toString();
        const int i = c["i"].toInt(), n = c["n"].toInt();
        if (op == "sub" || op == "sub2") {
            auto s = std::make_shared<Stream>(); streams.push_back(s); const int id = int(streams.size());
            reqOwner.push_back({true, id});
            s->held = (op == "sub2" ? client2 : client)->streamWatch(arg(c)); s->obj = s->held.get();
            QObject::connect(s->obj, &QGrpcStream::messageReceived, &ctx, [s, id]() {
                ev("val", id, 0, {}, runs(s->obj->read<Rep>().b()));
                if (s->onval > 0 && --s->onval == 0) s->held->abort();
            });
            QObject::connect(s->obj, &QGrpcStream::error, &ctx, [this, id](const QGrpcStatus &st) { ev("serr", id, st.code(), st.message()); retry = id; });
            QObject::connect(s->obj, &QGrpcStream::finished, &ctx, [id]() { ev("sfin", id); });
        } else if (op == "call" || op == "call2") {
            auto q = std::make_shared<Call>(); calls.push_back(q); const int id = int(calls.size());
            reqOwner.push_back({false, id});
            q->held = (op == "call2" ? client2 : client)->one(arg(c)); auto raw = q->held.get();
            QObject::connect(raw, &QGrpcCallReply::finished, &ctx, [raw, id]() { ev("cfin", id, 0, {}, runs(raw->read<Rep>().b())); });
            QObject::connect(raw, &QGrpcCallReply::error, &ctx, [id](const QGrpcStatus &st) { ev("cerr", id, st.code(), st.message()); });
        } else if (op == "sync") {
            const QString p = c["p"].toString(); QJsonArray a; const int ch = c["c"].toInt();
            QJsonObject ok{{"op", "end"}, {"code", 0}};
            if (p == "ok") { QJsonArray f = frame(ch, n, 0); a = QJsonArray{QJsonObject{{"op", "data"}, {"runs", f}}, ok}; }
            else if (p == "trunc") a = QJsonArray{QJsonObject{{"op", "data"}, {"runs", frame(ch, n, -1)}}, ok};
            else if (p == "long") a = QJsonArray{QJsonObject{{"op", "data"}, {"runs", frame(ch, n, 1)}}, ok};
            else if (p == "none") a = QJsonArray{ok};
            else if (p == "badstatus") a = QJsonArray{QJsonObject{{"op", "data"}, {"runs", frame(ch, n, 0)}}, QJsonObject{{"op", "end"}, {"code", "abc"}}};
            else if (p == "nostatus") a = QJsonArray{QJsonObject{{"op", "data"}, {"runs", frame(ch, n, 0)}}, QJsonObject{{"op", "nostatus"}}};
            else if (p == "rst") a = QJsonArray{QJsonObject{{"op", "data"}, {"runs", frame(ch, n, 0)}}, QJsonObject{{"op", "rst"}, {"code", 2}}};
            else if (p == "http") a = QJsonArray{QJsonObject{{"op", "http"}, {"code", c["code"]}}};
            else a = QJsonArray{act(p == "only" ? "only" : "end", c)};
            sv.send({{"op", "plan"}, {"acts", a}}); sv.wait();
            reqOwner.push_back({false, 0});
            Req r; r.setA(QString(i, 'x')); std::unique_ptr<Rep> out(new Rep); out->setB("-");
            QGrpcStatus s = client->one(r, QPointer<Rep>(out.get()));
            ev("status", 0, s.code(), s.message());
            if (s.code() == 0) ev("out", 0, 0, {}, runs(out->b()));
        }
        else if (op == "put") ;
        else if (op == "head" || op == "data" || op == "end" || op == "only" || op == "nostatus" || op == "http" || op == "rst") { sv.send(act(op, c)); sv.wait(); }
        else if (op == "cred") use(i);
        else if (op == "userpass") {
            cred = nullptr;
            channel = std::make_shared<QGrpcHttp2Channel>(QUrl(QString("http://127.0.0.1:%1").arg(sv.port)), QGrpcUserPasswordCredentials<>("me", "s3cret") | QGrpcInsecureChannelCredentials());
            attach();
        }
        else if (op == "https") https(c["p"].toString(), sv.port);
        else if (op == "refused") {
            QTcpServer t; t.listen(QHostAddress::LocalHost); const int port = t.serverPort(); t.close();
            if (native) channel = std::make_shared<QGrpcChannel>(QUrl(QString("ipv4:127.0.0.1:%1").arg(port)), grpc::InsecureChannelCredentials());
            else channel = std::make_shared<QGrpcHttp2Channel>(QUrl(QString("http://127.0.0.1:%1").arg(port)), QGrpcInsecureCallCredentials() | QGrpcInsecureChannelCredentials());
            attach();
        }
        else if (op == "lost") { sv.send({{"op", c["p"].toString()}}); sv.wait(); settle(0); g_skew += 900LL * 1000000000LL; }
        else if (op == "sabort") streams.at(i - 1)->held->abort();
        else if (op == "cabort") calls.at(i - 1)->held->abort();
        else if (op == "onval") streams.at(i - 1)->onval = n;
        else if (op == "kill") client.reset();
        else if (op == "linger") g_skew += 900LL * 1000000000LL;
        else if (op == "tick") { g_skew += 900LL * 1000000000LL; if (retry) reqOwner.push_back({true, retry}); retry = 0; }
        else if (op.endsWith("abort")) { sv.send(act(op.left(op.size() - 5), c)); sv.waitHeld(); abortReq(i); }
        else if (op.endsWith("kill")) { sv.send(act(op.left(op.size() - 4), c)); sv.waitHeld(); client.reset(); }
        settle(want);
    }
    int retry = 0; static int late;
    ~Scenario()
    {
        QJsonArray sink; auto old = g_ev; g_ev = &sink;
        client.reset(); client2.reset(); loop();
        calls.clear(); streams.clear(); loop();
        channel.reset(); loop();
        g_ev = old;
    }
};

int Scenario::late = 0;

int main(int argc, char **argv)
{
    dl_iterate_phdr(findQt, nullptr);
    t_virtual = true;
    qputenv("QT_NO_GLIB", "1");
    QCoreApplication app(argc, argv);
    qRegisterMetaType<QGrpcStatus>();
    qRegisterProtobufTypes();
    const bool native = argc > 2 && !strcmp(argv[2], "native");
    Server sv(argv[1], native);
    QTextStream in(stdin); in.setCodec("UTF-8");
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        QJsonArray all; QString res = "ok";
        {
            QJsonArray sink; g_ev = &sink;
            Scenario s(sv, native, o["creds"].toArray());
            const QJsonArray x = o["x"].toArray();
            int k = 0;
            for (const auto &c : o["s"].toArray()) {
                QJsonArray e; g_ev = &e;
                try { s.step(c.toObject(), x[k++].toInt()); } catch (const std::exception &err) { res = QString("exception ") + err.what(); }
                all.append(e);
                g_ev = &sink;
            }
        }
        g_ev = nullptr;
        o["ev"] = all; o["r"] = res;
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
    }
    printf("END\n"); fflush(stdout);
    sv.p.closeWriteChannel(); sv.p.waitForFinished(2000);
    return 0;
}
