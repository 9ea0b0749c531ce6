// Runs scenarios of spec/QmlCall.tla: unary calls of a generated client made from JavaScript.
#include <QtCore>
#include <QQmlEngine>
#include <QJSEngine>
#include <QJSValue>
#include <unistd.h>
#include "qabstractgrpcchannel.h"
#include "qabstractgrpcclient.h"
#include "qgrpccallreply.h"
#include "qgrpcstream.h"
#include "qgrpcstatus.h"
#include "qprotobufserializerregistry_p.h"
#include "grpcvp.qpb.h"
#include "grpcvp_grpc.qpb.h"
using namespace QtProtobuf;
using namespace vp;
static std::shared_ptr<QAbstractProtobufSerializer> ser() { return QProtobufSerializerRegistry::instance().getSerializer("protobuf"); }
static QJsonArray g_req, g_cbs, g_cerr; static int g_cur;
static QMap<int, QPointer<QGrpcCallReply>> g_open;
class FakeChannel : public QAbstractGrpcChannel {
public:
    int no;
    explicit FakeChannel(int n) : no(n) {}
    QGrpcStatus call(const QString &, const QString &, const QByteArray &, QByteArray &) override { return QGrpcStatus::Unknown; }
    void call(const QString &m, const QString &, const QByteArray &a, QGrpcCallReply *rep) override { Req r; r.deserialize(ser().get(), a); g_req.append(QJsonArray{no, m, r.a()}); g_open[g_cur] = rep; }
    void stream(QGrpcStream *, const QString &, QAbstractGrpcClient *) override {}
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return ser(); }
};
class Sink : public QObject {
    Q_OBJECT
public slots:
    void cur(int i) { g_cur = i; }
    void ok(int i, const QString &v) { g_cbs.append(QJsonArray{i, "ok", v}); }
    void err(int i, const QString &v) { g_cbs.append(QJsonArray{i, "err", v}); }
};
static const char *script = R"(
(function(c, m, a, r, i, f) {
    function go(c, m, a, i, f) {
        sink.cur(i)
        var e = f == "noerr" ? null : function(s) { sink.err(i, s.code + " " + s.message) }
        if (f == "bad") c[m](a, 5, e)
        else c[m](a, function(x) { sink.ok(i, x ? x.v : "no message"); if (f == "nest") go(c, "two", a, i + 100, "cb"); if (f == "throw") throw new Error("thrown by the callback") }, e)
    }
    if (f == "ret") { sink.cur(i); c[m](a, r, function(s) { sink.err(i, s.code + " " + s.message) }) }
    else go(c, m, a, i, f)
}))";
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    qRegisterProtobufTypes();
    QQmlEngine eng; Sink sink; QQmlEngine::setObjectOwnership(&sink, QQmlEngine::CppOwnership);
    eng.globalObject().setProperty("sink", eng.newQObject(&sink));
    QJSValue go = eng.evaluate(script);
    if (!go.isCallable()) { fprintf(stderr, "%s\n", qPrintable(go.toString())); return 5; }
    QTextStream in(stdin);
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        QJsonArray all; QString res = "ok"; g_open.clear();
        {
            std::shared_ptr<FakeChannel> ch[3]; QPointer<ServiceClient> cl[4];
            for (int c = 1; c <= 3; ++c) {
                cl[c] = new ServiceClient; QQmlEngine::setObjectOwnership(cl[c], QQmlEngine::CppOwnership);
                QObject::connect(cl[c].data(), &QAbstractGrpcClient::error, &sink, [c](const QGrpcStatus &s) { g_cerr.append(QJsonArray{c, int(s.code())}); });
                if (c < 3) { ch[c] = std::make_shared<FakeChannel>(c); cl[c]->attachChannel(ch[c]); }
            }
            Req a1, a2; a1.setA("1"); a2.setA("2"); Req *args[3] = {nullptr, &a1, &a2}; QPointer<Rep> rets[3];
            for (int k = 1; k < 3; ++k) { rets[k] = new Rep; QQmlEngine::setObjectOwnership(rets[k], QQmlEngine::CppOwnership); QQmlEngine::setObjectOwnership(args[k], QQmlEngine::CppOwnership); }
            for (auto cv : o["s"].toArray()) {
                QJsonObject c = cv.toObject(); QString op = c["op"].toString(); int id = c["id"].toInt(), a = c["a"].toInt(), r = c["r"].toInt(), x = c["x"].toInt();
                g_req = QJsonArray(); g_cbs = QJsonArray(); g_cerr = QJsonArray(); g_cur = -1;
                if (op == "call") {
                    QJSValue ret = go.call(QJSValueList{eng.newQObject(cl[c["c"].toInt()]), c["m"].toString(), a ? eng.newQObject(args[a]) : QJSValue(QJSValue::NullValue), r ? eng.newQObject(rets[r]) : QJSValue(QJSValue::NullValue), id, c["f"].toString()});
                    if (ret.isError()) res = "call failed: " + ret.toString();
                } else if (op == "ok" || op == "garb" || op == "err") {
                    QPointer<QGrpcCallReply> rep = g_open.value(id); g_open.remove(id);
                    if (!rep) { res = "the channel has no such call"; }
                    else if (op == "ok") { Rep m; m.setV(QString::number(x)); rep->setData(m.serialize(ser().get())); rep->finished(); }
                    else if (op == "garb") { rep->setData(QByteArray::fromHex("0007")); rep->finished(); }
                    else { rep->setData({}); rep->error({QGrpcStatus::StatusCode(x), "m" + QString::number(x)}); }
                }
                else if (op == "seta") args[a]->setA(QString::number(x));
                else if (op == "delr") delete rets[r].data();
                else if (op == "delcl") delete cl[c["c"].toInt()].data();
                else if (op == "gc") eng.collectGarbage();
                if (c["ev"].toInt()) { QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); QCoreApplication::processEvents(); }
                QJsonArray rv; for (int k = 1; k < 3; ++k) rv.append(rets[k] ? rets[k]->v() : QString("gone"));
                all.append(QJsonObject{{"req", g_req}, {"cbs", g_cbs}, {"cerr", g_cerr}, {"ret", rv}});
            }
            for (auto &k : cl) delete k.data();
            for (auto &k : rets) delete k.data();
            eng.collectGarbage();
            QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        }
        o["o"] = all; o["r"] = res;
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
    }
    printf("END\n"); fflush(stdout);
    _exit(0);
}
#include "qmlcallcli.moc"
