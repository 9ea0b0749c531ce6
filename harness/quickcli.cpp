// Runs scenarios of spec/QuickStream.tla on GrpcStream elements of the QML plugin.
#include <QtCore>
#include <QGuiApplication>
#include <QQmlComponent>
#include <QQmlEngine>
#include <QJSValue>
#include <unistd.h>
#include "qabstractgrpcchannel.h"
#include "qabstractgrpcclient.h"
#include "qgrpccallreply.h"
#include "qgrpcstream.h"
#include "qgrpcstatus.h"
#include "qprotobufserializerregistry_p.h"
#include "grpcvp.qpb.h"
#include "grpcvp_grpc.qpb.h"
using namespace QtProtobuf;
using namespace vp;
static std::shared_ptr<QAbstractProtobufSerializer> ser() { return QProtobufSerializerRegistry::instance().getSerializer("protobuf"); }
static QJsonArray *g_req, *g_end;
class FakeChannel : public QAbstractGrpcChannel {
public:
    int no; std::vector<QPointer<QGrpcStream>> open; bool serving = false;
    explicit FakeChannel(int n) : no(n) {}
    static QString arg(QGrpcStream *s) { Req r; r.deserialize(ser().get(), s->arg()); return r.a(); }
    QGrpcStatus call(const QString &, const QString &, const QByteArray &, QByteArray &) override { return QGrpcStatus::Unknown; }
    void call(const QString &, const QString &, const QByteArray &, QGrpcCallReply *) override {}
    void stream(QGrpcStream *st, const QString &, QAbstractGrpcClient *) override
    {
        QJsonArray key{no, st->method(), arg(st)};
        g_req->append(key); open.push_back(st);
        QObject::connect(st, &QGrpcStream::finished, st, [this, st, key]() { auto it = std::find(open.begin(), open.end(), st); if (it != open.end()) { open.erase(it); if (!serving) g_end->append(key); } });
    }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return ser(); }
    QGrpcStream *find(const QString &m, const QString &a) { for (auto &s : open) if (s && s->method() == m && arg(s) == a) return s; return nullptr; }
};
struct Elem { QPointer<QObject> o; QJsonArray errs, msgs; int flips = 0; };
class Sink : public QObject {
    Q_OBJECT
public:
    Elem *e; QQmlEngine *eng;
public slots:
    void msg(const QJSValue &v) { auto *r = qobject_cast<Rep *>(v.toQObject()); e->msgs.append(r ? r->v() : QString("no value")); }
    void err(const QtProtobuf::QGrpcStatus &s) { e->errs.append(int(s.code())); }
    void flip() { e->flips++; }
};
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    qRegisterProtobufTypes();
    qmlRegisterModule("vp", 1, 0);
    QQmlEngine eng; eng.addImportPath(argv[1]);
    QQmlComponent comp(&eng); comp.setData("import QtGrpc 0.6\nGrpcStream {}\n", QUrl());
    if (comp.isError()) { fprintf(stderr, "%s\n", qPrintable(comp.errorString())); return 5; }
    QTextStream in(stdin);
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        QJsonArray req, end, all; g_req = &req; g_end = &end; QString res = "ok";
        {
            std::shared_ptr<FakeChannel> ch[3]; QPointer<ServiceClient> cl[4];
            for (int c = 1; c <= 3; ++c) { cl[c] = new ServiceClient; QQmlEngine::setObjectOwnership(cl[c], QQmlEngine::CppOwnership); if (c < 3) { ch[c] = std::make_shared<FakeChannel>(c); cl[c]->attachChannel(ch[c]); } }
            Req a1, a2, a3; Other a4; a1.setA("1"); a2.setA("2"); a3.setA("1");
            QObject *args[5] = {nullptr, &a1, &a2, &a3, &a4};
            const int n = o["n"].toInt(); std::vector<Elem> el(n + 1); std::vector<std::unique_ptr<Sink>> sink(n + 1);
            for (int k = 1; k <= n; ++k) {
                el[k].o = comp.create(); sink[k].reset(new Sink); sink[k]->e = &el[k]; sink[k]->eng = &eng;
                QObject::connect(el[k].o, SIGNAL(messageReceived(QJSValue)), sink[k].get(), SLOT(msg(QJSValue)));
                if (!QObject::connect(el[k].o, SIGNAL(error(QtProtobuf::QGrpcStatus)), sink[k].get(), SLOT(err(QtProtobuf::QGrpcStatus)))) res = "no error signal";
                QObject::connect(el[k].o, SIGNAL(enabledChanged()), sink[k].get(), SLOT(flip()));
            }
            for (auto cv : o["s"].toArray()) {
                QJsonObject c = cv.toObject(); QString op = c["op"].toString(); int e = c["e"].toInt(), x = c["x"].toInt(); QString s = c["s"].toString();
                req = QJsonArray(); end = QJsonArray(); for (auto &k : el) { k.errs = QJsonArray(); k.msgs = QJsonArray(); k.flips = 0; }
                QObject *q = el[e].o;
                auto *chan = op == "msg" || op == "end" || op == "serr" ? ch[c["c"].toInt()].get() : nullptr;
                QGrpcStream *st = chan ? chan->find(c["m"].toString(), c["a"].toString()) : nullptr;
                if (op == "cl") q->setProperty("client", QVariant::fromValue<QtProtobuf::QAbstractGrpcClient *>(x ? cl[x].data() : nullptr));
                else if (op == "m") q->setProperty("method", s);
                else if (op == "a") q->setProperty("argument", QVariant::fromValue<QObject *>(args[x]));
                else if (op == "en") q->setProperty("enabled", true);
                else if (op == "dis") q->setProperty("enabled", false);
                else if (op == "del") delete q;
                else if (op == "delcl") delete cl[x].data();
                else if (!st) res = "the channel has no such stream";
                else if (op == "msg") { Rep r; r.setV(QString::number(x)); st->handler(r.serialize(ser().get())); }
                else if (op == "end") { chan->serving = true; st->finished(); chan->serving = false; }
                else if (op == "serr") st->error({QGrpcStatus::StatusCode(x), "server"});
                if (c["ev"].toInt()) { QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); QCoreApplication::processEvents(); }
                QJsonArray es, run;
                for (int k = 1; k <= n; ++k) {
                    QObject *z = el[k].o; QObject *rv = z ? z->property("returnValue").value<QObject *>() : nullptr; auto *rr = qobject_cast<Rep *>(rv);
                    es.append(QJsonObject{{"alive", z ? 1 : 0}, {"en", z ? int(z->property("enabled").toBool()) : 0}, {"rv", rv ? 1 : 0}, {"v", rr ? rr->v() : QString()}, {"errs", el[k].errs}, {"msgs", el[k].msgs}, {"flips", el[k].flips}});
                }
                for (int k = 1; k < 3; ++k) for (auto &t : ch[k]->open) if (t) run.append(QJsonArray{k, t->method(), FakeChannel::arg(t)});
                all.append(QJsonObject{{"req", req}, {"end", end}, {"run", run}, {"e", es}});
            }
            for (auto &k : el) delete k.o.data();
            for (auto &k : cl) delete k.data();
            QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        }
        o["o"] = all; o["r"] = res;
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
    }
    printf("END\n"); fflush(stdout);
    _exit(0);
}
#include "quickcli.moc"
