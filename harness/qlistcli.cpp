// Runs scenarios of spec/QmlList.tla: the repeated message field "rit" of Msg used from C++ and QML together.
#include <QtCore>
#include <QQmlComponent>
#include <QQmlEngine>
#include <QQmlContext>
#include <QQmlListReference>
#include <QJSValue>
#include <unistd.h>
#include "qprotobufserializer.h"
#include "qprotobufserializerregistry_p.h"
#include "msg.qpb.h"
using namespace QtProtobuf;
using vp::msg::Msg; using vp::msg::Item;

static QHash<QObject *, int> g_id;   // live elements
static int g_n;
static void born(QObject *o) { g_id[o] = ++g_n; QObject::connect(o, &QObject::destroyed, [o] { g_id.remove(o); }); }

// elements that follow each other may have equal values, some have the default
static QtProtobuf::int32 valueOf(int id) { return QtProtobuf::int32(id % 3 == 0 ? 0 : 1000 + (id + 1) / 2); }

int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    qRegisterProtobufTypes();
    QLoggingCategory::setFilterRules("*=false");
    auto ser = QProtobufSerializerRegistry::instance().getSerializer("protobuf");
    QQmlEngine eng;
    QQmlComponent root(&eng);
    root.setData("import QtQml 2.12\nimport vp.msg 1.0\nQtObject {\n property Component item: Component { Item {} }\n"
                 " property Component m0: Component { Msg { rit: [] } }\n property Component m1: Component { Msg { rit: [Item { v: 1 }] } }\n property Component m2: Component { Msg { rit: [Item { v: 1 }, Item { v: 2 }] } }\n"
                 " function look(m) { var r = []; for (var i = 0; i < m.rit.length; ++i) r.push([m.rit[i], m.rit[i].v]); return r }\n"
                 " function make(p) { return item.createObject(p) }\n"
                 " function assign(m, l) { m.rit = l }\n"
                 " function write(m, i, v) { m.rit[i].v = v }\n}", QUrl());
    QScopedPointer<QObject> r(root.create());
    if (!r) { fprintf(stderr, "%s\n", qPrintable(root.errorString())); return 5; }
    QJSValue jr = eng.newQObject(r.data()); QQmlEngine::setObjectOwnership(r.data(), QQmlEngine::CppOwnership);
    QTextStream in(stdin);
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        const int K = o["n"].toInt(); QJsonArray all; QString res = "ok";
        g_n = 0;
        {
            std::vector<Msg *> m(size_t(K + 1), nullptr); QVector<QSharedPointer<Item>> hold;
            auto js = [&](Msg *x) { QQmlEngine::setObjectOwnership(x, QQmlEngine::CppOwnership); return eng.newQObject(x); };
            auto call = [&](const char *f, const QJSValueList &a) {
                QJSValue v = jr.property(f).callWithInstance(jr, a);
                if (v.isError()) { res = "script: " + v.toString(); }
                return v;
            };
            auto make = [&](QObject *parent) { // an element made by QML, ours to give away
                QJSValue v = call("make", {parent ? eng.newQObject(parent) : QJSValue(QJSValue::NullValue)});
                Item *e = qobject_cast<Item *>(v.toQObject()); born(e); e->setV(valueOf(g_n)); return v;
            };
            auto settle = [&] { eng.collectGarbage(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); QCoreApplication::processEvents(); };
            for (const auto &sv : o["s"].toArray()) {
                const QJsonObject s = sv.toObject(); const QString op = s["op"].toString(); const size_t k = size_t(s["k"].toInt()); const int j = s["j"].toInt();
                if (op == "new") m[k] = new Msg;
                else if (op == "decl") {
                    QQmlComponent *c = r->property(j == 0 ? "m0" : j == 1 ? "m1" : "m2").value<QQmlComponent *>();
                    m[k] = qobject_cast<Msg *>(c->create());
                    QQmlListReference l(m[k], "rit");
                    for (int x = 0; x < l.count(); ++x) { Item *e = qobject_cast<Item *>(l.at(x)); born(e); e->setV(valueOf(g_n)); }
                } else if (op == "app" || op == "appp" || op == "appc") {
                    QQmlListReference l(m[k], "rit");
                    if (op == "appc") { Item *e = new Item; born(e); e->setV(valueOf(g_n)); l.append(e); }
                    else { QJSValue v = make(op == "appp" ? m[k] : nullptr); l.append(v.toQObject()); }
                } else if (op == "asg" || op == "asgp") {
                    QJSValue a = eng.newArray(uint(j)); for (int x = 0; x < j; ++x) a.setProperty(uint(x), make(op == "asgp" ? m[k] : nullptr));
                    call("assign", {js(m[k]), a});
                } else if (op == "capp") { Item *e = new Item; born(e); e->setV(valueOf(g_n)); m[k]->rit().append(QSharedPointer<Item>(e)); }
                else if (op == "parse") {
                    Item e; e.setV(valueOf(g_n + 1)); Msg t; t.rit().append(QSharedPointer<Item>(new Item(e)));
                    m[k]->deserialize(ser.get(), t.serialize(ser.get()));
                    if (!m[k]->rit().isEmpty()) born(m[k]->rit().last().data());
                } else if (op == "clear") { QQmlListReference l(m[k], "rit"); l.clear(); }
                else if (op == "cclear") m[k]->setRit({});
                else if (op == "cset") m[k]->setRit(m[size_t(j)]->rit());
                else if (op == "casg") *m[k] = *m[size_t(j)];
                else if (op == "crem") m[k]->rit().removeAt(j - 1);
                else if (op == "copy") m[k] = new Msg(*m[size_t(j)]);
                else if (op == "del") { delete m[k]; m[k] = nullptr; }
                else if (op == "hold") hold.append(m[k]->rit().at(j - 1));
                else if (op == "rel") hold.clear();
                else if (op == "setv") call("write", {js(m[k]), j - 1, s["v"].toInt()});
                else if (op == "csetv") m[k]->rit().at(j - 1)->setV(QtProtobuf::int32(s["v"].toInt()));
                else if (op == "same") { QQmlListReference l(m[k], "rit"); l.append(l.at(j - 1)); }   // probe of a known finding
                settle();
                QJsonArray c, q, jv;
                for (size_t x = 1; x <= size_t(K); ++x) {
                    QJsonArray a, b, d;
                    if (m[x]) {
                        for (const auto &e : m[x]->rit()) a.append(QJsonArray{g_id.value(e.data(), -1), g_id.contains(e.data()) ? int(e->v()) : 0});
                        QQmlListReference l(m[x], "rit");
                        for (int y = 0; y < l.count(); ++y) { auto *e = l.at(y); b.append(QJsonArray{g_id.value(e, -1), g_id.contains(e) ? e->property("v").toInt() : 0}); }
                        if (!a.contains(QJsonArray{-1, 0})) {
                            QJSValue v = call("look", {js(m[x])}); const int len = v.property("length").toInt();
                            for (int y = 0; y < len; ++y) { QJSValue p = v.property(uint(y)); d.append(QJsonArray{g_id.value(p.property(0).toQObject(), -1), p.property(1).toInt()}); }
                        }
                    }
                    c.append(a); q.append(b); jv.append(d);
                }
                settle();
                QJsonArray alive; for (int id : g_id) alive.append(id);
                all.append(QJsonObject{{"c", c}, {"q", q}, {"j", jv}, {"alive", alive}});
                if (res != "ok") break;
            }
            for (auto *x : m) delete x;
        }
        eng.collectGarbage(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); g_id.clear();
        o["o"] = all; o["r"] = res;
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
    }
    printf("END\n"); fflush(stdout);
    _exit(0);
}
