// Runs scenarios of spec/Message.tla on generated message classes.
#include <QtCore>
#include <functional>
#include "msg.qpb.h"
using namespace vp::msg;
using namespace QtProtobuf;

struct Slot;
static QJsonArray *g_ev = nullptr;
static int g_var = 0;   // which values the numbers 1 and 2 stand for
// elements of repeated and map fields of message type are shared; every cell has a content of its own
static QSharedPointer<Item> cell(int n)
{
    static QSharedPointer<Item> c[2];
    auto &p = c[n - 1];
    if (!p) { p.reset(new Item); p->setV(10 * n); p->setT(QString(n, 'c')); }
    return p;
}
static Leaf leafv(int n) { Leaf l; l.setW(n == 0 ? 0 : g_var == 0 ? (n == 1 ? -1 : 77) : (n == 1 ? 1 : -2147483647)); return l; }
static Sub subv(int n)
{
    Sub s;
    if (g_var == 0) {
        if (n == 1) { s.setV(5); s.setR({1, 2}); }
        if (n == 2) { s.setT("two"); s.setLeaf(leafv(1)); }
    } else if (g_var == 1) {   // differ deep inside only
        if (n == 1) s.setLeaf(leafv(1));
        if (n == 2) s.setLeaf(leafv(2));
    } else {
        if (n == 1) s.setR({1, 2});
        if (n == 2) s.setR({2, 1});
    }
    return s;
}
struct Field {
    QString name;
    std::function<void(Msg &, int)> set, setp, ptr, in;
    std::function<void(Msg &)> push, same;
    std::function<int(const Msg &)> get;
    std::function<QMetaObject::Connection(Msg &, std::function<void()>)> con;
};
static QMap<QString, Field> F;

template<typename T> struct Eq { static bool eq(const T &a, const T &b) { return a == b; } };
template<> struct Eq<ItemRepeated> { static bool eq(const ItemRepeated &a, const ItemRepeated &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!a[i] || !b[i] || a[i]->v() != b[i]->v() || a[i]->t() != b[i]->t()) return false; return true; } };
template<> struct Eq<Msg::MiEntry> { static bool eq(const Msg::MiEntry &a, const Msg::MiEntry &b) { if (a.keys() != b.keys()) return false; for (auto k : a.keys()) if (!a[k] || !b[k] || a[k]->v() != b[k]->v() || a[k]->t() != b[k]->t()) return false; return true; } };
template<typename T> static int indexOf(const T &x, std::function<T(int)> val) { for (int i = 0; i < 3; ++i) if (Eq<T>::eq(x, val(i))) return i; return -1; }

#define BASE(n, Cap, T, val) \
    Field f; f.name = #n; std::function<T(int)> value = val; \
    f.set = [value](Msg &m, int v) { m.set##Cap(value(v)); }; \
    f.get = [value](const Msg &m) { return indexOf<T>(m.n(), value); }; \
    f.con = [](Msg &m, std::function<void()> g) { return QObject::connect(&m, &Msg::n##Changed, g); };
#define SCALAR(n, Cap, T, QT, v1, v2, w1, w2) { BASE(n, Cap, T, ([](int i) -> T { return i == 0 ? T() : g_var == 0 ? (i == 1 ? T(v1) : T(v2)) : (i == 1 ? T(w1) : T(w2)); })) \
    f.setp = [value](Msg &m, int v) { if (!m.setProperty(#n, QVariant::fromValue<QT>(QT(value(v))))) throw std::runtime_error("property " #n); }; \
    F[#n] = f; }
#define CONT(n, Cap, T, prop, e1, e2, x2) { BASE(n, Cap, T, ([](int i) -> T { T l; \
        if (g_var == 0) { if (i > 0) l << e1; if (i > 1) l << e2; }              /* one longer than the other */ \
        else if (g_var == 1) { if (i == 1) l << e1; if (i == 2) l << x2; }        /* same length, other element */ \
        else { if (i == 1) l << e1 << e1 << x2; if (i == 2) l << x2 << e1 << e1; }  /* other order */ \
        return l; })) \
    f.setp = [value](Msg &m, int v) { if (!m.setProperty(prop, QVariant::fromValue<T>(value(v)))) throw std::runtime_error("property " #n); }; \
    f.push = [value](Msg &m) { int i = indexOf<T>(m.n(), value); if (i == 0) m.n() << e1; else m.n() << e2; }; \
    F[#n] = f; }
#define MAP(n, Cap, T, k1, e1, k2, e2) { BASE(n, Cap, T, ([](int i) -> T { T l; \
        if (g_var == 0) { if (i > 0) l.insert(k1, e1); if (i > 1) l.insert(k2, e2); } \
        else if (g_var == 1) { if (i > 0) l.insert(i == 1 ? k1 : k2, e1); }                       /* other key, same value */ \
        else { if (i > 0) { l.insert(k1, i == 1 ? e1 : e2); l.insert(k2, i == 1 ? e2 : e1); } }    /* values exchanged */ \
        return l; })) \
    f.setp = [value](Msg &m, int v) { if (!m.setProperty(#n, QVariant::fromValue<T>(value(v)))) throw std::runtime_error("property " #n); }; \
    f.push = [value](Msg &m) { int i = indexOf<T>(m.n(), value); if (i == 0) m.n().insert(k1, e1); else m.n().insert(k2, e2); }; \
    F[#n] = f; }
#define MESSAGE(n, Cap, T, val) { BASE(n, Cap, T, ([](int i) -> T { return val(i); })) \
    f.ptr = [value](Msg &m, int v) { m.setProperty(#n, QVariant::fromValue<T *>(new T(value(v)))); }; \
    f.same = [](Msg &m) { m.setProperty(#n, m.property(#n)); }; \
    f.in = [value](Msg &m, int v) { *m.property(#n).value<T *>() = value(v); }; \
    F[#n] = f; }

static void fields()
{
    SCALAR(i32, I32, int32, int, 1, -2147483647 - 1, 2, 3)
    SCALAR(i64, I64, int64, int64, 1, std::numeric_limits<qint64>::min(), 1, 1 + (1ll << 32))
    SCALAR(u32, U32, uint32, uint32, 1, 4294967295u, 1, 0x80000001u)
    SCALAR(u64, U64, uint64, uint64, 1, ~0ull, 1, 1 + (1ull << 32))
    SCALAR(s32, S32, sint32, sint32, -1, 2147483647, -1, 1)
    SCALAR(s64, S64, sint64, sint64, -1, 1ll << 40, -1, -1 - (1ll << 32))
    SCALAR(f32, F32, fixed32, unsigned, 1, 4294967295u, 1, 0x80000001u)
    SCALAR(f64, F64, fixed64, fixed64, 1, ~0ull, 1, 1 + (1ull << 32))
    SCALAR(sf32, Sf32, sfixed32, int, -1, 65536, -1, 1)
    SCALAR(sf64, Sf64, sfixed64, sfixed64, -1, 1ll << 33, 1, 1 + (1ll << 32))
    SCALAR(bo, Bo, bool, bool, true, true, true, true)
    SCALAR(fl, Fl, float, float, 0.5f, -1e30f, 1.0f, 1.0000001f)
    SCALAR(db, Db, double, double, 1e-300, -2.5, 1.0, 1.0 + 1e-15)
    SCALAR(st, St, QString, QString, "a", QString("a") + QChar(0), "ab", "aB")
    SCALAR(by, By, QByteArray, QByteArray, "b", QByteArray("b\0", 2), "ab", "ac")
    SCALAR(en, En, KindGadget::Kind, KindGadget::Kind, KindGadget::K1, KindGadget::K2, KindGadget::K2, KindGadget::K1)
    SCALAR(inr, Inr, Msg::Inner, Msg::Inner, Msg::I1, Msg::I2, Msg::I2, Msg::I1)
    MESSAGE(sub, Sub, Sub, subv)
    MESSAGE(leaf, Leaf, Leaf, leafv)
    CONT(ri32, Ri32, int32List, "ri32", int32(3), int32(0), int32(-3))
    CONT(rs64, Rs64, sint64List, "rs64", -3, 0, 3)
    CONT(rf32, Rf32, fixed32List, "rf32", fixed32(3), fixed32(3), fixed32(4))
    CONT(rdb, Rdb, DoubleList, "rdb", 0.0, 1.5, 1e-15)
    CONT(rst, Rst, QStringList, "rst", QString(""), QString("z"), QString("y"))
    CONT(rby, Rby, QByteArrayList, "rby", QByteArray("\0", 1), QByteArray(), QByteArray("\1", 1))
    CONT(ren, Ren, KindGadget::KindRepeated, "ren", KindGadget::K0, KindGadget::K2, KindGadget::K1)
    CONT(rit, Rit, ItemRepeated, "ritData", cell(1), cell(2), cell(2))
    MAP(ms, Ms, Msg::MsEntry, "k", 1, "", 0)
    MAP(mi, Mi, Msg::MiEntry, 0, cell(2), -1, cell(1))
    MAP(ml, Ml, Msg::MlEntry, -5, "x", 5, "")
}

struct Slot { std::unique_ptr<Msg> m; QMap<QString, QPointer<QObject>> ext; };

int main()
{
    qRegisterProtobufTypes();
    fields();
    QTextStream in(stdin); in.setCodec("UTF-8");
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        QJsonObject fm = o["fm"].toObject();           // names of the specification -> declared fields
        const int n = o["n"].toInt(); g_var = o["var"].toInt();
        const bool end = o["look"].toString() == "end";   // look at the objects after the last command only: reading may create sub-messages
        int left = o["s"].toArray().size();
        std::vector<Slot> slot(n + 1);
        QJsonArray all; QString res = "ok";
        cell(1)->setV(10); cell(2)->setV(20); int gen = 0;
        auto attach = [&](int k, Msg *m) {
            slot[k].m.reset(m); slot[k].ext.clear();
            for (auto it = fm.begin(); it != fm.end(); ++it) {
                Field f = F[it.value().toString()]; QString key = it.key();
                f.con(*m, [=]() { g_ev->append(QJsonObject{{"s", k}, {"f", key}, {"v", f.get(*m)}}); });
            }
        };
        for (const auto &cv : o["s"].toArray()) {
            QJsonObject c = cv.toObject(); QString op = c["op"].toString(), fk = c["f"].toString();
            int k = c["k"].toInt(), j = c["j"].toInt(), v = c["v"].toInt(), eq = 2;
            Field f = fk.isEmpty() ? Field() : F[fm[fk].toString()];
            QJsonArray ev; g_ev = &ev;
            try {
                if (op == "new") attach(k, new Msg);
                else if (op == "newv") {
                    QSet<QString> on; for (auto x : fm) on << x.toString();
                    Msg d; for (auto &x : on) F[x].set(d, v);
                    if (fm.size() == 1 && on.contains("i32")) attach(k, new Msg(d.i32()));
                    else if (!on.contains("leaf")) attach(k, new Msg(d.i32(), d.i64(), d.u32(), d.u64(), d.s32(), d.s64(), d.f32(), d.f64(), d.sf32(), d.sf64(), d.bo(), d.fl(), d.db(), d.st(), d.by(), d.en(), d.inr(), d.sub(),
                                                     d.ri32(), d.rs64(), d.rf32(), d.rdb(), d.rst(), d.rby(), d.ren(), d.rit(), d.ms(), d.mi(), d.ml()));
                    else attach(k, new Msg(d.i32(), d.i64(), d.u32(), d.u64(), d.s32(), d.s64(), d.f32(), d.f64(), d.sf32(), d.sf64(), d.bo(), d.fl(), d.db(), d.st(), d.by(), d.en(), d.inr(), d.sub(),
                                       d.ri32(), d.rs64(), d.rf32(), d.rdb(), d.rst(), d.rby(), d.ren(), d.rit(), d.ms(), d.mi(), d.ml(), d.leaf()));
                }
                else if (op == "copy") attach(k, new Msg(*slot[j].m));
                else if (op == "var") { QVariant x = QVariant::fromValue(*slot[j].m); QVariant y = x; attach(k, new Msg(y.value<Msg>())); }
                else if (op == "move") attach(k, new Msg(std::move(*slot[j].m)));
                else if (op == "assign") { Msg &r = (*slot[k].m = *slot[j].m); if (&r != slot[k].m.get()) throw std::runtime_error("assignment returns another object"); }
                else if (op == "massign") { Msg &r = (*slot[k].m = std::move(*slot[j].m)); if (&r != slot[k].m.get()) throw std::runtime_error("assignment returns another object"); }
                else if (op == "eq") { bool e = *slot[k].m == *slot[j].m, d = *slot[k].m != *slot[j].m; eq = e == d ? 3 : e ? 1 : 0; }
                else if (op == "set") f.set(*slot[k].m, v);
                else if (op == "setp") f.setp(*slot[k].m, v);
                else if (op == "push") f.push(*slot[k].m);
                else if (op == "ptr") { f.ptr(*slot[k].m, v); slot[k].ext[fk] = slot[k].m->property(f.name.toLatin1()).value<QObject *>(); }
                else if (op == "ptrsame") f.same(*slot[k].m);
                else if (op == "in") f.in(*slot[k].m, v);
                else if (op == "ext") { for (auto x : slot[k].ext) delete x.data(); slot[k].ext.clear(); }
                else if (op == "share") slot[k].m->setProperty(f.name.toLatin1(), slot[j].m->property(f.name.toLatin1()));
                else if (op == "del") { slot[k].m.reset(); slot[k].ext.clear(); }
                else if (op == "cell") cell(v)->setV(10 * v + 100 * ++gen);
            } catch (const std::exception &x) { res = QString("exception ") + x.what(); }
            QJsonArray quiet; g_ev = &quiet;
            QJsonArray vals;
            if (--left == 0 || !end) for (int s = 1; s <= n; ++s) {
                QJsonArray one;
                if (slot[s].m) { QJsonObject x; for (auto it = fm.begin(); it != fm.end(); ++it) x[it.key()] = F[it.value().toString()].get(*slot[s].m); one.append(x); }
                vals.append(one);
            }
            all.append(QJsonObject{{"ev", ev}, {"v", vals}, {"eq", eq}});
        }
        QJsonArray quiet; g_ev = &quiet;
        slot.clear();
        o["o"] = all; o["r"] = res;
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
    }
    printf("END\n");
    return 0;
}
