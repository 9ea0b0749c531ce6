// Qt value types as message fields: sets, serializes, parses, reads.  See spec/QtTypesTrace.tla.
#include <QtCore>
#include <QtGui>
#include "vjson.h"
#include "qt_types.inc"
#include <cstdio>
#include <iostream>
#include <string>
#include "qprotobufserializer.h"
#include "qprotobufserializerregistry_p.h"
#include "qtprotobufqttypes.h"
#include "qt.qpb.h"
using vp::qt::Holder;

static int I(const QJsonArray &c, int k) { return int(jsonToInt64(c.at(k))); }
static QByteArray S(const QJsonArray &c, int k) { return jsonToBytes(c.at(k)); }
static QString U(const QJsonArray &c, int k) { return QString::fromUtf8(S(c, k)); }
static double D(const QJsonArray &c, int k) { double v; std::memcpy(&v, S(c, k).constData(), 8); return v; }
static float F(const QJsonArray &c, int k) { float v; std::memcpy(&v, S(c, k).constData(), 4); return v; }
static void a(QJsonArray &r, qint64 v) { r.append(int64ToJson(v)); }
static void ad(QJsonArray &r, double v) { char b[8]; std::memcpy(b, &v, 8); r.append(bytesToJson(b, 8)); }
static void af(QJsonArray &r, float v) { char b[4]; std::memcpy(b, &v, 4); r.append(bytesToJson(b, 4)); }

template <typename T> struct Q;
template <> struct Q<QUrl> {
    static QUrl make(const QJsonArray &c) {
        QUrl u; u.setScheme(U(c, 0)); u.setUserName(U(c, 1)); u.setPassword(U(c, 2)); u.setHost(U(c, 3)); u.setPort(I(c, 4));
        u.setPath(U(c, 5), QUrl::TolerantMode); u.setQuery(U(c, 6)); u.setFragment(U(c, 7));
        return u.isValid() ? u : QUrl();
    }
    static QJsonArray dump(const QUrl &u) {
        QJsonArray r; const auto f = QUrl::FullyEncoded;
        for (const QString &s : {u.scheme(), u.userName(f), u.password(f), u.host(f), QString::number(u.port()), u.path(f), u.query(f), u.fragment(f)}) r.append(bytesToJson(s.toUtf8()));
        return r;
    }
};
template <> struct Q<QChar> {
    static QChar make(const QJsonArray &c) { return QChar(ushort(I(c, 0))); }
    static QJsonArray dump(QChar v) { QJsonArray r; a(r, v.unicode()); return r; }
};
template <> struct Q<QUuid> {
    static QUuid make(const QJsonArray &c) { QByteArray b; for (int k = 0; k < 16; ++k) b.append(char(I(c, k))); return QUuid::fromRfc4122(b); }
    static QJsonArray dump(const QUuid &v) { QJsonArray r; for (char x : v.toRfc4122()) a(r, static_cast<unsigned char>(x)); return r; }
};
template <> struct Q<QTime> {
    static QTime make(const QJsonArray &c) { return QTime(I(c, 0), I(c, 1), I(c, 2), I(c, 3)); }
    static QJsonArray dump(const QTime &v) { QJsonArray r; a(r, v.hour()); a(r, v.minute()); a(r, v.second()); a(r, v.msec()); return r; }
};
template <> struct Q<QDate> {
    static QDate make(const QJsonArray &c) { return QDate(I(c, 0), I(c, 1), I(c, 2)); }
    static QJsonArray dump(const QDate &v) { QJsonArray r; a(r, v.year()); a(r, v.month()); a(r, v.day()); return r; }
};
template <> struct Q<QDateTime> {
    static QDateTime make(const QJsonArray &c) { return QDateTime(QDate(I(c, 0), I(c, 1), I(c, 2)), QTime(I(c, 3), I(c, 4), I(c, 5), I(c, 6))); }
    static QJsonArray dump(const QDateTime &v) { QJsonArray r = Q<QDate>::dump(v.date()); for (const auto &x : Q<QTime>::dump(v.time())) r.append(x); return r; }
};
template <> struct Q<QSize> {
    static QSize make(const QJsonArray &c) { return QSize(I(c, 0), I(c, 1)); }
    static QJsonArray dump(const QSize &v) { QJsonArray r; a(r, v.width()); a(r, v.height()); return r; }
};
template <> struct Q<QSizeF> {
    static QSizeF make(const QJsonArray &c) { return QSizeF(D(c, 0), D(c, 1)); }
    static QJsonArray dump(const QSizeF &v) { QJsonArray r; ad(r, v.width()); ad(r, v.height()); return r; }
};
template <> struct Q<QPoint> {
    static QPoint make(const QJsonArray &c) { return QPoint(I(c, 0), I(c, 1)); }
    static QJsonArray dump(const QPoint &v) { QJsonArray r; a(r, v.x()); a(r, v.y()); return r; }
};
template <> struct Q<QPointF> {
    static QPointF make(const QJsonArray &c) { return QPointF(D(c, 0), D(c, 1)); }
    static QJsonArray dump(const QPointF &v) { QJsonArray r; ad(r, v.x()); ad(r, v.y()); return r; }
};
template <> struct Q<QRect> {
    static QRect make(const QJsonArray &c) { return QRect(I(c, 0), I(c, 1), I(c, 2), I(c, 3)); }
    static QJsonArray dump(const QRect &v) { QJsonArray r; a(r, v.x()); a(r, v.y()); a(r, v.width()); a(r, v.height()); return r; }
};
template <> struct Q<QRectF> {
    static QRectF make(const QJsonArray &c) { return QRectF(D(c, 0), D(c, 1), D(c, 2), D(c, 3)); }
    static QJsonArray dump(const QRectF &v) { QJsonArray r; ad(r, v.x()); ad(r, v.y()); ad(r, v.width()); ad(r, v.height()); return r; }
};
template <> struct Q<QPolygon> {
    static QPolygon make(const QJsonArray &c) { QPolygon p; for (int k = 0; k + 1 < c.size(); k += 2) p.append(QPoint(I(c, k), I(c, k + 1))); return p; }
    static QJsonArray dump(const QPolygon &v) { QJsonArray r; for (const auto &p : v) { a(r, p.x()); a(r, p.y()); } return r; }
};
template <> struct Q<QPolygonF> {
    static QPolygonF make(const QJsonArray &c) { QPolygonF p; for (int k = 0; k + 1 < c.size(); k += 2) p.append(QPointF(D(c, k), D(c, k + 1))); return p; }
    static QJsonArray dump(const QPolygonF &v) { QJsonArray r; for (const auto &p : v) { ad(r, p.x()); ad(r, p.y()); } return r; }
};
template <> struct Q<QColor> {
    static QColor make(const QJsonArray &c) { return QColor(I(c, 0), I(c, 1), I(c, 2), I(c, 3)); }
    static QJsonArray dump(const QColor &v) { QJsonArray r; a(r, v.red()); a(r, v.green()); a(r, v.blue()); a(r, v.alpha()); return r; }
};
template <> struct Q<QMatrix4x4> {
    static QMatrix4x4 make(const QJsonArray &c) { QMatrix4x4 m; for (int k = 0; k < 16; ++k) m(k / 4, k % 4) = F(c, k); return m; }
    static QJsonArray dump(const QMatrix4x4 &v) { QJsonArray r; for (int k = 0; k < 16; ++k) af(r, v(k / 4, k % 4)); return r; }
};
template <> struct Q<QVector2D> {
    static QVector2D make(const QJsonArray &c) { return QVector2D(F(c, 0), F(c, 1)); }
    static QJsonArray dump(const QVector2D &v) { QJsonArray r; af(r, v.x()); af(r, v.y()); return r; }
};
template <> struct Q<QVector3D> {
    static QVector3D make(const QJsonArray &c) { return QVector3D(F(c, 0), F(c, 1), F(c, 2)); }
    static QJsonArray dump(const QVector3D &v) { QJsonArray r; af(r, v.x()); af(r, v.y()); af(r, v.z()); return r; }
};
template <> struct Q<QVector4D> {
    static QVector4D make(const QJsonArray &c) { return QVector4D(F(c, 0), F(c, 1), F(c, 2), F(c, 3)); }
    static QJsonArray dump(const QVector4D &v) { QJsonArray r; af(r, v.x()); af(r, v.y()); af(r, v.z()); af(r, v.w()); return r; }
};
template <> struct Q<QTransform> {
    static QTransform make(const QJsonArray &c) { return QTransform(D(c, 0), D(c, 1), D(c, 2), D(c, 3), D(c, 4), D(c, 5), D(c, 6), D(c, 7), D(c, 8)); }
    static QJsonArray dump(const QTransform &v) { QJsonArray r; for (double x : {v.m11(), v.m12(), v.m13(), v.m21(), v.m22(), v.m23(), v.m31(), v.m32(), v.m33()}) ad(r, x); return r; }
};
template <> struct Q<QQuaternion> {
    static QQuaternion make(const QJsonArray &c) { return QQuaternion(F(c, 0), F(c, 1), F(c, 2), F(c, 3)); }
    static QJsonArray dump(const QQuaternion &v) { QJsonArray r; af(r, v.scalar()); af(r, v.x()); af(r, v.y()); af(r, v.z()); return r; }
};
template <> struct Q<QImage> {
    static QImage make(const QJsonArray &c) {
        const QImage::Format f[] = {QImage::Format_ARGB32, QImage::Format_RGB32, QImage::Format_Grayscale8, QImage::Format_RGB888, QImage::Format_Mono};
        QImage m(I(c, 1), I(c, 2), f[I(c, 0)]);
        if (m.format() == QImage::Format_Mono) { m.setColor(0, 0xff000000); m.setColor(1, 0xffffffff); }
        m.fill(0);
        quint32 x = quint32(I(c, 3)) * 2654435761u + 12345u;
        for (int y = 0; y < m.height(); ++y) for (int z = 0; z < m.width(); ++z) {
            x = x * 1664525u + 1013904223u;
            if (m.format() == QImage::Format_Mono) m.setPixel(z, y, x >> 31);
            else m.setPixel(z, y, m.format() == QImage::Format_Grayscale8 ? qRgb(x >> 24, x >> 24, x >> 24) : x);
        }
        return m;
    }
    static QJsonArray dump(const QImage &v) {
        QJsonArray r; a(r, v.width()); a(r, v.height()); QJsonArray px;
        for (int y = 0; y < v.height(); ++y) for (int z = 0; z < v.width(); ++z) { const QRgb p = v.pixel(z, y); for (int s : {24, 16, 8, 0}) px.append(int((p >> s) & 255)); }
        r.append(px); return r;
    }
};

static QtProtobuf::QAbstractProtobufSerializer &ser() { static auto s = QtProtobuf::QProtobufSerializerRegistry::instance().getSerializer("protobuf"); return *s; }
static QJsonArray others(const Holder &h, int n) {
    QJsonArray r;
#define OTHER(N, T) if (n != N) r.append(Q<T>::dump(h.f##N()));
    VP_QT_TYPES(OTHER)
    a(r, h.mark()); return r;
}
static void fill(Holder &h) {
    h.setF1(QUrl("ftp://x/y")); h.setF2(QChar('q')); h.setF3(QUuid("{12345678-1234-5678-9abc-def012345678}")); h.setF4(QTime(1, 2, 3, 4)); h.setF5(QDate(1999, 5, 6));
    h.setF6(QDateTime(QDate(2001, 7, 8), QTime(9, 10, 11, 12))); h.setF7(QSize(13, 14)); h.setF8(QSizeF(15.5, 16.5)); h.setF9(QPoint(17, 18)); h.setF10(QPointF(19.5, 20.5));
    h.setF11(QRect(21, 22, 23, 24)); h.setF12(QRectF(25.5, 26.5, 27.5, 28.5)); h.setF13(QPolygon({QPoint(29, 30)})); h.setF14(QPolygonF({QPointF(31.5, 32.5)}));
    h.setF15(QColor(33, 34, 35, 36)); h.setF16(QMatrix4x4(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)); h.setF17(QVector2D(37, 38)); h.setF18(QVector3D(39, 40, 41));
    h.setF19(QVector4D(42, 43, 44, 45)); h.setF20(QTransform(1, 2, 3, 4, 5, 6, 7, 8, 9)); h.setF21(QQuaternion(46, 47, 48, 49)); h.setMark(-50);
}
static QString parse(Holder &h, const QByteArray &b) {
    try { ser().deserialize(&h, b); return "ok"; } catch (const std::exception &) { return "ex"; } catch (...) { return "foreign"; }
}
static void varint(QByteArray &b, unsigned v) { while (v > 127) { b.append(char(v | 128)); v >>= 7; } b.append(char(v)); }

template <int N, typename T, typename Set, typename Get> static void run(const QJsonObject &in, QJsonObject &out, Set set, Get get) {
    Holder h, g; out["o1"] = others(g, N);
    if (in["op"] == QString("rt")) {
        fill(h); out["o1"] = others(h, N);
        set(h, Q<T>::make(in["c"].toArray())); out["c1"] = Q<T>::dump(get(h));
        const QByteArray w = ser().serialize<Holder>(&h);
        out["r"] = parse(g, w); out["w"] = bytesToJson(w);
    } else {
        QByteArray c = jsonToBytes(in["b"]), w; varint(w, (N << 3) | 2); varint(w, unsigned(c.size())); w.append(c); w.squeeze();
        out["r"] = parse(g, w); out["w"] = bytesToJson(ser().serialize<Holder>(&g));
    }
    out["c2"] = Q<T>::dump(get(g)); out["o2"] = others(g, N);
}

int main(int argc, char **argv) {
    QGuiApplication app(argc, argv);
    QtProtobuf::qRegisterProtobufTypes();
    QtProtobuf::qRegisterProtobufQtTypes();
    QLoggingCategory::setFilterRules("*=false");
    std::string line;
    while (std::getline(std::cin, line)) {
        const QJsonObject in = QJsonDocument::fromJson(QByteArray::fromStdString(line)).object();
        QJsonObject out = in;
        printf("BEGIN %d\n", in["i"].toInt()); fflush(stdout);
        const QString t = in["t"].toString();
#define RUN(N, T) if (t == #T) run<N, T>(in, out, [](Holder &h, const T &v) { h.setF##N(v); }, [](const Holder &h) { return h.f##N(); });
        VP_QT_TYPES(RUN)
        QByteArray o = QJsonDocument(out).toJson(QJsonDocument::Compact);
        fwrite(o.constData(), 1, o.size(), stdout); fputc('\n', stdout);
    }
    printf("END\n"); fflush(stdout);
    return 0;
}
