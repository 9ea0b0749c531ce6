#pragma once
#include "vjson.h"
#include <QTextCodec>
#include "wire.qpb.h"
#include "wire_messages.inc"
using namespace vp::wire;

template <typename T> struct Val<QList<T>> {
    static QJsonValue dump(const QList<T> &v) { QJsonArray r; for (const auto &e : v) r.append(Val<T>::dump(e)); return r; }
    static void load(QList<T> &v, const QJsonValue &j) { v.clear(); for (const auto &e : j.toArray()) { T x{}; Val<T>::load(x, e); v.append(x); } }
};
template <> struct Val<QStringList> : Val<QList<QString>> {
    static QJsonValue dump(const QStringList &v) { return Val<QList<QString>>::dump(v); }
    static void load(QStringList &v, const QJsonValue &j) { QList<QString> l; Val<QList<QString>>::load(l, j); v = QStringList(l); }
};
template <typename K, typename V> struct Val<QMap<K, V>> {
    static QJsonValue dump(const QMap<K, V> &v) { QJsonArray r; for (auto it = v.constBegin(); it != v.constEnd(); ++it) r.append(QJsonArray{Val<K>::dump(it.key()), Val<V>::dump(it.value())}); return r; }
    static void load(QMap<K, V> &v, const QJsonValue &j) { v.clear(); for (const auto &e : j.toArray()) { K k{}; V x{}; Val<K>::load(k, e.toArray().at(0)); Val<V>::load(x, e.toArray().at(1)); v.insert(k, x); } }
};

static inline bool isDefault(const QJsonValue &v) {
    for (const auto &e : v.toArray()) if (e.isArray() || e.toInt() != 0) return false;
    return true;
}
template <typename T, bool M = std::is_base_of<QObject, T>::value> struct Put { // singular scalar: zero bytes is the default
    static void put(QJsonArray &r, int n, const T &v) {
        QJsonValue j = Val<T>::dump(v);
        if (std::is_arithmetic<T>::value || std::is_enum<T>::value || std::is_convertible<T, qint64>::value || std::is_convertible<T, double>::value) { if (isDefault(j)) return; }
        else if (j.toArray().isEmpty()) return;
        r.append(QJsonArray{n, j});
    }
};
template <typename T> static void put(QJsonArray &r, int n, const T &v) { Put<T>::put(r, n, v); }
template <typename T> static void load(T &v, const QJsonValue &j) { Val<T>::load(v, j); }

#define DECLMSG(M) \
    static QJsonArray dumpMsg(const M &m); static void loadMsg(M &m, const QJsonArray &a); \
    template <> struct Val<M> { static QJsonValue dump(const M &m) { return dumpMsg(m); } static void load(M &m, const QJsonValue &j) { loadMsg(m, j.toArray()); } }; \
    template <> struct Val<QSharedPointer<M>> { \
        static QJsonValue dump(const QSharedPointer<M> &m) { return m.isNull() ? QJsonValue(QJsonArray{QJsonArray{-1, QJsonArray{}}}) : QJsonValue(dumpMsg(*m)); } \
        static void load(QSharedPointer<M> &m, const QJsonValue &j) { m.reset(new M); loadMsg(*m, j.toArray()); } }; \
    template <> struct Put<M, true> { static void put(QJsonArray &r, int n, const M &v) { QJsonArray a = dumpMsg(v); if (!a.isEmpty()) r.append(QJsonArray{n, a}); } };
VP_WIRE_MESSAGES(DECLMSG)
VP_WIRE_NESTED(DECLMSG)
#include "wire_access.inc"
