// Canonical JSON form of message values, shared with the specification (spec/Wire.tla):
//   integers, enums, bool: 8 bytes, little endian, sign extended;  float/double: 4/8 raw bytes (-0 as 0)
//   string/bytes: list of (UTF-8) bytes;  message: list of [field number, value] without default values
//   repeated: list of values;  map: list of [key, value]
#pragma once
#include <QtCore>
#include <cstring>
#include <type_traits>
#include "qtprotobuftypes.h"

static inline QJsonArray bytesToJson(const char *d, int n) { QJsonArray r; for (int i = 0; i < n; ++i) r.append(int(static_cast<unsigned char>(d[i]))); return r; }
static inline QJsonArray bytesToJson(const QByteArray &b) { return bytesToJson(b.constData(), b.size()); }
static inline QByteArray jsonToBytes(const QJsonValue &v) { QByteArray r; for (const auto &e : v.toArray()) r.append(char(e.toInt())); return r; }
static inline QJsonArray int64ToJson(qint64 v) { char b[8]; std::memcpy(b, &v, 8); return bytesToJson(b, 8); }
static inline qint64 jsonToInt64(const QJsonValue &v) { QByteArray b = jsonToBytes(v); qint64 r = 0; std::memcpy(&r, b.constData(), qMin(8, b.size())); return r; }

template <typename T, typename = void> struct Val;
template <typename T> struct Val<T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value>> {
    static QJsonValue dump(const T &v) { return int64ToJson(static_cast<qint64>(v)); }
    static void load(T &v, const QJsonValue &j) { v = static_cast<T>(jsonToInt64(j)); }
};
template <typename T, int N> struct Val<QtProtobuf::transparent<T, N>> {
    static QJsonValue dump(const QtProtobuf::transparent<T, N> &v) { return int64ToJson(static_cast<qint64>(v._t)); }
    static void load(QtProtobuf::transparent<T, N> &v, const QJsonValue &j) { v._t = static_cast<T>(jsonToInt64(j)); }
};
template <typename T> struct Val<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static QJsonValue dump(T v) { if (v == T(0)) v = T(0); char b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); if (v == T(0)) std::memset(b, 0, sizeof(T)); return bytesToJson(b, sizeof(T)); }
    static void load(T &v, const QJsonValue &j) { QByteArray b = jsonToBytes(j); std::memcpy(&v, b.constData(), sizeof(T)); }
};
template <> struct Val<QString> {
    static QJsonValue dump(const QString &v) { return bytesToJson(v.toUtf8()); }
    static void load(QString &v, const QJsonValue &j) { // byte exact, BOM kept
        QByteArray b = jsonToBytes(j); QTextCodec::ConverterState st(QTextCodec::IgnoreHeader);
        v = QTextCodec::codecForMib(106)->toUnicode(b.constData(), b.size(), &st);
    }
};
template <> struct Val<QByteArray> {
    static QJsonValue dump(const QByteArray &v) { return bytesToJson(v); }
    static void load(QByteArray &v, const QJsonValue &j) { v = jsonToBytes(j); }
};
