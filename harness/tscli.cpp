// google.protobuf.Timestamp and QDateTime.  See spec/TimestampTrace.tla.
#include <QtCore>
#include <cstdio>
#include <iostream>
#include <string>
#include "qprotobufserializer.h"
#include "qprotobufserializerregistry_p.h"
#include "google/protobuf/timestamp.qpb.h"
using google::protobuf::Timestamp;
static const qint64 DAY = 86400000;
static qint64 fdiv(qint64 a, qint64 b) { qint64 q = a / b; return a % b < 0 ? q - 1 : q; }
static QJsonArray inst(qint64 ms) { const qint64 d = fdiv(ms, DAY); return {int(d), int(ms - d * DAY)}; }
static QJsonArray stamp(const Timestamp &t) { const qint64 s = t.seconds(), d = fdiv(s, 86400); return {int(d), int(s - d * 86400), int(t.nanos())}; }
int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    QtProtobuf::qRegisterProtobufTypes();
    QLoggingCategory::setFilterRules("*=false");
    auto ser = QtProtobuf::QProtobufSerializerRegistry::instance().getSerializer("protobuf");
    std::string line;
    while (std::getline(std::cin, line)) {
        const QJsonObject in = QJsonDocument::fromJson(QByteArray::fromStdString(line)).object();
        QJsonObject out = in;
        printf("BEGIN %d\n", in["i"].toInt()); fflush(stdout);
        if (in["op"].toString() == "dt") {
            const QJsonArray x = in["x"].toArray(); const qint64 ms = x.at(0).toInt() * DAY + x.at(1).toInt();
            const QString z = in["zone"].toString();
            QDateTime dt = z == "utc" ? QDateTime::fromMSecsSinceEpoch(ms, Qt::UTC) : z == "local" ? QDateTime::fromMSecsSinceEpoch(ms)
                : z == "plus" ? QDateTime::fromMSecsSinceEpoch(ms, Qt::OffsetFromUTC, 19800) : z == "minus" ? QDateTime::fromMSecsSinceEpoch(ms, Qt::OffsetFromUTC, -12600)
                : QDateTime::fromMSecsSinceEpoch(ms, QTimeZone("Europe/Berlin").isValid() ? QTimeZone("Europe/Berlin") : QTimeZone(3600));
            Timestamp t(dt), u; out["got"] = stamp(t);
            ser->deserialize(&u, ser->serialize<Timestamp>(&t)); out["got2"] = stamp(u);
            out["back"] = inst(QDateTime(u).toMSecsSinceEpoch());
        } else {
            const QJsonArray s = in["ts"].toArray();
            Timestamp t; t.setSeconds(QtProtobuf::int64(s.at(0).toInt() * qint64(86400) + s.at(1).toInt())); t.setNanos(QtProtobuf::int32(s.at(2).toInt()));
            const QDateTime dt = t; out["back"] = inst(dt.toMSecsSinceEpoch()); out["got"] = stamp(Timestamp(dt));
        }
        out["r"] = "ok";
        const QByteArray o = QJsonDocument(out).toJson(QJsonDocument::Compact);
        fwrite(o.constData(), 1, o.size(), stdout); fputc('\n', stdout);
    }
    printf("END\n"); fflush(stdout);
    return 0;
}
