// Runs scenarios of spec/Serializers.tla on the serializer registry, each in a process of its own.
#include <QtCore>
#include <sys/wait.h>
#include <unistd.h>
#include "plug/marker.h"
#include "qprotobufserializerregistry_p.h"
#include "qprotobufserializer.h"
#include "qprotobufjsonserializer.h"
using namespace QtProtobuf;
static void run(const QJsonArray &s, int fd)
{
    auto &reg = QProtobufSerializerRegistry::instance();
    QJsonArray out; std::vector<std::shared_ptr<QAbstractProtobufSerializer>> keep;
    auto show = [&](std::shared_ptr<QAbstractProtobufSerializer> p) -> QJsonObject {
        if (!p) return {{"who", "null"}, {"tok", -1}};
        int tok = std::find(keep.begin(), keep.end(), p) - keep.begin();
        if (tok == int(keep.size())) keep.push_back(p);
        QString who = "other";
        if (auto m = dynamic_cast<Marker *>(p.get())) who = m->who();
        else if (dynamic_cast<QProtobufSerializer *>(p.get())) who = "Default:protobuf";
        else if (dynamic_cast<QProtobufJsonSerializer *>(p.get())) who = "Default:json";
        return {{"who", who}, {"tok", tok}};
    };
    for (const auto &v : s) {
        QJsonObject c = v.toObject(), o; QString op = c["op"].toString(), a = c["a"].toString(), b = c["b"].toString();
        o = {{"who", ""}, {"tok", -1}, {"name", ""}, {"info", QJsonArray()}};
        auto put = [&](const QJsonObject &x) { for (auto it = x.begin(); it != x.end(); ++it) o[it.key()] = it.value(); };
        try {
            if (op == "load") o["name"] = reg.loadPlugin(a);
            else if (op == "get") put(show(reg.getSerializer(a)));
            else if (op == "getp") put(show(reg.getSerializer(a, b)));
            else if (op == "info") o["info"] = QJsonArray{qRound(reg.pluginVersion(a) * 10), qRound(reg.pluginProtobufVersion(a) * 10), reg.pluginRating(a), reg.pluginSerializers(a).join(",")};
        } catch (const std::exception &) { o["who"] = "throw"; }
        out.append(o);
    }
    QByteArray r = QJsonDocument(out).toJson(QJsonDocument::Compact);
    if (write(fd, r.constData(), r.size()) != r.size()) _exit(9);
    keep.clear();
}
int main()
{
    QTextStream in(stdin);
    for (QString line = in.readLine(); !line.isNull(); line = in.readLine()) {
        QJsonObject o = QJsonDocument::fromJson(line.toUtf8()).object();
        if (o.isEmpty()) continue;
        printf("BEGIN %d\n", o["i"].toInt()); fflush(stdout);
        int p[2]; if (pipe(p)) return 4;
        pid_t pid = fork();
        if (!pid) { close(p[0]); alarm(30); fclose(stdin); if (!freopen("/dev/null", "w", stdout)) _exit(8); run(o["s"].toArray(), p[1]); exit(0); }
        close(p[1]);
        QByteArray all; char buf[4096]; for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) all.append(buf, n);
        close(p[0]);
        int st = 0; waitpid(pid, &st, 0);
        o["r"] = st == 0 ? "ok" : QString("the process ended with %1").arg(st);
        o["o"] = st == 0 ? QJsonDocument::fromJson(all).array() : QJsonArray();
        printf("%s\n", QJsonDocument(o).toJson(QJsonDocument::Compact).constData()); fflush(stdout);
    }
    printf("END\n");
    return 0;
}
