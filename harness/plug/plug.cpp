// Serializer plugin for the registry check; built several times with different meta data.
#include <QObject>
#include "marker.h"
#include "qprotobufserializationplugininterface.h"
#include "qprotobufserializer.h"
class Ser : public QtProtobuf::QProtobufSerializer, public Marker {
public:
    Ser(const QString &id) : m_id(id) {}
    QString who() const override { return QString(PLUG_FILE) + ":" + m_id; }
    QString m_id;
};
#ifdef PLUG_FOREIGN
class Plug : public QObject { Q_OBJECT Q_PLUGIN_METADATA(IID "vp.foreign" FILE "meta.json") };
#else
class Plug : public QObject, QtProtobuf::QProtobufSerializationPluginInterface {
    Q_OBJECT
    Q_PLUGIN_METADATA(IID SerializatorInterface_iid FILE "meta.json")
    Q_INTERFACES(QtProtobuf::QProtobufSerializationPluginInterface)
public:
    std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> serializer(const QString &name) override
    {
        auto &s = m_all[name];
        if (!s) s.reset(new Ser(name));
        return s;
    }
    std::unordered_map<QString, std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer>> m_all;
};
#endif
#include "plug.moc"
