From 350e73b6362931bea8501be603a5c9ebe4454a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 01/49] fix: check length prefixes against the buffer before
 using them

Lengths were truncated to 32 bits and the bytes were copied before the
bounds check, so that a broken length read behind the end of the input.
---
 src/protobuf/qprotobufserializer.cpp |  5 ++---
 src/protobuf/qprotobufserializer_p.h | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab6a070..3404760 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -226,8 +226,7 @@ void QProtobufSerializerPrivate::skipVarint(QProtobufSelfcheckIterator &it)
 void QProtobufSerializerPrivate::skipLengthDelimited(QProtobufSelfcheckIterator &it)
 {
     //Get length of lenght-delimited field
-    uint32 length = QProtobufSerializerPrivate::deserializeVarintCommon<uint32>(it);
-    it += length;
+    it += QProtobufSerializerPrivate::deserializeLength(it);
 }
 
 int QProtobufSerializerPrivate::skipSerializedFieldBytes(QProtobufSelfcheckIterator &it, WireTypes type)
@@ -328,7 +327,7 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
 {
     int mapIndex = 0;
     WireTypes type = WireTypes::UnknownWireType;
-    unsigned int count = QProtobufSerializerPrivate::deserializeVarintCommon<uint32>(it);
+    int count = QProtobufSerializerPrivate::deserializeLength(it);
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 2f1e9df..d1c89b5 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -358,7 +358,7 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         QList<V> out;
-        unsigned int count = deserializeVarintCommon<uint32>(it);
+        int count = deserializeLength(it);
         QProtobufSelfcheckIterator lastVarint = it + count;
         while (it != lastVarint) {
             QVariant variantValue;
@@ -371,10 +371,21 @@ public:
     //###########################################################################
     //                             Common functions
     //###########################################################################
+    /*!
+     * \brief Reads length prefix and ensures that buffer contains required amount of bytes
+     */
+    static int deserializeLength(QProtobufSelfcheckIterator &it) {
+        uint64_t length = deserializeVarintCommon<uint64>(it);
+        if (length > static_cast<uint64_t>(it.size())) {
+            throw std::out_of_range("Container is less than required fields number. Deserialization failed");
+        }
+        return static_cast<int>(length);
+    }
+
     static QByteArray deserializeLengthDelimited(QProtobufSelfcheckIterator &it) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        unsigned int length = deserializeVarintCommon<uint32>(it);
+        int length = deserializeLength(it);
         QByteArray result((QByteArray::const_iterator&)it, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
         it += length;
         return result;
-- 
2.43.0


From 9aea99ba5ed8d8b6892d20151ff3661076680eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 02/49] fix: check that fixed-size values are complete before
 reading them

---
 src/protobuf/qprotobufserializer_p.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index d1c89b5..61ff2c6 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -303,6 +303,9 @@ public:
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
+        if (it.size() < static_cast<int>(sizeof(V))) {
+            throw std::out_of_range("Container is less than required fields number. Deserialization failed");
+        }
         variantValue = QVariant::fromValue(*(V *)((QByteArray::const_iterator&)it));
         it += sizeof(V);
     }
-- 
2.43.0


From b824be34f5c988a9341683cd6cfc0a6865b959a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 03/49] fix: reject varints of more than ten bytes

---
 src/protobuf/qprotobufserializer.cpp | 5 +----
 src/protobuf/qprotobufserializer_p.h | 6 ++++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 3404760..e5f3e11 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -217,10 +217,7 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
 
 void QProtobufSerializerPrivate::skipVarint(QProtobufSelfcheckIterator &it)
 {
-    while ((*it) & 0x80) {
-        ++it;
-    }
-    ++it;
+    QProtobufSerializerPrivate::deserializeVarintCommon<uint64>(it);
 }
 
 void QProtobufSerializerPrivate::skipLengthDelimited(QProtobufSelfcheckIterator &it)
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 61ff2c6..5ab8e4f 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -64,6 +64,9 @@ public:
         WireTypes type;/*!< Serialization WireType */
     };
 
+    //! \brief Maximum number of bytes that is used by varint
+    static constexpr int MaximumVarintSize = 10;
+
     using SerializerRegistry = std::unordered_map<int/*metatypeid*/, SerializationHandlers>;
 
     QProtobufSerializerPrivate(QProtobufSerializer *q);
@@ -281,6 +284,9 @@ public:
         V value = 0;
         int k = 0;
         while (true) {
+            if (k >= MaximumVarintSize * 7) {
+                throw std::invalid_argument("Varint is longer than 10 bytes. Deserialization failed");
+            }
             uint64_t byte = static_cast<uint64_t>(*it);
             value += (byte & 0b01111111) << k;
             k += 7;
-- 
2.43.0


From d4f1c0dbfbd70433743aac14a759923940101c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 04/49] fix: take any non-zero varint as true

The upper 32 bits of the value of a bool field were ignored.
---
 src/protobuf/qprotobufserializer.cpp | 2 +-
 src/protobuf/qprotobufserializer_p.h | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index e5f3e11..6e27386 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -194,7 +194,7 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
         wrapSerializer<fixed64, serializeBasic, deserializeBasic<fixed64>, Fixed64>();
         wrapSerializer<sfixed32, serializeBasic, deserializeBasic<sfixed32>, Fixed32>();
         wrapSerializer<sfixed64, serializeBasic, deserializeBasic<sfixed64>, Fixed64>();
-        wrapSerializer<bool, uint32, serializeBasic<uint32>, deserializeBasic<uint32>, Varint>();
+        wrapSerializer<bool, uint32, serializeBasic<uint32>, deserializeBool, Varint>();
         wrapSerializer<QString, serializeBasic, deserializeBasic<QString>, LengthDelimited>();
         wrapSerializer<QByteArray, serializeBasic, deserializeBasic<QByteArray>, LengthDelimited>();
 
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 5ab8e4f..82ee6ab 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -347,6 +347,10 @@ public:
         variantValue = QVariant::fromValue(value);
     }
 
+    static void deserializeBool(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
+        variantValue = QVariant::fromValue(deserializeVarintCommon<uint64>(it) != 0);
+    }
+
     //-----------------QString and QByteArray types deserializers----------------
     template <typename V,
               typename std::enable_if_t<std::is_same<QByteArray, V>::value, int> = 0>
-- 
2.43.0


From fa50a91e5c2b26c5e85b738563deac4850546f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 05/49] fix: keep strings intact that contain NUL or start with
 a byte order mark

---
 src/protobuf/qprotobufserializer.cpp |  3 +--
 src/protobuf/qprotobufserializer_p.h | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 6e27386..be1eb3b 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -67,8 +67,7 @@ void QProtobufSerializerPrivate::deserializeList<QString>(QProtobufSelfcheckIter
     qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
     QStringList list = previousValue.value<QStringList>();
-    QByteArray value = deserializeLengthDelimited(it);
-    list.append(QString::fromUtf8(value));
+    list.append(deserializeString(it));
     previousValue.setValue(list);
 }
 
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 82ee6ab..8b6c138 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -361,7 +361,7 @@ public:
     template <typename V,
               typename std::enable_if_t<std::is_same<QString, V>::value, int> = 0>
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
-        variantValue = QVariant::fromValue(QString::fromUtf8(deserializeLengthDelimited(it)));
+        variantValue = QVariant::fromValue(deserializeString(it));
     }
 
     //-------------------------List types deserializers--------------------------
@@ -404,6 +404,17 @@ public:
         return result;
     }
 
+    static QString deserializeString(QProtobufSelfcheckIterator &it) {
+        QByteArray data = deserializeLengthDelimited(it);
+        //Explicit size keeps everything after '\0' characters
+        QString result = QString::fromUtf8(data.constData(), data.size());
+        if (data.startsWith("\xEF\xBB\xBF")) {
+            //QString::fromUtf8 strips the byte order mark, but it's the part of the value
+            result.prepend(QChar(QChar::ByteOrderMark));
+        }
+        return result;
+    }
+
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
         qProtoDebug() << __func__ << "data.size" << data.size() << "data" << data.toHex();
         QByteArray result(data);
-- 
2.43.0


From d4c6de167d3da333f18355b6238cecaded18dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:12 +0000
Subject: [PATCH 06/49] fix: append packed blocks to a repeated field instead
 of replacing it

---
 src/protobuf/qprotobufserializer_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 8b6c138..f33302e 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -370,7 +370,7 @@ public:
     static void deserializeList(QProtobufSelfcheckIterator &it, QVariant &previousValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        QList<V> out;
+        QList<V> out = previousValue.value<QList<V>>();
         int count = deserializeLength(it);
         QProtobufSelfcheckIterator lastVarint = it + count;
         while (it != lastVarint) {
-- 
2.43.0


From 8b90e4324b0b849667ad3d73120beb0d61ab02d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:40 +0000
Subject: [PATCH 07/49] fix: merge repeated occurrences of a singular message
 field

The last occurrence replaced all others. The object also leaked if its content was rejected.
---
 src/protobuf/qabstractprotobufserializer_p.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index ee47fc6..96658da 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -29,6 +29,7 @@
 #include <QVariant>
 #include <QMetaObject>
 #include <QMetaEnum>
+#include <QScopedPointer>
 
 #include <functional>
 
@@ -175,9 +176,11 @@ template <typename T,
           typename std::enable_if_t<std::is_base_of<QObject, T>::value, int> = 0>
 void deserializeObject(const QtProtobuf::QAbstractProtobufSerializer *serializer, QtProtobuf::QProtobufSelfcheckIterator &it, QVariant &to) {
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
-    T *value = new T;
-    serializer->deserializeObject(value, T::protobufMetaObject, it);
-    to = QVariant::fromValue<T *>(value);
+    //Message that occurs more than once has to be merged with the previous occurrence
+    T *previous = to.value<T *>();
+    QScopedPointer<T> value(previous != nullptr ? new T(*previous) : new T);
+    serializer->deserializeObject(value.data(), T::protobufMetaObject, it);
+    to = QVariant::fromValue<T *>(value.take());
 }
 
 /*!
-- 
2.43.0


From aa36f9bb8726a8f977dc59df44c214dd89045dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:40 +0000
Subject: [PATCH 08/49] fix: do not leak the list element if its content is
 rejected

---
 src/protobuf/qabstractprotobufserializer_p.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index 96658da..584c5b6 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -193,10 +193,10 @@ void deserializeList(const QtProtobuf::QAbstractProtobufSerializer *serializer,
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
     qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-    V *newValue = new V;
+    QSharedPointer<V> newValue(new V);
     QList<QSharedPointer<V>> list = previous.value<QList<QSharedPointer<V>>>();
-    if (serializer->deserializeListObject(newValue, V::protobufMetaObject, it)) {
-        list.append(QSharedPointer<V>(newValue));
+    if (serializer->deserializeListObject(newValue.data(), V::protobufMetaObject, it)) {
+        list.append(newValue);
         previous.setValue(list);
     }
 }
-- 
2.43.0


From 9ba2825f7a5d387e8d2c2ad80f51d2c5e058e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 09/49] fix: take a map entry without value as entry with
 default message

The map contained a null pointer instead and lost the entry when serialized again.
---
 src/protobuf/qabstractprotobufserializer_p.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index 584c5b6..e192bd6 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -239,7 +239,8 @@ void deserializeMap(const QtProtobuf::QAbstractProtobufSerializer *serializer, Q
     QVariant value = QVariant::fromValue<V *>(nullptr);
 
     if (serializer->deserializeMapPair(key, value, it)) {
-        out[key.value<K>()] = QSharedPointer<V>(value.value<V *>());
+        V *newValue = value.value<V *>();
+        out[key.value<K>()] = QSharedPointer<V>(newValue != nullptr ? newValue : new V);
         previous = QVariant::fromValue<QMap<K, QSharedPointer<V>>>(out);
     }
 }
-- 
2.43.0


From 063da799352fc4b54af4c536350ae905d33759b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 10/49] fix: check tags inside of map entries

The result of decodeHeader was ignored and every field but the key was taken for the value.
---
 src/protobuf/qprotobufserializer.cpp | 19 +++++++++++++++++--
 src/protobuf/qprotobufserializer_p.h |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index be1eb3b..1825846 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -250,6 +250,15 @@ int QProtobufSerializerPrivate::skipSerializedFieldBytes(QProtobufSelfcheckItera
 }
 
 
+WireTypes QProtobufSerializerPrivate::wireTypeOf(int userType)
+{
+    auto basicIt = handlers.find(userType);
+    if (basicIt != handlers.end()) {
+        return basicIt->second.type;
+    }
+    return (QMetaType::typeFlags(userType) & QMetaType::IsEnumeration) ? Varint : LengthDelimited;
+}
+
 QByteArray QProtobufSerializerPrivate::serializeProperty(const QVariant &propertyValue, const QProtobufMetaProperty &metaProperty)
 {
     qProtoDebug() << __func__ << "propertyValue" << propertyValue << "fieldIndex" << metaProperty.protoFieldIndex()
@@ -327,8 +336,14 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
-        QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type);
-        if (mapIndex == 1) {
+        if (!QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type)) {
+            throw std::invalid_argument("Map entry received doesn't contain valid header byte. "
+                                        "Seems stream is broken");
+        }
+        const int expectedType = mapIndex == 1 ? key.userType() : value.userType();
+        if (mapIndex > 2 || type != wireTypeOf(expectedType)) {
+            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
+        } else if (mapIndex == 1) {
             //Only simple types are supported as keys
             int userType = key.userType();
             auto &handler = handlers.at(userType);//throws if not found
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index f33302e..12b37e2 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -471,6 +471,8 @@ public:
 
     // this set of 3 methods is used to skip bytes corresponding to an unexpected property
     // in a serialized message met while the message being deserialized
+    // wire type that is used to serialize values of \a userType
+    static WireTypes wireTypeOf(int userType);
     static int skipSerializedFieldBytes(QProtobufSelfcheckIterator &it, WireTypes type);
     static void skipVarint(QProtobufSelfcheckIterator &it);
     static void skipLengthDelimited(QProtobufSelfcheckIterator &it);
-- 
2.43.0


From 07ced326ff6565025b0b550c0fd6e8aa2cfb7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 11/49] fix: skip fields whose wire type is not the one of the
 property

The content of such field was taken for the property value and the rest of message was misinterpreted.
---
 src/protobuf/qprotobufserializer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 1825846..a9e386f 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -309,6 +309,13 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
     int propertyIndex = propertyNumberIt->second;
     QMetaProperty metaProperty = metaObject.staticMetaObject.property(propertyIndex);
 
+    if (wireType != wireTypeOf(metaProperty.userType())) {
+        auto bytesCount = QProtobufSerializerPrivate::skipSerializedFieldBytes(it, wireType);
+        qProtoWarning() << "Message received contains field of unexpected type. WireType:" << wireType
+                        << ", field number: " << fieldNumber << "Skipped:" << (bytesCount + 1) << "bytes";
+        return;
+    }
+
     qProtoDebug() << __func__ << " wireType: " << wireType << " metaProperty: " << metaProperty.typeName()
                   << "currentByte:" << QString::number((*it), 16);
 
-- 
2.43.0


From 688a39db00954ce6f71e0a9b9341b1c4120bb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 12/49] fix: accept repeated scalars and enums that are not
 packed

---
 src/protobuf/qabstractprotobufserializer.h   |  2 +-
 src/protobuf/qabstractprotobufserializer_p.h |  3 +-
 src/protobuf/qprotobufserializer.cpp         | 32 ++++++++++++++++++++
 src/protobuf/qprotobufserializer_p.h         |  2 ++
 4 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer.h b/src/protobuf/qabstractprotobufserializer.h
index f8dfc0f..a9b6375 100644
--- a/src/protobuf/qabstractprotobufserializer.h
+++ b/src/protobuf/qabstractprotobufserializer.h
@@ -329,5 +329,5 @@ inline void qRegisterProtobufEnumType() {
     QtProtobufPrivate::registerHandler(qMetaTypeId<T>(), { QtProtobufPrivate::serializeEnum<T>,
                                                            QtProtobufPrivate::deserializeEnum<T>, QtProtobufPrivate::ObjectHandler });
     QtProtobufPrivate::registerHandler(qMetaTypeId<QList<T>>(), { QtProtobufPrivate::serializeEnumList<T>,
-                                                           QtProtobufPrivate::deserializeEnumList<T>, QtProtobufPrivate::ListHandler });
+                                                           QtProtobufPrivate::deserializeEnumList<T>, QtProtobufPrivate::EnumListHandler });
 }
diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index e192bd6..48d5509 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -56,7 +56,8 @@ using Deserializer = std::function<void(const QtProtobuf::QAbstractProtobufSeria
 enum HandlerType {
     ObjectHandler,
     ListHandler,
-    MapHandler
+    MapHandler,
+    EnumListHandler
 };
 
 /*!
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index a9e386f..5ecd584 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -259,6 +259,29 @@ WireTypes QProtobufSerializerPrivate::wireTypeOf(int userType)
     return (QMetaType::typeFlags(userType) & QMetaType::IsEnumeration) ? Varint : LengthDelimited;
 }
 
+WireTypes QProtobufSerializerPrivate::elementWireTypeOf(int userType)
+{
+    static const std::unordered_map<int, WireTypes> packedTypes = {
+        {qMetaTypeId<FloatList>(), Fixed32},
+        {qMetaTypeId<DoubleList>(), Fixed64},
+        {qMetaTypeId<fixed32List>(), Fixed32},
+        {qMetaTypeId<fixed64List>(), Fixed64},
+        {qMetaTypeId<sfixed32List>(), Fixed32},
+        {qMetaTypeId<sfixed64List>(), Fixed64},
+        {qMetaTypeId<int32List>(), Varint},
+        {qMetaTypeId<int64List>(), Varint},
+        {qMetaTypeId<sint32List>(), Varint},
+        {qMetaTypeId<sint64List>(), Varint},
+        {qMetaTypeId<uint32List>(), Varint},
+        {qMetaTypeId<uint64List>(), Varint}
+    };
+    auto it = packedTypes.find(userType);
+    if (it != packedTypes.end()) {
+        return it->second;
+    }
+    return QtProtobufPrivate::findHandler(userType).type == QtProtobufPrivate::EnumListHandler ? Varint : UnknownWireType;
+}
+
 QByteArray QProtobufSerializerPrivate::serializeProperty(const QVariant &propertyValue, const QProtobufMetaProperty &metaProperty)
 {
     qProtoDebug() << __func__ << "propertyValue" << propertyValue << "fieldIndex" << metaProperty.protoFieldIndex()
@@ -310,7 +333,16 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
     QMetaProperty metaProperty = metaObject.staticMetaObject.property(propertyIndex);
 
     if (wireType != wireTypeOf(metaProperty.userType())) {
+        const char *value = it.data();
         auto bytesCount = QProtobufSerializerPrivate::skipSerializedFieldBytes(it, wireType);
+        if (wireType == elementWireTypeOf(metaProperty.userType())) {
+            //Repeated field may be received unpacked, single value is same as packed block of it
+            QByteArray packed = QProtobufSerializerPrivate::encodeHeader(fieldNumber, LengthDelimited)
+                    + QProtobufSerializerPrivate::prependLengthDelimitedSize(QByteArray(value, bytesCount));
+            QProtobufSelfcheckIterator packedIt(packed);
+            deserializeProperty(object, metaObject, packedIt);
+            return;
+        }
         qProtoWarning() << "Message received contains field of unexpected type. WireType:" << wireType
                         << ", field number: " << fieldNumber << "Skipped:" << (bytesCount + 1) << "bytes";
         return;
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 12b37e2..ea89cbe 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -473,6 +473,8 @@ public:
     // in a serialized message met while the message being deserialized
     // wire type that is used to serialize values of \a userType
     static WireTypes wireTypeOf(int userType);
+    // wire type of unpacked elements if \a userType is list of scalars, UnknownWireType otherwise
+    static WireTypes elementWireTypeOf(int userType);
     static int skipSerializedFieldBytes(QProtobufSelfcheckIterator &it, WireTypes type);
     static void skipVarint(QProtobufSelfcheckIterator &it);
     static void skipLengthDelimited(QProtobufSelfcheckIterator &it);
-- 
2.43.0


From 57bae1e2092c2c9c36d3f6cc784270141d5f44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:12 +0000
Subject: [PATCH 13/49] fix: limit the nesting depth of received messages

Input of several kilobytes was enough to overflow the stack.
---
 src/protobuf/qprotobufserializer.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 5ecd584..e067051 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -71,6 +71,23 @@ void QProtobufSerializerPrivate::deserializeList<QString>(QProtobufSelfcheckIter
     previousValue.setValue(list);
 }
 
+namespace {
+//! \brief Limits nesting depth of received messages, to prevent stack overflow because of malicious data
+struct NestingGuard {
+    NestingGuard() {
+        if (depth >= MaximumDepth) {
+            throw std::invalid_argument("Message received is nested too deep. Deserialization failed");
+        }
+        ++depth;
+    }
+    ~NestingGuard() { --depth; }
+
+    static constexpr int MaximumDepth = 512;
+    static thread_local int depth;
+};
+thread_local int NestingGuard::depth = 0;
+}
+
 QProtobufSerializer::~QProtobufSerializer() = default;
 
 QProtobufSerializer::QProtobufSerializer() : dPtr(new QProtobufSerializerPrivate(this))
@@ -97,6 +114,7 @@ QByteArray QProtobufSerializer::serializeMessage(const QObject *object, const QP
 
 void QProtobufSerializer::deserializeMessage(QObject *object, const QProtobufMetaObject &metaObject, const QByteArray &data) const
 {
+    NestingGuard guard;
     for (QProtobufSelfcheckIterator it(data); it != data.end();) {
         dPtr->deserializeProperty(object, metaObject, it);
     }
-- 
2.43.0


From 8b58abe3179b2e856d8863971d75a1f80ad5e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:12 +0000
Subject: [PATCH 14/49] fix: do not dereference null when comparing lists and
 maps of messages

Comparison of maps with different keys crashed.
---
 src/protobuf/qtprotobuftypes.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index 0e5968d..b5c0259 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -283,7 +283,7 @@ bool repeatedValueCompare(const QList<QSharedPointer<T>>& a, const QList<QShared
     auto itA = std::begin(a);
     auto itB = std::begin(b);
     while (itA != std::end(a) && itB != std::end(b)) {
-        if (*itA != *itB && *(*itA) != *(*itB)) {
+        if (*itA != *itB && (itA->isNull() || itB->isNull() || *(*itA) != *(*itB))) {
             return false;
         }
         ++itA;
@@ -305,8 +305,12 @@ bool repeatedValueCompare(const QMap<K, QSharedPointer<V>>& a, const QMap<K, QSh
     }
 
     for (auto itA = a.keyValueBegin(); itA != a.keyValueEnd(); ++itA) {
-        if (b.value((*itA).first) != (*itA).second
-                && *(b.value((*itA).first)) != *((*itA).second)) {
+        auto itB = b.constFind((*itA).first);
+        if (itB == b.constEnd()) {
+            return false;
+        }
+        if (itB.value() != (*itA).second
+                && (itB.value().isNull() || (*itA).second.isNull() || *(itB.value()) != *((*itA).second))) {
             return false;
         }
     }
-- 
2.43.0


From 1a93b78aeefa4fc559f0e3fe5df67e5114697c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:12 +0000
Subject: [PATCH 15/49] fix: return from operators of the lazy message pointer

---
 src/protobuf/qprotobuflazymessagepointer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobuflazymessagepointer.h b/src/protobuf/qprotobuflazymessagepointer.h
index 0123f77..bd00c88 100644
--- a/src/protobuf/qprotobuflazymessagepointer.h
+++ b/src/protobuf/qprotobuflazymessagepointer.h
@@ -55,7 +55,7 @@ public:
         if (m_ptr == nullptr) {
             m_ptr.reset(new T);
         }
-        m_ptr.operator->();
+        return m_ptr.operator->();
     }
 
     T *get() const {
@@ -90,6 +90,7 @@ public:
     QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) : m_ptr(std::move(other.m_ptr)) {}
     QProtobufLazyMessagePointer &operator =(QProtobufLazyMessagePointer &&other) {
         m_ptr = std::move(other.m_ptr);
+        return *this;
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From 75053ece9708d1b441057be6af9b61eb293e13d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 16/49] fix: do not iterate over the list of streams that
 aborting them changes

---
 src/grpc/qabstractgrpcclient.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 66f8d7b..60e41fe 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -42,6 +42,14 @@ public:
     std::shared_ptr<QAbstractGrpcChannel> channel;
     const QString service;
     std::vector<QGrpcStreamShared> activeStreams;
+
+    void abortActiveStreams() {
+        //Every stream removes itself from activeStreams as soon as it is aborted
+        const auto streams = activeStreams;
+        for (const auto &stream : streams) {
+            stream->abort();
+        }
+    }
 };
 }
 
@@ -63,13 +71,9 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
                            "You have to be confident that channel routines are working in the same thread as QAbstractGrpcClient";
         throw std::runtime_error("Call from another thread");
     }
-    for (auto stream : dPtr->activeStreams) {
-        stream->abort();
-    }
+    dPtr->abortActiveStreams();
     dPtr->channel = channel;
-    for (auto stream : dPtr->activeStreams) {
-        stream->abort();
-    }
+    dPtr->abortActiveStreams();
 }
 
 QGrpcStatus QAbstractGrpcClient::call(const QString &method, const QByteArray &arg, QByteArray &ret)
-- 
2.43.0


From 065bc67a3a289193d80fae9c03c1a2d5dd18d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 17/49] fix: do not restart a stream that has finished

---
 src/grpc/qabstractgrpcclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 60e41fe..9419205 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -163,7 +163,7 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             //TODO: Make timeout configurable from channel settings
             QTimer::singleShot(1000, this, [this, weakStream, method = grpcStream->method()] {
                 auto stream = weakStream.lock();
-                if (stream) {
+                if (stream && std::find(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), stream) != std::end(dPtr->activeStreams)) {
                     dPtr->channel->stream(stream.get(), dPtr->service, this);
                 } else {
                     qProtoDebug() << "Stream for " << dPtr->service << "method" << method << " will not be restored by timeout.";
-- 
2.43.0


From a165ce97c7319b8672e64550b784694ed38b9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 18/49] fix: register a stream before the channel may finish it

---
 src/grpc/qabstractgrpcclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 9419205..aa6320e 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -186,8 +186,9 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             grpcStream.reset();
         });
 
-        dPtr->channel->stream(grpcStream.get(), dPtr->service, this);
+        //Channel may finish the stream immediately, so stream has to be known before
         dPtr->activeStreams.push_back(grpcStream);
+        dPtr->channel->stream(grpcStream.get(), dPtr->service, this);
     } else {
         error({QGrpcStatus::Unknown, QLatin1String("No channel(s) attached.")});
     }
-- 
2.43.0


From 96aa2089f4a1589663238baf7714304c499a4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 19/49] fix: allow to add stream handlers while a message is
 handled

---
 src/grpc/qgrpcstream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index d62f396..7fae4bf 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -73,7 +73,9 @@ public:
      */
     void handler(const QByteArray& data) {
         setData(data);
-        for (auto handler : m_handlers) {
+        //Handlers may be added while the message is handled
+        const auto handlers = m_handlers;
+        for (const auto &handler : handlers) {
             handler(data);
         }
         messageReceived();
-- 
2.43.0


From 2a586d6364d89ba597a89dcf78dfbcf021453d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 20/49] fix: do not report a completed call as aborted

---
 src/grpc/qgrpccallreply.cpp | 3 +++
 src/grpc/qgrpccallreply.h   | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpccallreply.cpp b/src/grpc/qgrpccallreply.cpp
index 094c08c..f810483 100644
--- a/src/grpc/qgrpccallreply.cpp
+++ b/src/grpc/qgrpccallreply.cpp
@@ -32,6 +32,9 @@ using namespace QtProtobuf;
 void QGrpcCallReply::abort()
 {
     auto abortFunc = [this]() {
+        if (m_completed) {
+            return; //Outcome of the call is reported already
+        }
         this->setData({});
         this->error({QGrpcStatus::StatusCode::Aborted, QLatin1String("Call aborted by user or timeout")});
     };
diff --git a/src/grpc/qgrpccallreply.h b/src/grpc/qgrpccallreply.h
index 0ff5666..e04234f 100644
--- a/src/grpc/qgrpccallreply.h
+++ b/src/grpc/qgrpccallreply.h
@@ -76,7 +76,10 @@ public:
 protected:
     //! \private
     QGrpcCallReply(QAbstractGrpcClient *parent) : QGrpcAsyncOperationBase(parent)
-    {}
+    {
+        QObject::connect(this, &QGrpcCallReply::finished, this, [this]() { m_completed = true; });
+        QObject::connect(this, &QGrpcCallReply::error, this, [this]() { m_completed = true; });
+    }
     //! \private
     ~QGrpcCallReply() = default;
 
@@ -86,5 +89,7 @@ private:
     Q_DISABLE_COPY_MOVE(QGrpcCallReply)
 
     friend class QAbstractGrpcClient;
+
+    bool m_completed = false;
 };
 }
-- 
2.43.0


From a8ed9efccfb2743d57480ad4d7c1e628cdd426d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 21/49] fix: do not touch calls and streams that were destroyed
 with their client

---
 src/grpc/qabstractgrpcclient.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index aa6320e..ccd3181 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -29,6 +29,7 @@
 #include "qgrpcstream.h"
 #include "qprotobufserializerregistry_p.h"
 
+#include <QPointer>
 #include <QTimer>
 #include <QThread>
 
@@ -55,6 +56,20 @@ public:
 
 using namespace QtProtobuf;
 
+namespace {
+//Operations are children of the client, so they might be destroyed by it before the last pointer is released
+template <typename T>
+std::shared_ptr<T> makeShared(T *operation)
+{
+    QPointer<T> guard(operation);
+    return std::shared_ptr<T>(operation, [guard](T *) {
+        if (!guard.isNull()) {
+            guard->deleteLater();
+        }
+    });
+}
+}
+
 QAbstractGrpcClient::QAbstractGrpcClient(const QString &service, QObject *parent) : QObject(parent)
   , dPtr(std::make_unique<QAbstractGrpcClientPrivate>(service))
 {
@@ -109,7 +124,7 @@ QGrpcCallReplyShared QAbstractGrpcClient::call(const QString &method, const QByt
                                       return call(method, arg);
                                   }, Qt::BlockingQueuedConnection, &reply);
     } else if (dPtr->channel) {
-        reply.reset(new QGrpcCallReply(this), [](QGrpcCallReply *reply) { reply->deleteLater(); });
+        reply = makeShared(new QGrpcCallReply(this));
 
         auto errorConnection = std::make_shared<QMetaObject::Connection>();
         auto finishedConnection = std::make_shared<QMetaObject::Connection>();
@@ -144,7 +159,7 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
                                       return stream(method, arg, handler);
                                   }, Qt::BlockingQueuedConnection, &grpcStream);
     } else if (dPtr->channel) {
-        grpcStream.reset(new QGrpcStream(method, arg, handler, this), [](QGrpcStream *stream) { stream->deleteLater(); });
+        grpcStream = makeShared(new QGrpcStream(method, arg, handler, this));
 
         auto it = std::find_if(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), [grpcStream](const QGrpcStreamShared &activeStream) {
            return *activeStream == *grpcStream;
-- 
2.43.0


From 5264d28d67d1d4b4c45f981540e859d1b6e75602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 22/49] fix: do not dereference the reply of a call that could
 not be made

---
 src/generator/templates.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 0e42834..83788e6 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -314,6 +314,9 @@ const char *Templates::ClientMethodDefinitionAsyncTemplate = "\nQtProtobuf::QGrp
 const char *Templates::ClientMethodDefinitionAsync2Template = "\nvoid $classname$::$method_name$(const $param_type$ &$param_name$, const QObject *context, const std::function<void(QGrpcCallReplyShared)> &callback)\n"
                                                               "{\n"
                                                               "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", $param_name$);\n"
+                                                              "    if (!reply) {\n"
+                                                              "        return; //Failure is reported by the error signal of client\n"
+                                                              "    }\n"
                                                               "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::finished, context, [reply, callback]() {\n"
                                                               "        callback(reply);\n"
                                                               "    });\n"
@@ -335,6 +338,9 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        return;\n"
                                                            "    }\n\n"
                                                            "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                           "    if (!reply) {\n"
+                                                           "        return; //Failure is reported by the error signal of client\n"
+                                                           "    }\n"
                                                            "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
@@ -360,6 +366,9 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        return;\n"
                                                             "    }\n\n"
                                                             "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                            "    if (!reply) {\n"
+                                                            "        return; //Failure is reported by the error signal of client\n"
+                                                            "    }\n"
                                                             "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
-- 
2.43.0


From 74c88018d2a668d92aefe2bf467be7607476e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 23/49] fix: do not take a response without valid grpc-status
 as success

---
 src/grpc/qgrpchttp2channel.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 5d02b15..826c03a 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -169,7 +169,13 @@ struct QGrpcHttp2ChannelPrivate {
         }
 
         //Check if server answer with error
-        statusCode = static_cast<QGrpcStatus::StatusCode>(networkReply->rawHeader(GrpcStatusHeader).toInt());
+        bool hasStatus = false;
+        statusCode = static_cast<QGrpcStatus::StatusCode>(networkReply->rawHeader(GrpcStatusHeader).toInt(&hasStatus));
+        if (!hasStatus) {
+            //Response is incomplete or is not a gRPC response
+            statusCode = QGrpcStatus::StatusCode::Unknown;
+            return {};
+        }
         if (statusCode != QGrpcStatus::StatusCode::Ok) {
             return {};
         }
-- 
2.43.0


From d83c04803902f03d545e4755cc077ad571dd535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:48 +0000
Subject: [PATCH 24/49] fix: deliver streamed messages whatever the chunks they
 arrive in

---
 src/grpc/qgrpchttp2channel.cpp | 54 ++++++++++++----------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 826c03a..6829f69 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -101,7 +101,6 @@ namespace QtProtobuf {
 struct QGrpcHttp2ChannelPrivate {
     //! \private
     struct ExpectedData {
-        int expectedSize;
         QByteArray container;
     };
 
@@ -198,8 +197,8 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static int getExpectedDataSize(const QByteArray &container) {
-        return qFromBigEndian(*reinterpret_cast<const int *>(container.data() + 1)) + GrpcMessageSizeHeaderSize;
+    static qint64 getExpectedDataSize(const QByteArray &container) {
+        return static_cast<qint64>(qFromBigEndian<quint32>(container.constData() + 1)) + GrpcMessageSizeHeaderSize;
     }
 };
 
@@ -284,42 +283,24 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> readConnection(new QMetaObject::Connection);
     *readConnection = QObject::connect(networkReply, &QNetworkReply::readyRead, grpcStream, [networkReply, grpcStream, this]() {
-        auto replyIt = dPtr->activeStreamReplies.find(networkReply);
-
         QByteArray data = networkReply->readAll();
         qProtoDebug() << "RECV" << data.size();
 
-        if (replyIt == dPtr->activeStreamReplies.end()) {
-            qProtoDebug() << data.toHex();
-            int expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
-            qProtoDebug() << "First chunk received: " << data.size() << " expectedDataSize: " << expectedDataSize;
-
-            if (expectedDataSize == 0) {
-                grpcStream->handler(QByteArray());
-                return;
-            }
-
-            QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{expectedDataSize, QByteArray{}};
-            replyIt = dPtr->activeStreamReplies.insert({networkReply, dataContainer}).first;
-        }
+        //Chunks do not respect boundaries of messages or their headers
+        dPtr->activeStreamReplies[networkReply].container.append(data);
 
-        QGrpcHttp2ChannelPrivate::ExpectedData &dataContainer = replyIt->second;
-        dataContainer.container.append(data);
-
-        qProtoDebug() << "Proceed chunk: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-        while (dataContainer.container.size() >= dataContainer.expectedSize && !networkReply->isFinished()) {
-            qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-            grpcStream->handler(dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize));
-            dataContainer.container.remove(0, dataContainer.expectedSize);
-            if (dataContainer.container.size() > GrpcMessageSizeHeaderSize) {
-                dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
-            } else if (dataContainer.container.size() > 0) {
-                qProtoWarning() << "Invalid container size received, size header is less than 5 bytes";
-            }
-        }
-
-        if (dataContainer.container.size() < GrpcMessageSizeHeaderSize || networkReply->isFinished()) {
-            dPtr->activeStreamReplies.erase(replyIt);
+        //Handlers may finish the stream, so container has to be looked up for every message
+        auto replyIt = dPtr->activeStreamReplies.find(networkReply);
+        while (replyIt != dPtr->activeStreamReplies.end()
+               && replyIt->second.container.size() >= GrpcMessageSizeHeaderSize
+               && replyIt->second.container.size() >= QGrpcHttp2ChannelPrivate::getExpectedDataSize(replyIt->second.container)) {
+            QByteArray &container = replyIt->second.container;
+            const int expectedDataSize = static_cast<int>(QGrpcHttp2ChannelPrivate::getExpectedDataSize(container));
+            qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << container.size() << " capacity: " << expectedDataSize;
+            const QByteArray message = container.mid(GrpcMessageSizeHeaderSize, expectedDataSize - GrpcMessageSizeHeaderSize);
+            container.remove(0, expectedDataSize);
+            grpcStream->handler(message);
+            replyIt = dPtr->activeStreamReplies.find(networkReply);
         }
     });
 
@@ -376,7 +357,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         }
     });
 
-    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection] {
+    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection, this] {
         if (*finishConnection) {
             QObject::disconnect(*finishConnection);
         }
@@ -386,6 +367,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         if (*abortConnection) {
             QObject::disconnect(*abortConnection);
         }
+        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
     });
-- 
2.43.0


From 1e94532e8e9313734bbaa10a4744880854d15b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:18 +0000
Subject: [PATCH 25/49] fix: do not take a truncated unary response as success

---
 src/grpc/qgrpchttp2channel.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 6829f69..278b69d 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -160,27 +160,32 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static QByteArray processReply(QNetworkReply *networkReply, QGrpcStatus::StatusCode &statusCode) {
+    static QGrpcStatus::StatusCode replyStatus(QNetworkReply *networkReply) {
         //Check if no network error occured
         if (networkReply->error() != QNetworkReply::NoError) {
-            statusCode = StatusCodeMap.at(networkReply->error());
-            return {};
+            return StatusCodeMap.at(networkReply->error());
         }
 
         //Check if server answer with error
         bool hasStatus = false;
-        statusCode = static_cast<QGrpcStatus::StatusCode>(networkReply->rawHeader(GrpcStatusHeader).toInt(&hasStatus));
-        if (!hasStatus) {
-            //Response is incomplete or is not a gRPC response
-            statusCode = QGrpcStatus::StatusCode::Unknown;
-            return {};
-        }
+        const int statusCode = networkReply->rawHeader(GrpcStatusHeader).toInt(&hasStatus);
+        //Response without status is incomplete or is not a gRPC response
+        return hasStatus ? static_cast<QGrpcStatus::StatusCode>(statusCode) : QGrpcStatus::StatusCode::Unknown;
+    }
+
+    static QByteArray processReply(QNetworkReply *networkReply, QGrpcStatus::StatusCode &statusCode) {
+        statusCode = replyStatus(networkReply);
         if (statusCode != QGrpcStatus::StatusCode::Ok) {
             return {};
         }
 
-        //Message size doesn't matter for now
-        return networkReply->readAll().mid(GrpcMessageSizeHeaderSize);
+        const QByteArray data = networkReply->readAll();
+        if (data.size() < GrpcMessageSizeHeaderSize || data.size() != getExpectedDataSize(data)) {
+            //Response is incomplete
+            statusCode = QGrpcStatus::StatusCode::Internal;
+            return {};
+        }
+        return data.mid(GrpcMessageSizeHeaderSize);
     }
 
     QGrpcHttp2ChannelPrivate(const QUrl &_url, std::unique_ptr<QAbstractGrpcCredentials> _credentials)
@@ -339,11 +344,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             stream(grpcStream, service, client);
             break;
         case QNetworkReply::NoError: {
-            // Reply is closed without network error, but may contain an unhandled data
-            // TODO: processReply returns the data, that might need the processing. It's should be taken into account in
-            // new HTTP/2 channel implementation.
-            QGrpcStatus::StatusCode grpcStatus;
-            QGrpcHttp2ChannelPrivate::processReply(networkReply, grpcStatus);
+            const QGrpcStatus::StatusCode grpcStatus = QGrpcHttp2ChannelPrivate::replyStatus(networkReply);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
                 grpcStream->error(QGrpcStatus{grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
             } else {
-- 
2.43.0


From 12e3c3de10192fc5c023927f72b6f2556ea8904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:18 +0000
Subject: [PATCH 26/49] fix: decode the percent-encoded status message

---
 src/grpc/qgrpchttp2channel.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 278b69d..d266208 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -173,6 +173,11 @@ struct QGrpcHttp2ChannelPrivate {
         return hasStatus ? static_cast<QGrpcStatus::StatusCode>(statusCode) : QGrpcStatus::StatusCode::Unknown;
     }
 
+    static QString replyStatusMessage(QNetworkReply *networkReply) {
+        //gRPC status message is percent-encoded
+        return QString::fromUtf8(QByteArray::fromPercentEncoding(networkReply->rawHeader(GrpcStatusMessage)));
+    }
+
     static QByteArray processReply(QNetworkReply *networkReply, QGrpcStatus::StatusCode &statusCode) {
         statusCode = replyStatus(networkReply);
         if (statusCode != QGrpcStatus::StatusCode::Ok) {
@@ -235,7 +240,7 @@ QGrpcStatus QGrpcHttp2Channel::call(const QString &method, const QString &servic
 
     networkReply->deleteLater();
     qProtoDebug() << __func__ << "RECV: " << ret.toHex() << "grpcStatus" << grpcStatus;
-    return {grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))};
+    return {grpcStatus, QGrpcHttp2ChannelPrivate::replyStatusMessage(networkReply)};
 }
 
 void QGrpcHttp2Channel::call(const QString &method, const QString &service, const QByteArray &args, QGrpcCallReply *reply)
@@ -261,7 +266,7 @@ void QGrpcHttp2Channel::call(const QString &method, const QString &service, cons
             reply->finished();
         } else {
             reply->setData({});
-            reply->error({grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+            reply->error({grpcStatus, QGrpcHttp2ChannelPrivate::replyStatusMessage(networkReply)});
         }
         networkReply->deleteLater();
     });
@@ -346,7 +351,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         case QNetworkReply::NoError: {
             const QGrpcStatus::StatusCode grpcStatus = QGrpcHttp2ChannelPrivate::replyStatus(networkReply);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
-                grpcStream->error(QGrpcStatus{grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+                grpcStream->error(QGrpcStatus{grpcStatus, QGrpcHttp2ChannelPrivate::replyStatusMessage(networkReply)});
             } else {
                 grpcStream->finished();
             }
-- 
2.43.0


From 1af7a20dd369aa5f9f7dd468845f45d8e32b794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:08 +0000
Subject: [PATCH 27/49] fix: cancel calls whose client is destroyed

---
 src/grpc/qgrpchttp2channel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index d266208..09abcdf 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -282,6 +282,9 @@ void QGrpcHttp2Channel::call(const QString &method, const QString &service, cons
             networkReply->deleteLater();
         }
     });
+
+    //Nobody waits for the response if reply is destroyed together with its client
+    QObject::connect(reply, &QObject::destroyed, networkReply, &QObject::deleteLater);
 }
 
 void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service, QAbstractGrpcClient *client)
-- 
2.43.0


From 0234cec3e3ebf807f27028a1d5320654866f3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 28/49] fix: finish native streams that the server completed

---
 src/grpc/qgrpcchannel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 01dcd00..9790730 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -289,6 +289,10 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         {
             stream->error(sub->status);
         }
+        else
+        {
+            stream->finished();
+        }
     });
 
     *abortConnection = QObject::connect(stream, &QGrpcStream::finished, sub.get(), [connection, abortConnection, readConnection, sub, clientConnection] {
-- 
2.43.0


From 29e9dbbbedbf409adff764f85c070c28efa1db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:22 +0000
Subject: [PATCH 29/49] fix: do not deliver messages of native streams that
 were aborted

---
 src/grpc/qgrpcchannel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 9790730..d588d4d 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -273,8 +273,11 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         [](QGrpcChannelStream * sub) { sub->deleteLater(); }
     );
 
-    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream](const QByteArray &data) {
-        stream->handler(data);
+    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream, readConnection](const QByteArray &data) {
+        //Messages that were queued before stream was finished should not be delivered
+        if (*readConnection) {
+            stream->handler(data);
+        }
     });
 
     *connection = QObject::connect(sub.get(), &QGrpcChannelStream::finished, stream, [sub, stream, readConnection, abortConnection, service, connection, clientConnection](){
-- 
2.43.0


From c5457c9afb3103bc7162609076ecaa5f70bc71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:29 +0000
Subject: [PATCH 30/49] fix: emit change signals for enum fields in move
 assignment

---
 src/generator/messagedefinitionprinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index e6f353d..7fcb0f1 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -302,7 +302,7 @@ void MessageDefinitionPrinter::printMoveSemantic()
                 mPrinter->Print(propertyMap, Templates::MoveFieldTemplate);
             }
             else {
-                mPrinter->Print(propertyMap, Templates::EnumMoveFieldTemplate);
+                mPrinter->Print(propertyMap, Templates::CopyFieldTemplate);
             }
         }
     });
-- 
2.43.0


From a8bf872c7617ad1710d3b2ab3b561ce8cae70556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:29 +0000
Subject: [PATCH 31/49] fix: report unknown plugins as std::out_of_range in
 getSerializer

---
 src/protobuf/qprotobufserializerregistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index ee1a06d..7ce5c45 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -191,7 +191,7 @@ std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSer
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id, const QString &plugin)
 {
-    return dPtr->m_plugins[plugin]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(plugin)->serializers.at(id); //throws
 }
 
 std::unique_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::acquireSerializer(const QString &/*id*/, const QString &/*plugin*/)
-- 
2.43.0


From 2dbfaef5d95250bd5e2e327e09b30182bfbd27b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:23 +0000
Subject: [PATCH 32/49] fix: restart QML GrpcStream when its properties change

---
 src/grpc/quick/qquickgrpcstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index ca670b9..74aeef6 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -50,6 +50,7 @@ QQuickGrpcStream::~QQuickGrpcStream()
 void QQuickGrpcStream::updateStream()
 {
     if (m_stream) {
+        disconnect(m_stream.get(), nullptr, this, nullptr); //The end of this stream should not disable the one that replaces it
         m_stream->abort();
         m_stream.reset();
     }
-- 
2.43.0


From 9c6fea7298d2dda0fa19f3895e568b383634dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 33/49] fix: do not use the stream of a destroyed client in QML
 GrpcStream

---
 src/grpc/quick/qquickgrpcstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index 74aeef6..2c23b0d 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -173,5 +173,8 @@ bool QQuickGrpcStream::stream()
 
     connect(m_stream.get(), &QGrpcStream::finished, this, [this](){ m_stream.reset(); setEnabled(false); });
 
+    //Client owns the stream and may be destroyed before
+    connect(m_stream.get(), &QObject::destroyed, this, [this](){ m_stream.reset(); });
+
     return true;
 }
-- 
2.43.0


From 5ea50a659795969efb6846c86c5378f3dcf58f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:24 +0000
Subject: [PATCH 34/49] fix: keep nanos of timestamps before the epoch
 non-negative

Timestamp(QDateTime) truncated towards zero, so that a date before 1970
had negative nanos, which google.protobuf.Timestamp does not allow.
---
 src/generator/messagedefinitionprinter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index 7fcb0f1..ab05bb0 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -118,9 +118,13 @@ void MessageDefinitionPrinter::printConstructors() {
 
     if (mDescriptor->full_name() == std::string("google.protobuf.Timestamp")) {
         mPrinter->Print("Timestamp::Timestamp(const QDateTime &datetime, QObject *parent) : QObject(parent)\n"
-                        ", m_seconds(datetime.toMSecsSinceEpoch() / 1000)\n"
-                        ", m_nanos((datetime.toMSecsSinceEpoch() % 1000) * 1000)\n"
-                        "{}\n"
+                        "{\n"
+                        "    // Fractions of a second count forward in time, also before the epoch\n"
+                        "    const qint64 msecs = datetime.toMSecsSinceEpoch();\n"
+                        "    const qint64 fraction = (msecs % 1000 + 1000) % 1000;\n"
+                        "    m_seconds = (msecs - fraction) / 1000;\n"
+                        "    m_nanos = static_cast<int>(fraction * 1000);\n"
+                        "}\n"
                         "Timestamp::operator QDateTime() const\n"
                         "{\n"
                         "    return QDateTime::fromMSecsSinceEpoch(m_seconds * 1000 + m_nanos / 1000);\n"
-- 
2.43.0


From aadd774d67330a6a4d967fbfb06f6de6485e7c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:28 +0000
Subject: [PATCH 35/49] fix: take elements of QML lists from their parent

Elements that are declared in QML, or created with a parent, were deleted
by the parent while other messages or C++ code still held them in shared
pointers.
---
 src/protobuf/qqmllistpropertyconstructor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protobuf/qqmllistpropertyconstructor.h b/src/protobuf/qqmllistpropertyconstructor.h
index c5638ea..21b3944 100644
--- a/src/protobuf/qqmllistpropertyconstructor.h
+++ b/src/protobuf/qqmllistpropertyconstructor.h
@@ -33,6 +33,7 @@ namespace QtProtobuf {
 template<typename T>
 static void qmllistpropertyAppend(QQmlListProperty<T> *p, T *v) {
     QQmlEngine::setObjectOwnership(v, QQmlEngine::CppOwnership);
+    v->setParent(nullptr); // the list owns the object, other messages may share it
     reinterpret_cast<QList<QSharedPointer<T>> *>(p->data)->append(QSharedPointer<T>(v));
 }
 
-- 
2.43.0


From 7301d44a8dcfe1e37f551fc1906a4006c2c54b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:13 +0000
Subject: [PATCH 36/49] fix: declare meta types of an enum once when several
 fields use it

---
 src/generator/messagedeclarationprinter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index e09dac2..76932b1 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -29,6 +29,7 @@
 #include "generatorcommon.h"
 
 #include <iostream>
+#include <set>
 #include <google/protobuf/descriptor.h>
 #include <google/protobuf/descriptor.pb.h>
 
@@ -190,9 +191,13 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
+    std::set<const EnumDescriptor *> declaredEnums; //Enum may be used by more than one field
     common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
         if (field->type() == FieldDescriptor::TYPE_ENUM
                 && common::isLocalEnum(field->enum_type(), mDescriptor)) {
+            if (!declaredEnums.insert(field->enum_type()).second) {
+                return;
+            }
             mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
             mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
         } else if (field->is_map()) {
-- 
2.43.0


From 0bffc8848c8649150aa9aec37c0de0a90a86b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:13 +0000
Subject: [PATCH 37/49] fix: include global enums after fields of nested
 message types

---
 src/generator/generatorbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/generatorbase.cpp b/src/generator/generatorbase.cpp
index 97b4c60..e1326a5 100644
--- a/src/generator/generatorbase.cpp
+++ b/src/generator/generatorbase.cpp
@@ -141,6 +141,7 @@ void GeneratorBase::printInclude(const std::shared_ptr<::google::protobuf::io::P
         common::EnumVisibility enumVisibily = common::enumVisibility(field->enum_type(), message);
         if (enumVisibily == common::GLOBAL_ENUM) {
             includeTemplate = Templates::GlobalEnumIncludeTemplate;
+            newInclude = "globalenums";
         } else if (enumVisibily == common::NEIGHBOR_ENUM) {
             includeTemplate = Templates::InternalIncludeTemplate;
             std::string fullEnumName = field->enum_type()->full_name();
-- 
2.43.0


From 4c9ec73117837c2f12e4415cc85b5e8684d6db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:31 +0000
Subject: [PATCH 38/49] fix: declare list types before recursive messages use
 them in multi-file mode

---
 src/generator/multifilegenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index 10d5952..0f47a45 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -83,6 +83,8 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
             headerPrinter->Print(Templates::QmlProtobufIncludesTemplate);
         }
 
+        messageDecl.printClassForwardDeclaration(); //Has to precede includes, since headers may include each other
+
         std::set<std::string> existingIncludes;
         for (int i = 0; i < message->field_count(); i++) {
             printInclude(headerPrinter, message, message->field(i), existingIncludes);
-- 
2.43.0


From 7f2ac3b0838a9d6253f54416bffd71517da6baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:54 +0000
Subject: [PATCH 39/49] fix: support repeated bool fields, for which the
 generator emits BoolList

---
 src/protobuf/qprotobufserializer.cpp | 2 ++
 src/protobuf/qtprotobuf.cpp          | 1 +
 src/protobuf/qtprotobuftypes.h       | 7 +++++++
 3 files changed, 10 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index e067051..5988f25 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -217,6 +217,7 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
 
         wrapSerializer<FloatList, serializeListType, deserializeList<float>, LengthDelimited>();
         wrapSerializer<DoubleList, serializeListType, deserializeList<double>, LengthDelimited>();
+        wrapSerializer<BoolList, serializeListType, deserializeList<bool>, LengthDelimited>();
         wrapSerializer<fixed32List, serializeListType, deserializeList<fixed32>, LengthDelimited>();
         wrapSerializer<fixed64List, serializeListType, deserializeList<fixed64>, LengthDelimited>();
         wrapSerializer<sfixed32List, serializeListType, deserializeList<sfixed32>, LengthDelimited>();
@@ -282,6 +283,7 @@ WireTypes QProtobufSerializerPrivate::elementWireTypeOf(int userType)
     static const std::unordered_map<int, WireTypes> packedTypes = {
         {qMetaTypeId<FloatList>(), Fixed32},
         {qMetaTypeId<DoubleList>(), Fixed64},
+        {qMetaTypeId<BoolList>(), Varint},
         {qMetaTypeId<fixed32List>(), Fixed32},
         {qMetaTypeId<fixed64List>(), Fixed64},
         {qMetaTypeId<sfixed32List>(), Fixed32},
diff --git a/src/protobuf/qtprotobuf.cpp b/src/protobuf/qtprotobuf.cpp
index ecdfa22..3380f0e 100644
--- a/src/protobuf/qtprotobuf.cpp
+++ b/src/protobuf/qtprotobuf.cpp
@@ -89,6 +89,7 @@ void qRegisterProtobufTypes() {
 
     registerProtobufType(DoubleList);
     registerProtobufType(FloatList);
+    registerProtobufType(BoolList);
 
     registerBasicConverters<int32>();
     registerBasicConverters<int64>();
diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index b5c0259..b3e17fc 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -252,6 +252,12 @@ using FloatList = QList<float>;
  */
 using DoubleList = QList<double>;
 
+/*!
+ * \ingroup QtProtobuf
+ * \brief alias for list of bool
+ */
+using BoolList = QList<bool>;
+
 /*!
  * \ingroup QtProtobuf
  * \brief qRegisterProtobufTypes
@@ -344,6 +350,7 @@ Q_DECLARE_METATYPE(QtProtobuf::sfixed64List)
 
 Q_DECLARE_METATYPE(QtProtobuf::FloatList)
 Q_DECLARE_METATYPE(QtProtobuf::DoubleList)
+Q_DECLARE_METATYPE(QtProtobuf::BoolList)
 
 namespace std {
 //! \private
-- 
2.43.0


From ef26c55b6c492052a00059985a4708399df80b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:42 +0000
Subject: [PATCH 40/49] fix: generate nested messages that no plain field of
 their parent uses

---
 src/generator/generatorcommon.cpp | 41 +++++--------------------------
 1 file changed, 6 insertions(+), 35 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index d0f953a..8631da1 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -27,6 +27,7 @@
 #include "generatoroptions.h"
 
 #include <assert.h>
+#include <google/protobuf/descriptor.pb.h>
 
 using namespace ::QtProtobuf::generator;
 using namespace ::google::protobuf;
@@ -436,33 +437,17 @@ void common::iterateNestedMessages(const ::google::protobuf::Descriptor *message
 {
     for (int i = 0; i < message->nested_type_count(); i++) {
         auto nestedMessage = message->nested_type(i);
-        if (message->field_count() <= 0) {
+        if (isNested(nestedMessage)) {
             callback(nestedMessage);
-            continue;
-        }
-        for (int j = 0; j < message->field_count(); j++) {
-            auto field = message->field(j);
-            if (!field->is_map() && field->message_type() == nestedMessage) { //Probably there is more correct way to detect map in nested messages.                                                                              //TODO: Have idea to make maps nested classes instead of typedefs.
-                callback(nestedMessage);
-                break;
-            }
         }
     }
 }
 
 bool common::hasNestedMessages(const ::google::protobuf::Descriptor *message)
 {
-    if (message->nested_type_count() > 0 && message->field_count() <= 0) {
-        return true;
-    }
-
     for (int i = 0; i < message->nested_type_count(); i++) {
-        auto nestedMessage = message->nested_type(i);
-        for (int j = 0; j < message->field_count(); j++) {
-            auto field = message->field(j);
-            if (!field->is_map() && field->message_type() == nestedMessage) { //Probably there is more correct way to detect map in nested messages.                                                                              //TODO: Have idea to make maps nested classes instead of typedefs.
-                return true;
-            }
+        if (isNested(message->nested_type(i))) {
+            return true;
         }
     }
 
@@ -471,22 +456,8 @@ bool common::hasNestedMessages(const ::google::protobuf::Descriptor *message)
 
 bool common::isNested(const ::google::protobuf::Descriptor *message)
 {
-    if (message->containing_type() == nullptr) {
-        return false;
-    }
-
-    auto containingType = message->containing_type();
-    bool isNested = true;
-
-    for (int i = 0; i < containingType->field_count(); i++) {
-        auto field = containingType->field(i);
-        if (field->message_type() == message) {
-            isNested = !field->is_map();
-            break;
-        }
-    }
-
-    return isNested;
+    //Entries of map fields are no messages of their own. TODO: Have idea to make maps nested classes instead of typedefs.
+    return message->containing_type() != nullptr && !message->options().map_entry();
 }
 
 const ::google::protobuf::Descriptor *common::findHighestMessage(const ::google::protobuf::Descriptor *message)
-- 
2.43.0


From 3cb1edfb8a5676cf71d237a23670f97cccf9eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:29 +0000
Subject: [PATCH 41/49] fix: include the header of the client in multi-file
 mode

---
 src/generator/multifilegenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index 0f47a45..9d05a1a 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -171,7 +171,7 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
         printDisclaimer(sourcePrinter);
         std::string includeFileName = service->name();
         utils::tolower(includeFileName);
-        sourcePrinter->Print({{"include", includeFileName}}, Templates::InternalIncludeTemplate);
+        sourcePrinter->Print({{"include", includeFileName + "client"}}, Templates::InternalIncludeTemplate);
         if (GeneratorOptions::instance().hasQml()) {
             sourcePrinter->Print({{"include", "QQmlEngine"}}, Templates::ExternalIncludeTemplate);
             sourcePrinter->Print({{"include", "QJSEngine"}}, Templates::ExternalIncludeTemplate);
-- 
2.43.0


From 0d9088866a7693d3e843a2cee9a9f4af413cd4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:29 +0000
Subject: [PATCH 42/49] fix: include messages of other packages by their path
 when only their enums are used

---
 src/generator/generatorbase.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/generator/generatorbase.cpp b/src/generator/generatorbase.cpp
index e1326a5..da32063 100644
--- a/src/generator/generatorbase.cpp
+++ b/src/generator/generatorbase.cpp
@@ -148,7 +148,13 @@ void GeneratorBase::printInclude(const std::shared_ptr<::google::protobuf::io::P
             std::vector<std::string> fullEnumNameParts = utils::split(fullEnumName, '.');
             std::string enumTypeOwner = fullEnumNameParts.at(fullEnumNameParts.size() - 2);
             utils::tolower(enumTypeOwner);
-            newInclude = enumTypeOwner;
+            std::string enumPackage = field->enum_type()->file()->package();
+            if (enumPackage != message->file()->package()) {
+                for (auto package : utils::split(enumPackage, '.')) {
+                    newInclude += package + "/";
+                }
+            }
+            newInclude += enumTypeOwner;
         } else {
             return;
         }
-- 
2.43.0


From e725d1a0f5c66cc1cfdfcd217935a48b6aed9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 43/49] fix: comments of .proto files may contain $ and */

---
 src/generator/baseprinter.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator/baseprinter.h b/src/generator/baseprinter.h
index 2b1917e..8fe7e3f 100644
--- a/src/generator/baseprinter.h
+++ b/src/generator/baseprinter.h
@@ -69,6 +69,8 @@ public:
         descriptor->GetSourceLocation(&loc);
 
         utils::trim(loc.leading_comments);
+        utils::replace(loc.leading_comments, "$", "$$"); //Escape variables delimiter of printer
+        utils::replace(loc.leading_comments, "*/", "* /"); //Comment should not be closed ahead of time
         if (loc.leading_comments.size() > 0) {
             auto firstEntry = loc.leading_comments.find('\n');
             bool isSingleLine = firstEntry == std::string::npos;
-- 
2.43.0


From d494e731bc8ec52c1a0d553ac60222861b6d85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:15 +0000
Subject: [PATCH 44/49] fix: extra namespace together with nested types and
 local enums

---
 src/generator/generatorcommon.cpp    | 29 +++++++++++++++++-----------
 src/generator/generatorcommon.h      |  3 ++-
 src/generator/multifilegenerator.cpp |  1 +
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 8631da1..3b4d1a2 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -32,6 +32,19 @@
 using namespace ::QtProtobuf::generator;
 using namespace ::google::protobuf;
 
+std::vector<std::string> common::withExtraNamespace(std::vector<std::string> namespaces)
+{
+    if (!GeneratorOptions::instance().extraNamespace().empty()) {
+        namespaces.insert(namespaces.begin(), GeneratorOptions::instance().extraNamespace());
+    }
+    return namespaces;
+}
+
+std::string common::getScopeString(const Descriptor *scope)
+{
+    return scope != nullptr ? getNamespacesString(withExtraNamespace(getNamespaces(scope)), "::") : "";
+}
+
 std::string common::getNamespacesString(const std::vector<std::string> &namespacesList, const std::string &separator)
 {
     std::string namespaces;
@@ -95,17 +108,14 @@ TypeMap common::produceQtTypeMap(const ::Descriptor *type, const Descriptor *sco
 
 TypeMap common::produceMessageTypeMap(const ::Descriptor *type, const Descriptor *scope)
 {
-    std::vector<std::string> namespaceList = getNamespaces(type);
-    if (!GeneratorOptions::instance().extraNamespace().empty()) {
-        namespaceList.insert(namespaceList.begin(), GeneratorOptions::instance().extraNamespace());
-    }
+    std::vector<std::string> namespaceList = withExtraNamespace(getNamespaces(type));
 
     std::vector<std::string> nestedNamespaceList = namespaceList;
     if(isNested(type)) {
-        nestedNamespaceList = getNestedNamespaces(type);
+        nestedNamespaceList = withExtraNamespace(getNestedNamespaces(type));
     }
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getNamespacesString(getNamespaces(scope), "::"));
+    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getScopeString(scope));
     std::string qmlPackage = getNamespacesString(namespaceList, ".");
 
     std::string name = utils::upperCaseName(type->name());
@@ -137,10 +147,7 @@ TypeMap common::produceMessageTypeMap(const ::Descriptor *type, const Descriptor
 TypeMap common::produceEnumTypeMap(const EnumDescriptor *type, const Descriptor *scope)
 {
     EnumVisibility visibility = enumVisibility(type, scope);
-    std::vector<std::string> namespaceList = getNamespaces(type);
-    if (!GeneratorOptions::instance().extraNamespace().empty()) {
-        namespaceList.insert(namespaceList.begin(), GeneratorOptions::instance().extraNamespace());
-    }
+    std::vector<std::string> namespaceList = withExtraNamespace(getNamespaces(type));
 
     std::string name = utils::upperCaseName(type->name());
     std::string qmlPackage = getNamespacesString(namespaceList, ".");//qml package should consist only from proto spackage
@@ -151,7 +158,7 @@ TypeMap common::produceEnumTypeMap(const EnumDescriptor *type, const Descriptor
     }
 
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getNamespacesString(getNamespaces(scope), "::"));
+    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getScopeString(scope));
 
     std::string fullName = namespaces.empty() ? name : (namespaces + "::" + name);
     std::string scopeName = scopeNamespaces.empty() ? name : (scopeNamespaces + "::" + name);
diff --git a/src/generator/generatorcommon.h b/src/generator/generatorcommon.h
index f8d1423..1c8ed2e 100644
--- a/src/generator/generatorcommon.h
+++ b/src/generator/generatorcommon.h
@@ -71,7 +71,8 @@ struct common {
         return namespaces;
     }
 
-
+    static std::vector<std::string> withExtraNamespace(std::vector<std::string> namespaces);
+    static std::string getScopeString(const ::google::protobuf::Descriptor *scope);
     static std::string getNamespacesString(const std::vector<std::string> &namespacesList, const std::string &separator);
     static std::string getScopeNamespacesString(std::string original, const std::string &scope);
     static TypeMap produceQtTypeMap(const ::google::protobuf::Descriptor *type, const ::google::protobuf::Descriptor *scope);
diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index 9d05a1a..a3f93db 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -126,6 +126,7 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
                 if (common::isNested(dependency)) {
                     namespaces = common::getNestedNamespaces(dependency);
                 }
+                namespaces = common::withExtraNamespace(namespaces);
                 printNamespaces(headerPrinter, namespaces);
                 headerPrinter->Print({{"classname", utils::upperCaseName(dependency->name())}}, Templates::ProtoClassForwardDeclarationTemplate);
                 headerPrinter->Print("\n");
-- 
2.43.0


From f176da9b1bb3c29bb0ef88997c0190d34460989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:15 +0000
Subject: [PATCH 45/49] fix: register enums of a message that none of its plain
 fields uses

---
 src/generator/messagedefinitionprinter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index ab05bb0..e21da32 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -75,11 +75,13 @@ void MessageDefinitionPrinter::printRegisterBody()
         mPrinter->Print(mTypeMap, Templates::QmlRegisterTypeTemplate);
     }
 
+    //Enums may be used by fields of other messages or as values of maps only, so register all of them
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        mPrinter->Print(common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor), Templates::RegisterLocalEnumTemplate);
+    }
+
     common::iterateMessageFields(mDescriptor, [this](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::RegisterLocalEnumTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             mPrinter->Print(propertyMap, Templates::RegisterMapTemplate);
         }
     });
-- 
2.43.0


From 4f5fd18bd97038ab0ead31a194ed2a1057111835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:28 +0000
Subject: [PATCH 46/49] fix: serialize enums declared in nested messages as
 enums

---
 src/protobuf/qabstractprotobufserializer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protobuf/qabstractprotobufserializer.h b/src/protobuf/qabstractprotobufserializer.h
index a9b6375..6fdf839 100644
--- a/src/protobuf/qabstractprotobufserializer.h
+++ b/src/protobuf/qabstractprotobufserializer.h
@@ -326,6 +326,9 @@ inline void qRegisterProtobufMapType() {
 template<typename T,
          typename std::enable_if_t<std::is_enum<T>::value, int> = 0>
 inline void qRegisterProtobufEnumType() {
+    //Properties look for enumeration using name of its class, that differs from declared one for nested messages
+    const QMetaEnum metaEnum = QMetaEnum::fromType<T>();
+    qRegisterMetaType<T>(QByteArray(metaEnum.scope()).append("::").append(metaEnum.name()).constData());
     QtProtobufPrivate::registerHandler(qMetaTypeId<T>(), { QtProtobufPrivate::serializeEnum<T>,
                                                            QtProtobufPrivate::deserializeEnum<T>, QtProtobufPrivate::ObjectHandler });
     QtProtobufPrivate::registerHandler(qMetaTypeId<QList<T>>(), { QtProtobufPrivate::serializeEnumList<T>,
-- 
2.43.0


From bfb2ae0d698e5917787b8f683f5e4c33398b8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:47 +0000
Subject: [PATCH 47/49] fix: decode enumerations of different messages that
 share a name

---
 src/protobuf/qprotobufserializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 5988f25..6a5864a 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -373,7 +373,8 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
 
     QVariant newPropertyValue;
     newPropertyValue = metaProperty.read(object);
-    int userType = metaProperty.userType();
+    //Enumerations of different messages may share the name used in property declaration, but not the type of value
+    int userType = newPropertyValue.userType();
 
     //TODO: replace with some common function
     auto basicIt = handlers.find(userType);
-- 
2.43.0


From 6cfaa5f181f438afa86c8d17f3df9cac33494451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:16 +0000
Subject: [PATCH 48/49] fix: name types in full where the message declares
 another type of that name

---
 src/generator/generatorcommon.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 3b4d1a2..2bf36cd 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -106,6 +106,26 @@ TypeMap common::produceQtTypeMap(const ::Descriptor *type, const Descriptor *sco
     };
 }
 
+//Checks if the name of type means something else inside of the scope
+static bool isHiddenBy(const Descriptor *type, const Descriptor *scope)
+{
+    if (scope == nullptr) {
+        return false;
+    }
+    const std::string name = utils::upperCaseName(type->name());
+    for (int i = 0; i < scope->nested_type_count(); i++) {
+        if (scope->nested_type(i) != type && utils::upperCaseName(scope->nested_type(i)->name()) == name) {
+            return true;
+        }
+    }
+    for (int i = 0; i < scope->enum_type_count(); i++) {
+        if (utils::upperCaseName(scope->enum_type(i)->name()) == name) {
+            return true;
+        }
+    }
+    return false;
+}
+
 TypeMap common::produceMessageTypeMap(const ::Descriptor *type, const Descriptor *scope)
 {
     std::vector<std::string> namespaceList = withExtraNamespace(getNamespaces(type));
@@ -115,7 +135,10 @@ TypeMap common::produceMessageTypeMap(const ::Descriptor *type, const Descriptor
         nestedNamespaceList = withExtraNamespace(getNestedNamespaces(type));
     }
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getScopeString(scope));
+    std::string scopeNamespaces = getNamespacesString(nestedNamespaceList, "::");
+    if (!isHiddenBy(type, scope)) {
+        scopeNamespaces = getScopeNamespacesString(scopeNamespaces, getScopeString(scope));
+    }
     std::string qmlPackage = getNamespacesString(namespaceList, ".");
 
     std::string name = utils::upperCaseName(type->name());
@@ -158,7 +181,10 @@ TypeMap common::produceEnumTypeMap(const EnumDescriptor *type, const Descriptor
     }
 
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getScopeString(scope));
+    std::string scopeNamespaces = namespaces;
+    if (type->containing_type() == nullptr || !isHiddenBy(type->containing_type(), scope)) {
+        scopeNamespaces = getScopeNamespacesString(namespaces, getScopeString(scope));
+    }
 
     std::string fullName = namespaces.empty() ? name : (namespaces + "::" + name);
     std::string scopeName = scopeNamespaces.empty() ? name : (scopeNamespaces + "::" + name);
-- 
2.43.0


From 96fb4b6e63f1769cf4deae35747a61094e6b033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:48 +0000
Subject: [PATCH 49/49] fix: include everything that nested messages use in
 multi-file mode

---
 src/generator/multifilegenerator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index a3f93db..7dd5900 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -86,9 +86,13 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
         messageDecl.printClassForwardDeclaration(); //Has to precede includes, since headers may include each other
 
         std::set<std::string> existingIncludes;
-        for (int i = 0; i < message->field_count(); i++) {
-            printInclude(headerPrinter, message, message->field(i), existingIncludes);
-        }
+        std::function<void(const ::google::protobuf::Descriptor *)> printIncludes = [&] (const ::google::protobuf::Descriptor *scope) {
+            for (int i = 0; i < scope->field_count(); i++) {
+                printInclude(headerPrinter, message, scope->field(i), existingIncludes);
+            }
+            common::iterateNestedMessages(scope, printIncludes);
+        };
+        printIncludes(message);
 
         auto deps = findNestedDependency(message);
 
-- 
2.43.0

