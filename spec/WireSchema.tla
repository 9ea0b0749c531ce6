---------------------------- MODULE WireSchema ----------------------------
(* generated by lib/mkschema.py: the message types of harness/proto/wire.proto.
   k: one | rep | map;  t: element/value type;  key: key type of a map *)
EXTENDS TLC

MsgTypes == {"Scalars", "Repeats", "Leaf", "Outer", "Mid", "Maps", "Numbers", "Node", "Nothing", "Kinds", "Others"}

QtSeq == <<"QUrl", "QChar", "QUuid", "QTime", "QDate", "QDateTime", "QSize", "QSizeF", "QPoint", "QPointF", "QRect", "QRectF", "QPolygon", "QPolygonF", "QColor", "QMatrix4x4", "QVector2D", "QVector3D", "QVector4D", "QTransform", "QQuaternion", "QImage">>

Scalars_ == 1 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    2 :> [k |-> "one", t |-> "int64", key |-> ""] @@
    3 :> [k |-> "one", t |-> "uint32", key |-> ""] @@
    4 :> [k |-> "one", t |-> "uint64", key |-> ""] @@
    5 :> [k |-> "one", t |-> "sint32", key |-> ""] @@
    6 :> [k |-> "one", t |-> "sint64", key |-> ""] @@
    7 :> [k |-> "one", t |-> "fixed32", key |-> ""] @@
    8 :> [k |-> "one", t |-> "fixed64", key |-> ""] @@
    9 :> [k |-> "one", t |-> "sfixed32", key |-> ""] @@
    10 :> [k |-> "one", t |-> "sfixed64", key |-> ""] @@
    11 :> [k |-> "one", t |-> "float", key |-> ""] @@
    12 :> [k |-> "one", t |-> "double", key |-> ""] @@
    13 :> [k |-> "one", t |-> "bool", key |-> ""] @@
    14 :> [k |-> "one", t |-> "string", key |-> ""] @@
    15 :> [k |-> "one", t |-> "bytes", key |-> ""] @@
    16 :> [k |-> "one", t |-> "Color", key |-> ""]
Repeats_ == 1 :> [k |-> "rep", t |-> "int32", key |-> ""] @@
    2 :> [k |-> "rep", t |-> "int64", key |-> ""] @@
    3 :> [k |-> "rep", t |-> "uint32", key |-> ""] @@
    4 :> [k |-> "rep", t |-> "uint64", key |-> ""] @@
    5 :> [k |-> "rep", t |-> "sint32", key |-> ""] @@
    6 :> [k |-> "rep", t |-> "sint64", key |-> ""] @@
    7 :> [k |-> "rep", t |-> "fixed32", key |-> ""] @@
    8 :> [k |-> "rep", t |-> "fixed64", key |-> ""] @@
    9 :> [k |-> "rep", t |-> "sfixed32", key |-> ""] @@
    10 :> [k |-> "rep", t |-> "sfixed64", key |-> ""] @@
    11 :> [k |-> "rep", t |-> "float", key |-> ""] @@
    12 :> [k |-> "rep", t |-> "double", key |-> ""] @@
    13 :> [k |-> "rep", t |-> "bool", key |-> ""] @@
    14 :> [k |-> "rep", t |-> "string", key |-> ""] @@
    15 :> [k |-> "rep", t |-> "bytes", key |-> ""] @@
    16 :> [k |-> "rep", t |-> "Color", key |-> ""] @@
    17 :> [k |-> "rep", t |-> "Leaf", key |-> ""]
Leaf_ == 1 :> [k |-> "one", t |-> "sint32", key |-> ""] @@
    2 :> [k |-> "one", t |-> "string", key |-> ""] @@
    3 :> [k |-> "rep", t |-> "uint32", key |-> ""]
Outer_ == 1 :> [k |-> "one", t |-> "Leaf", key |-> ""] @@
    2 :> [k |-> "one", t |-> "Mid", key |-> ""] @@
    3 :> [k |-> "one", t |-> "int32", key |-> ""]
Mid_ == 1 :> [k |-> "one", t |-> "Leaf", key |-> ""] @@
    2 :> [k |-> "rep", t |-> "Leaf", key |-> ""] @@
    3 :> [k |-> "map", t |-> "Leaf", key |-> "int32"] @@
    4 :> [k |-> "one", t |-> "uint64", key |-> ""]
Maps_ == 1 :> [k |-> "map", t |-> "string", key |-> "int32"] @@
    2 :> [k |-> "map", t |-> "int64", key |-> "int64"] @@
    3 :> [k |-> "map", t |-> "uint32", key |-> "uint32"] @@
    4 :> [k |-> "map", t |-> "bytes", key |-> "uint64"] @@
    5 :> [k |-> "map", t |-> "sint64", key |-> "sint32"] @@
    6 :> [k |-> "map", t |-> "double", key |-> "sint64"] @@
    7 :> [k |-> "map", t |-> "fixed64", key |-> "fixed32"] @@
    8 :> [k |-> "map", t |-> "fixed32", key |-> "fixed64"] @@
    9 :> [k |-> "map", t |-> "sfixed64", key |-> "sfixed32"] @@
    10 :> [k |-> "map", t |-> "sfixed32", key |-> "sfixed64"] @@
    11 :> [k |-> "map", t |-> "int32", key |-> "bool"] @@
    12 :> [k |-> "map", t |-> "Leaf", key |-> "string"] @@
    13 :> [k |-> "map", t |-> "Color", key |-> "string"] @@
    14 :> [k |-> "map", t |-> "float", key |-> "int32"] @@
    15 :> [k |-> "map", t |-> "string", key |-> "string"] @@
    16 :> [k |-> "map", t |-> "uint64", key |-> "string"] @@
    17 :> [k |-> "map", t |-> "sint32", key |-> "string"] @@
    18 :> [k |-> "map", t |-> "bool", key |-> "string"] @@
    19 :> [k |-> "map", t |-> "int32", key |-> "string"]
Numbers_ == 1 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    15 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    16 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    2047 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    2048 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    262143 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    262144 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    33554431 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    33554432 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    536870911 :> [k |-> "one", t |-> "int32", key |-> ""]
Node_ == 1 :> [k |-> "one", t |-> "int32", key |-> ""] @@
    3 :> [k |-> "rep", t |-> "Node", key |-> ""] @@
    4 :> [k |-> "map", t |-> "Node", key |-> "string"]
Nothing_ == [x \in {} |-> 0]
Kinds_ == 1 :> [k |-> "one", t |-> "Color", key |-> ""] @@
    2 :> [k |-> "rep", t |-> "Color", key |-> ""] @@
    3 :> [k |-> "map", t |-> "Color", key |-> "string"] @@
    4 :> [k |-> "one", t |-> "Kinds::Deep", key |-> ""] @@
    5 :> [k |-> "one", t |-> "Color", key |-> ""] @@
    6 :> [k |-> "one", t |-> "Color", key |-> ""] @@
    7 :> [k |-> "rep", t |-> "Kinds::Deep", key |-> ""]
Others_ == 1 :> [k |-> "one", t |-> "Color", key |-> ""] @@
    2 :> [k |-> "rep", t |-> "Color", key |-> ""] @@
    3 :> [k |-> "map", t |-> "Color", key |-> "uint32"]
Kinds_Deep_ == 1 :> [k |-> "one", t |-> "Color", key |-> ""] @@
    2 :> [k |-> "rep", t |-> "Color", key |-> ""] @@
    3 :> [k |-> "map", t |-> "Color", key |-> "sint32"] @@
    4 :> [k |-> "one", t |-> "sint32", key |-> ""]
QUrl_ == 1 :> [k |-> "one", t |-> "string", key |-> ""]
QChar_ == 1 :> [k |-> "one", t |-> "bytes", key |-> ""]
QUuid_ == 1 :> [k |-> "one", t |-> "string", key |-> ""]
QTime_ == 1 :> [k |-> "one", t |-> "sint32", key |-> ""]
QDate_ == 1 :> [k |-> "one", t |-> "sint32", key |-> ""] @@
    2 :> [k |-> "one", t |-> "sint32", key |-> ""] @@
    3 :> [k |-> "one", t |-> "sint32", key |-> ""]
QDateTime_ == 1 :> [k |-> "one", t |-> "QDate", key |-> ""] @@
    2 :> [k |-> "one", t |-> "QTime", key |-> ""]
QSize_ == 1 :> [k |-> "one", t |-> "sint32", key |-> ""] @@
    2 :> [k |-> "one", t |-> "sint32", key |-> ""]
QSizeF_ == 1 :> [k |-> "one", t |-> "double", key |-> ""] @@
    2 :> [k |-> "one", t |-> "double", key |-> ""]
QPoint_ == 1 :> [k |-> "one", t |-> "sint32", key |-> ""] @@
    2 :> [k |-> "one", t |-> "sint32", key |-> ""]
QPointF_ == 1 :> [k |-> "one", t |-> "double", key |-> ""] @@
    2 :> [k |-> "one", t |-> "double", key |-> ""]
QRect_ == 1 :> [k |-> "one", t |-> "QPoint", key |-> ""] @@
    2 :> [k |-> "one", t |-> "QSize", key |-> ""]
QRectF_ == 1 :> [k |-> "one", t |-> "QPointF", key |-> ""] @@
    2 :> [k |-> "one", t |-> "QSizeF", key |-> ""]
QPolygon_ == 1 :> [k |-> "rep", t |-> "QPoint", key |-> ""]
QPolygonF_ == 1 :> [k |-> "rep", t |-> "QPointF", key |-> ""]
QColor_ == 1 :> [k |-> "one", t |-> "uint32", key |-> ""]
QMatrix4x4_ == 1 :> [k |-> "one", t |-> "float", key |-> ""] @@
    2 :> [k |-> "one", t |-> "float", key |-> ""] @@
    3 :> [k |-> "one", t |-> "float", key |-> ""] @@
    4 :> [k |-> "one", t |-> "float", key |-> ""] @@
    5 :> [k |-> "one", t |-> "float", key |-> ""] @@
    6 :> [k |-> "one", t |-> "float", key |-> ""] @@
    7 :> [k |-> "one", t |-> "float", key |-> ""] @@
    8 :> [k |-> "one", t |-> "float", key |-> ""] @@
    9 :> [k |-> "one", t |-> "float", key |-> ""] @@
    10 :> [k |-> "one", t |-> "float", key |-> ""] @@
    11 :> [k |-> "one", t |-> "float", key |-> ""] @@
    12 :> [k |-> "one", t |-> "float", key |-> ""] @@
    13 :> [k |-> "one", t |-> "float", key |-> ""] @@
    14 :> [k |-> "one", t |-> "float", key |-> ""] @@
    15 :> [k |-> "one", t |-> "float", key |-> ""] @@
    16 :> [k |-> "one", t |-> "float", key |-> ""]
QVector2D_ == 1 :> [k |-> "one", t |-> "float", key |-> ""] @@
    2 :> [k |-> "one", t |-> "float", key |-> ""]
QVector3D_ == 1 :> [k |-> "one", t |-> "float", key |-> ""] @@
    2 :> [k |-> "one", t |-> "float", key |-> ""] @@
    3 :> [k |-> "one", t |-> "float", key |-> ""]
QVector4D_ == 1 :> [k |-> "one", t |-> "float", key |-> ""] @@
    2 :> [k |-> "one", t |-> "float", key |-> ""] @@
    3 :> [k |-> "one", t |-> "float", key |-> ""] @@
    4 :> [k |-> "one", t |-> "float", key |-> ""]
QTransform_ == 1 :> [k |-> "one", t |-> "double", key |-> ""] @@
    2 :> [k |-> "one", t |-> "double", key |-> ""] @@
    3 :> [k |-> "one", t |-> "double", key |-> ""] @@
    4 :> [k |-> "one", t |-> "double", key |-> ""] @@
    5 :> [k |-> "one", t |-> "double", key |-> ""] @@
    6 :> [k |-> "one", t |-> "double", key |-> ""] @@
    7 :> [k |-> "one", t |-> "double", key |-> ""] @@
    8 :> [k |-> "one", t |-> "double", key |-> ""] @@
    9 :> [k |-> "one", t |-> "double", key |-> ""]
QQuaternion_ == 1 :> [k |-> "one", t |-> "float", key |-> ""] @@
    2 :> [k |-> "one", t |-> "QVector3D", key |-> ""]
QImage_ == 1 :> [k |-> "one", t |-> "bytes", key |-> ""] @@
    2 :> [k |-> "one", t |-> "string", key |-> ""]
QtHolder_ == 1 :> [k |-> "one", t |-> "QUrl", key |-> ""] @@
    2 :> [k |-> "one", t |-> "QChar", key |-> ""] @@
    3 :> [k |-> "one", t |-> "QUuid", key |-> ""] @@
    4 :> [k |-> "one", t |-> "QTime", key |-> ""] @@
    5 :> [k |-> "one", t |-> "QDate", key |-> ""] @@
    6 :> [k |-> "one", t |-> "QDateTime", key |-> ""] @@
    7 :> [k |-> "one", t |-> "QSize", key |-> ""] @@
    8 :> [k |-> "one", t |-> "QSizeF", key |-> ""] @@
    9 :> [k |-> "one", t |-> "QPoint", key |-> ""] @@
    10 :> [k |-> "one", t |-> "QPointF", key |-> ""] @@
    11 :> [k |-> "one", t |-> "QRect", key |-> ""] @@
    12 :> [k |-> "one", t |-> "QRectF", key |-> ""] @@
    13 :> [k |-> "one", t |-> "QPolygon", key |-> ""] @@
    14 :> [k |-> "one", t |-> "QPolygonF", key |-> ""] @@
    15 :> [k |-> "one", t |-> "QColor", key |-> ""] @@
    16 :> [k |-> "one", t |-> "QMatrix4x4", key |-> ""] @@
    17 :> [k |-> "one", t |-> "QVector2D", key |-> ""] @@
    18 :> [k |-> "one", t |-> "QVector3D", key |-> ""] @@
    19 :> [k |-> "one", t |-> "QVector4D", key |-> ""] @@
    20 :> [k |-> "one", t |-> "QTransform", key |-> ""] @@
    21 :> [k |-> "one", t |-> "QQuaternion", key |-> ""] @@
    22 :> [k |-> "one", t |-> "QImage", key |-> ""] @@
    100 :> [k |-> "one", t |-> "sint32", key |-> ""]

Schema(m) == CASE m = "Scalars" -> Scalars_
            [] m = "Repeats" -> Repeats_
            [] m = "Leaf" -> Leaf_
            [] m = "Outer" -> Outer_
            [] m = "Mid" -> Mid_
            [] m = "Maps" -> Maps_
            [] m = "Numbers" -> Numbers_
            [] m = "Node" -> Node_
            [] m = "Nothing" -> Nothing_
            [] m = "Kinds" -> Kinds_
            [] m = "Others" -> Others_
            [] m = "Kinds::Deep" -> Kinds_Deep_
            [] m = "QUrl" -> QUrl_
            [] m = "QChar" -> QChar_
            [] m = "QUuid" -> QUuid_
            [] m = "QTime" -> QTime_
            [] m = "QDate" -> QDate_
            [] m = "QDateTime" -> QDateTime_
            [] m = "QSize" -> QSize_
            [] m = "QSizeF" -> QSizeF_
            [] m = "QPoint" -> QPoint_
            [] m = "QPointF" -> QPointF_
            [] m = "QRect" -> QRect_
            [] m = "QRectF" -> QRectF_
            [] m = "QPolygon" -> QPolygon_
            [] m = "QPolygonF" -> QPolygonF_
            [] m = "QColor" -> QColor_
            [] m = "QMatrix4x4" -> QMatrix4x4_
            [] m = "QVector2D" -> QVector2D_
            [] m = "QVector3D" -> QVector3D_
            [] m = "QVector4D" -> QVector4D_
            [] m = "QTransform" -> QTransform_
            [] m = "QQuaternion" -> QQuaternion_
            [] m = "QImage" -> QImage_
            [] m = "QtHolder" -> QtHolder_
===========================================================================
