#define VP_QT_TYPES(X) X(1, QUrl) X(2, QChar) X(3, QUuid) X(4, QTime) X(5, QDate) X(6, QDateTime) X(7, QSize) X(8, QSizeF) X(9, QPoint) X(10, QPointF) X(11, QRect) X(12, QRectF) X(13, QPolygon) X(14, QPolygonF) X(15, QColor) X(16, QMatrix4x4) X(17, QVector2D) X(18, QVector3D) X(19, QVector4D) X(20, QTransform) X(21, QQuaternion) X(22, QImage)
