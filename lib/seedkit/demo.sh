#!/bin/bash
# Builds demo.cpp (with code generated from demo.proto) against /repo's build and runs it.
D=$(cd "$(dirname "$0")" && pwd)
B=/repo/_build
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 9
M=/usr/lib/qt5/bin/moc
MODS="Qt5Core Qt5Network Qt5Qml Qt5Quick Qt5Gui"
IF="-DQT_QML_LIB -I$W -I$D -I$B/include -I$B/include/Protobuf -I$B/include/Grpc -I$B/include/ProtobufQtTypes -I/repo/src/qttypes -I$B/src/qttypes/generated -I$B/src/wellknowntypes/generated -I/repo/src/protobuf -I/repo/src/grpc $(pkg-config --cflags $MODS)"
CF="-std=c++17 -fPIC -g -w $IF"
SRC="$D/demo.cpp"
if [ -f "$D/demo.proto" ]; then
    QT_PROTOBUF_OPTIONS=SINGLE:QML /usr/bin/protoc --plugin=protoc-gen-qtprotobufgen=$B/src/generator/qtprotobufgen --qtprotobufgen_out="$W" -I"$D" -I/repo/src/qttypes -I/repo/src/wellknowntypes "$D/demo.proto" || exit 8
    SRC="$SRC demo.qpb.cpp"
    $M $IF demo.qpb.h -o moc_qpb.cpp && SRC="$SRC moc_qpb.cpp"
    if [ -f demo_grpc.qpb.h ]; then $M $IF demo_grpc.qpb.h -o moc_grpc.cpp; SRC="$SRC demo_grpc.qpb.cpp moc_grpc.cpp"; fi
fi
g++ $CF $SRC -o demo -L$B/src/protobuf -L$B/src/grpc -L$B/src/qttypes -L$B/src/wellknowntypes -Wl,-rpath,$B/src/protobuf:$B/src/grpc:$B/src/qttypes:$B/src/wellknowntypes \
    $(pkg-config --libs grpc++ 2>/dev/null) -lQt5Grpc -lQt5ProtobufQtTypes -lQt5ProtobufWellKnownTypes -lQt5Protobuf $(pkg-config --libs $MODS) -lpthread > build.log 2>&1 || { cat build.log; exit 7; }
export QT_QPA_PLATFORM=offscreen
timeout 120 ./demo "$D"
