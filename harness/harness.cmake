# Verification harness, added to the build of /repo by hook.cmake.
set(VP_DIR "${CMAKE_CURRENT_LIST_DIR}")
find_package(Qt5 COMPONENTS Core Network Qml Quick Gui Test REQUIRED)

function(vp_executable name)
    cmake_parse_arguments(arg "QML" "" "SOURCES;PROTOS;LIBS;INCLUDES" ${ARGN})
    list(TRANSFORM arg_SOURCES PREPEND "${VP_DIR}/")
    add_executable(${name} ${arg_SOURCES})
    target_include_directories(${name} PRIVATE "${VP_DIR}" "${QT_PROTOBUF_SOURCE_DIR}/src/protobuf" "${QT_PROTOBUF_SOURCE_DIR}/src/grpc")
    target_link_libraries(${name} PRIVATE Qt5::Core ${arg_LIBS})
    if(arg_PROTOS)
        list(TRANSFORM arg_PROTOS PREPEND "${VP_DIR}/proto/")
        qtprotobuf_generate(TARGET ${name} OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/vp/${name}_gen" PROTO_FILES ${arg_PROTOS} PROTO_INCLUDES ${arg_INCLUDES} QML)
    endif()
    set_target_properties(${name} PROPERTIES EXCLUDE_FROM_ALL TRUE)
endfunction()

vp_executable(wirecli SOURCES wirecli.cpp PROTOS wire.proto LIBS QtProtobuf::Protobuf Qt5::Qml)
vp_executable(grpccli SOURCES grpccli.cpp PROTOS grpcvp.proto LIBS QtProtobuf::Protobuf QtProtobuf::Grpc Qt5::Qml)
vp_executable(h2cli SOURCES h2cli.cpp PROTOS grpcvp.proto LIBS QtProtobuf::Protobuf QtProtobuf::Grpc Qt5::Qml Qt5::Network gRPC::grpc++ dl)
vp_executable(msgcli SOURCES msgcli.cpp PROTOS msg.proto LIBS QtProtobuf::Protobuf Qt5::Qml)
vp_executable(regcli SOURCES regcli.cpp LIBS QtProtobuf::Protobuf dl)
set_target_properties(regcli PROPERTIES ENABLE_EXPORTS TRUE)
vp_executable(sercli SOURCES sercli.cpp PROTOS msg.proto LIBS QtProtobuf::Protobuf Qt5::Qml dl)
vp_executable(plugcli SOURCES plugcli.cpp LIBS QtProtobuf::Protobuf dl)
set_target_properties(plugcli PROPERTIES ENABLE_EXPORTS TRUE)
set(vp_plugins "")
function(vp_plugin file name version protover rating types)
    set(dir "${CMAKE_BINARY_DIR}/vp/plug_${file}")
    string(REPLACE "," "\", \"" list "${types}")
    file(WRITE "${dir}/meta.json" "{\"name\": \"${name}\", \"version\": ${version}, \"protobufVersion\": ${protover}, \"rating\": ${rating}, \"types\": [\"${list}\"]}\n")
    configure_file("${VP_DIR}/plug/plug.cpp" "${dir}/plug.cpp" COPYONLY)
    add_library(vpplug_${file} SHARED "${dir}/plug.cpp")
    target_include_directories(vpplug_${file} PRIVATE "${VP_DIR}/plug" "${dir}" "${QT_PROTOBUF_SOURCE_DIR}/src/protobuf")
    target_compile_definitions(vpplug_${file} PRIVATE "PLUG_FILE=\"${file}\"" ${ARGN})
    target_link_libraries(vpplug_${file} PRIVATE Qt5::Core QtProtobuf::Protobuf)
    set_target_properties(vpplug_${file} PROPERTIES EXCLUDE_FROM_ALL TRUE AUTOMOC ON OUTPUT_NAME "${file}" LIBRARY_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/vp/plugins")
    add_dependencies(plugcli vpplug_${file})
endfunction()
vp_plugin(plugA Alpha 1.5 3.0 7 protobuf,json)
vp_plugin(plugA2 Alpha 2.5 3.5 9 protobuf,extra)
vp_plugin(plugB Beta 0.5 2.0 -3 protobuf,extra)
vp_plugin(plugD Default 4.0 4.0 4 protobuf,json,extra)
vp_plugin(plugW Wrong 6.0 1.0 1 protobuf PLUG_FOREIGN)
file(WRITE "${CMAKE_BINARY_DIR}/vp/plugins/libgarbage.so" "this is not a library\n")
vp_executable(threadcli SOURCES threadcli.cpp PROTOS grpcvp.proto LIBS QtProtobuf::Protobuf QtProtobuf::Grpc Qt5::Qml)
vp_executable(quickcli SOURCES quickcli.cpp PROTOS grpcvp.proto LIBS QtProtobuf::Protobuf QtProtobuf::Grpc Qt5::Qml Qt5::Gui)
set_target_properties(quickcli PROPERTIES AUTOMOC ON)
add_dependencies(quickcli ${GRPC_QUICK_PLUGIN_NAME})
vp_executable(qtcli SOURCES qtcli.cpp PROTOS qt.proto LIBS QtProtobuf::Protobuf QtProtobuf::ProtobufQtTypes Qt5::Qml Qt5::Gui
    INCLUDES $<TARGET_PROPERTY:${QT_PROTOBUF_NAMESPACE}::ProtobufQtTypes,PROTO_INCLUDES>)
vp_executable(tscli SOURCES tscli.cpp LIBS QtProtobuf::Protobuf QtProtobuf::ProtobufWellKnownTypes Qt5::Qml)
vp_executable(qlistcli SOURCES qlistcli.cpp PROTOS msg.proto LIBS QtProtobuf::Protobuf Qt5::Qml)
vp_executable(qmlcallcli SOURCES qmlcallcli.cpp PROTOS grpcvp.proto LIBS QtProtobuf::Protobuf QtProtobuf::Grpc Qt5::Qml)
set_target_properties(qmlcallcli PROPERTIES AUTOMOC ON)
