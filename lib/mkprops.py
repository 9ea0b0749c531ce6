import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])],observe_at=[observe],hook_needed=None)))
SER=["src/protobuf/qprotobufserializer.cpp","src/protobuf/qprotobufserializer_p.h","src/protobuf/qabstractprotobufserializer_p.h","src/protobuf/qabstractprotobufserializer.h","src/protobuf/qprotobufselfcheckiterator.h"]
p("P01","Serialize then deserialize gives back an equal message",
 "For every generated message type and every value of it, deserializing what serialize produced yields a message equal to the original in every field: all scalar types over their whole range, enums, strings, bytes, nested and recursive messages, repeated fields (order and duplicates kept) and maps.",
 ["inputs"],"every message type and field value",
 "The tests compare a handful of hand-written byte strings per type; they do not reach combinations of fields, boundary values, nesting inside maps and lists, or high field numbers.",
 SER+["src/protobuf/qtprotobuftypes.h","src/generator/templates.cpp"],"serialize<T>/deserialize<T> and the per-type handlers","serialize() bytes and the getters after deserialize()")
p("P02","Serialized bytes are the protobuf encoding of the message",
 "The bytes serialize produces for any message are a well-formed protobuf encoding that a conforming proto3 decoder for the same schema reads as exactly that message. Tags carry the declared field number and the wire type of the field's type, scalars use their own encoding (varint, zigzag, little-endian fixed), repeated scalars and enums are packed, and every singular field occurs at most once.",
 ["inputs"],"every message type and field value",
 "Tests pin single fields with a few values; interoperability has to hold for every value, field number and combination.",
 SER+["src/protobuf/qprotobufmetaproperty.cpp"],"serializeMessage, serializeProperty, encodeHeader, serializeBasic, serializeListType, serializeMapPair","bytes returned by serialize()")
p("P03","Every valid protobuf encoding decodes to the value protobuf defines",
 "For any valid proto3 encoding of a message, whoever produced it, deserialize yields the value the protobuf encoding rules define: fields in any order, varints of any legal length, default values spelled out, the last occurrence of a singular scalar wins, occurrences of a repeated field concatenate (packed blocks split anywhere), repeated occurrences of a singular message merge, and map entries may have key and value in either order, omitted or repeated, a later entry replacing an earlier one with the same key.",
 ["inputs"],"every valid encoding of every message",
 "Tests decode canonical encodings as QtProtobuf itself would write them; other conforming writers produce unboundedly many other encodings of the same value.",
 SER,"deserializeMessage, deserializeProperty, deserializeList, deserializeMapPair, deserializeVarintCommon","getters after deserialize()")
p("P04","Unknown fields are skipped and never disturb known fields",
 "Fields a message type does not declare - any legal field number, any of the wire types varint, fixed64, length-delimited and fixed32, any content, at any position and at any nesting depth - are skipped: the decoded message equals the one decoded from the same bytes without them.",
 ["inputs"],"every placement, number, wire type and content of undeclared fields",
 "Tests insert one or two unknown fields at fixed places of flat messages.",
 SER,"deserializeProperty, skipSerializedFieldBytes, deserializeMapPair","getters after deserialize()")
p("P05","Malformed input is rejected with an exception, without harm",
 "For every byte string, deserialize either returns normally or throws an exception derived from std::exception, in time proportional to the input and without reading outside it. Input that protobuf defines as malformed - truncated inside a field, a length that exceeds the enclosing bytes, a varint of more than ten bytes, field number zero, an unsupported wire type - is rejected wherever it occurs, at any nesting depth. (That the time is quadratic in the number of elements of one repeated or map field is a known finding.)",
 ["inputs"],"all byte strings, in particular every truncation and length corruption of valid encodings",
 "The few negative tests cover fixed malformed strings; memory safety and rejection must hold for all inputs.",
 SER,"QProtobufSelfcheckIterator bounds, deserializeLengthDelimited, deserializeVarintCommon, decodeHeader","exception or value, AddressSanitizer on the same run")
p("P06","The result of deserialization depends only on the bytes",
 "After deserialize(&message, data), whether data is accepted or rejected with an exception, the message depends on data alone: whatever the object held before, in whichever order inputs were decoded before (rejected ones included), every field has the value data gives it and every field absent from data has its default.",
 ["histories","inputs"],"every history of set, copy, serialize and deserialize operations on an object and serializer",
 "Tests decode into fresh objects or reset by hand.",
 ["src/protobuf/qabstractprotobufserializer.h"]+SER[:3],"deserialize<T> builds a fresh object and assigns it","getters after deserialize()")
p("P07","Generated messages behave as values",
 "Copying, assigning and moving a message gives an object equal to the source; setting fields of one object afterwards never changes another (elements of repeated and map fields of message type are shared pointers, so the element objects themselves, not the lists, are shared); and == is true exactly if all fields are equal, an absent sub-message counting as equal to a default one. This holds for every sequence of construction, setter, copy, move, self-assignment and destruction, without use of freed memory.",
 ["histories","inputs"],"every sequence of value operations on generated messages",
 "Tests do one copy or compare at a time on fixed objects.",
 ["src/generator/templates.cpp","src/generator/messagedefinitionprinter.cpp","src/generator/messagedeclarationprinter.cpp","src/protobuf/qprotobuflazymessagepointer.h","src/protobuf/qtprotobuftypes.h"],"generated copy/move constructors, assignment and comparison operators, lazy sub-message pointer, repeatedValueCompare","getters and operator== after each operation")
p("P08","Change signals fire exactly when a property's value changes",
 "A property's change signal is emitted exactly once by each write that changes its value and never by one that leaves it as it was; the new value is already readable inside the handler; and assigning or moving a whole message into an object emits, once each, the change signals of exactly those properties of the target whose values changed. (Moving an object into itself, NaN, and replacing list elements by equal ones are left open.)",
 ["histories","inputs"],"every sequence of writes through setters, properties and assignment",
 "Tests spy on a few properties and a single write.",
 ["src/generator/templates.cpp","src/generator/messagedefinitionprinter.cpp"],"generated setters and assignment operators","signal spies on every notify signal")
p("P09","The serialization handler registry is linearizable",
 "However many threads register and look up serialization handlers at once, every operation completes, a lookup returns a completely registered handler for exactly the requested type or none, and once a registration has returned every later lookup of that type finds it; concurrent serialization therefore never sees a missing, torn or foreign handler.",
 ["schedules","histories"],"all interleavings of any number of registering and searching threads",
 "Tests are single threaded.",
 ["src/protobuf/qabstractprotobufserializer.cpp"],"mutex plus counting semaphore as reader/writer lock","results and completion of registerHandler/findHandler")
p("P10","The serializer registry hands out the serializer that was asked for",
 "The serializer registry returns for a known identifier one and the same working serializer for as long as the program runs, keeps built-in serializers apart from those of plugins, and answers a request for an unknown identifier or plugin with std::out_of_range, leaving everything registered before usable, for every sequence of loads and lookups.",
 ["histories"],"every sequence of plugin loads and lookups, known and unknown names",
 "Tests load one plugin once and look up names that exist.",
 ["src/protobuf/qprotobufserializerregistry.cpp","src/protobuf/qprotobufserializerregistry_p.h"],"QProtobufSerializerRegistry::getSerializer/loadPlugin","return values and exceptions of the registry")
p("P11","An asynchronous call ends exactly once with the channel's outcome",
 "Every asynchronous call reports to its caller either finished or error, exactly once: finished, with the message the server sent, exactly if the channel completed the call successfully; error, with the channel's status code and message, exactly if it failed; or error with status Aborted if the user aborts the call first, after which nothing the channel delivers reaches the caller. The client's own error signal repeats each failure once and no success, and calls in flight at the same time never affect each other.",
 ["histories","schedules"],"every interleaving of issuing, completing, failing and aborting any number of calls",
 "Tests issue one call at a time against one server and let it complete.",
 ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qabstractgrpcclient.h","src/grpc/qgrpccallreply.cpp","src/grpc/qgrpcasyncoperationbase_p.h"],"QAbstractGrpcClient::call (reply overload), QGrpcCallReply::abort","finished/error of the reply, error of the client, read<T>()")
p("P12","A blocking call returns the channel's status and data",
 "A blocking call returns the channel's status unchanged and, exactly if that status is Ok, the message the server sent; the client's error signal is emitted once, with that status, if and only if the status is not Ok. Without a channel the call fails with status Unknown; a response that cannot be decoded is reported as an error and never as success with other data.",
 ["histories","inputs"],"every status, response body and sequence of calls",
 "Tests cover success and one or two failures.",
 ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qabstractgrpcclient.h"],"QAbstractGrpcClient::call (blocking), tryDeserialize","returned status, output message, error signal")
p("P13","Every subscriber of a stream sees every message once, in order",
 "While a stream is alive every message the channel delivers is handed exactly once, in order and unaltered, to every handler subscribed to it; subscribing again with the same method and argument joins the existing stream without a second request to the server, and other methods or arguments get a stream of their own.",
 ["histories","schedules"],"every interleaving of subscribing, delivering and ending streams",
 "Tests subscribe once or twice and count a fixed number of messages.",
 ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qabstractgrpcclient.h","src/grpc/qgrpcstream.cpp","src/grpc/qgrpcstream.h"],"QAbstractGrpcClient::stream, activeStreams, QGrpcStream::handler","handler calls, messageReceived, requests seen by the channel")
p("P14","A finished stream stays finished",
 "Once a stream has finished - aborted by the user, ended by the server, or cut off by attaching another channel - it is never restarted by the client, not even by a retry that was already scheduled, and a later subscription with the same method and argument starts a fresh stream with its own request. Aborting a stream signals finished and affects no other stream.",
 ["histories","schedules"],"every interleaving of errors, pending retries, aborts, server ends, channel changes and new subscriptions",
 "Tests abort one healthy stream.",
 ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qgrpcstream.cpp"],"activeStreams bookkeeping, retry timer","requests seen by the channel, finished signal, returned stream objects")
p("P15","A failing stream is reported and retried until it recovers",
 "Whenever the channel reports an error for a live stream, the client emits its error signal with that status and, after the retry delay, requests the same method and argument again on the attached channel - every time, for any number of failures - and the stream's handlers receive the messages delivered after recovery. While no error occurs, no additional request is made.",
 ["fault_sequences","histories"],"every sequence of failures and recoveries of any number of streams",
 "Tests restart a server once, with fixed timing.",
 ["src/grpc/qabstractgrpcclient.cpp"],"error handler with the single-shot timer","requests seen by the channel, error signal, handler calls")
p("P16","Attaching a channel switches the client completely",
 "After attachChannel every call and stream goes to the new channel only; streams that were active on the previous channel end with exactly one finished signal each, however many there were; and a channel living in another thread is refused with an exception that leaves the client as it was.",
 ["histories"],"every number and state of active streams and every sequence of attachments",
 "Tests attach once, before any stream exists.",
 ["src/grpc/qabstractgrpcclient.cpp"],"QAbstractGrpcClient::attachChannel","finished signals, requests seen by each channel, exception")
p("P17","Client operations may be called from any thread",
 "Calls (blocking and asynchronous), stream subscriptions and aborts issued from threads other than the client's give the same results as if issued in the client's thread: the channel is only ever used in its own thread, each operation reaches it exactly once, and the caller gets the outcome of its own operation, provided that for an asynchronous one it connected before the outcome arrived.",
 ["schedules"],"all interleavings of operations from any number of threads",
 "One test issues one call from one other thread.",
 ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qgrpccallreply.cpp","src/grpc/qgrpcstream.cpp"],"invokeMethod with BlockingQueuedConnection","thread in which the channel is entered, results per caller")
p("P18","The HTTP/2 channel sends exactly the request that was made",
 "For each call or stream the HTTP/2 channel sends one POST to /<service>/<method> carrying the gRPC headers, all call credentials as metadata and a body that is the uncompressed five-byte prefix with the big-endian length followed by exactly the serialized argument, for arguments of every size including empty. An https channel without an SSL configuration is refused at construction.",
 ["inputs","configurations"],"every method, argument and credential set",
 "Tests check that a real server answers for a few requests.",
 ["src/grpc/qgrpchttp2channel.cpp","src/grpc/qgrpccredentials.cpp","src/grpc/qgrpcuserpasswordcredentials.cpp"],"QGrpcHttp2ChannelPrivate::post and constructor","request headers and body as received by a server")
p("P19","HTTP/2 streams deliver the sent messages whatever the chunking",
 "A stream over the HTTP/2 channel delivers exactly the sequence of messages the server sent, each one intact and as soon as its last byte has arrived, however the bytes are split into or merged across data chunks - inside the length prefix as well as inside a message - and for messages of any size including empty ones.",
 ["inputs","schedules"],"every sequence of messages and every chunking of their bytes",
 "Tests let a local server send whole messages one at a time.",
 ["src/grpc/qgrpchttp2channel.cpp"],"readyRead handler of QGrpcHttp2Channel::stream, activeStreamReplies","handler calls of the stream")
p("P20","HTTP/2 responses are reported with the server's status",
 "For calls and streams over the HTTP/2 channel, the status code and message reported to the user are those of the server's grpc-status and grpc-message, the returned data is the server's message exactly if that status is Ok, and transport failures (a refused connection, for calls also a lost one, an HTTP error status, a reset stream, a missing or invalid grpc-status, a truncated unary response) are reported as a non-Ok status, never as success. A stream that fails is reported by the client's error signal and requested again.",
 ["inputs","fault_sequences"],"every server status, message and transport failure",
 "Tests provoke one status code and a missing server.",
 ["src/grpc/qgrpchttp2channel.cpp","src/grpc/qgrpcstatus.cpp"],"processReply, StatusCodeMap, finished handlers","status and data seen by the user")
p("P21","After abort or destruction the HTTP/2 channel stays silent",
 "After a call or stream over the HTTP/2 channel was aborted, or its client destroyed, the request is cancelled towards the server and none of its later data, status or errors reach the user, at whatever point of the exchange that happens; other calls and streams continue undisturbed and no freed object is touched.",
 ["schedules","histories"],"every point of the exchange at which abort or destruction happens",
 "Tests abort once, at one moment.",
 ["src/grpc/qgrpchttp2channel.cpp","src/grpc/qgrpccallreply.cpp","src/grpc/qgrpcstream.cpp"],"abort connections, client destroyed handler, buffer bookkeeping","signals after abort, cancellation at the server")
p("P22","The native channel behaves as the HTTP/2 channel does",
 "For the same server behaviour the native gRPC channel gives the user the same observable outcome as the HTTP/2 channel: same data for calls and streams, in order, the server's status code and message for failures, silence after abort, and finished when the server ends a stream with status Ok.",
 ["inputs","fault_sequences","configurations"],"every server behaviour (responses, statuses, stream contents and ends) and both channels",
 "Tests run the same few scenarios against each channel and do not compare end-of-stream or errors.",
 ["src/grpc/qgrpcchannel.cpp","src/grpc/qgrpcchannel_p.h"],"QGrpcChannelPrivate::call/stream","signals and data seen by the user")
p("P23","The QML GrpcStream element follows its properties",
 "A GrpcStream element has a running stream exactly while it is enabled and has client, method and argument, for the current values of these: changing any of them while enabled replaces the stream by one for the new values, disabling or destroying it ends the stream, a stream ended by the server disables it, and an unusable method or argument is reported by error and disables it. The argument is taken as it is when the stream starts; elements with the same client, method and equal arguments share one stream, which ends for all of them; a destroyed client is not used any more.",
 ["histories"],"every sequence of property changes, server events and destruction",
 "QML tests set the properties once.",
 ["src/grpc/quick/qquickgrpcstream.cpp","src/grpc/quick/qquickgrpcstream_p.h"],"updateStream, stream","enabled, returnValue, signals, requests seen by the channel")
p("P24","Qt value types survive the conversion to protobuf and back",
 "Every value of a supported Qt type (QUrl, QChar, QUuid, QTime, QDate, QDateTime, QSize, QPoint, QRect, their F variants, QPolygon(F), QVector2D-4D, QMatrix4x4, QTransform, QQuaternion, QColor, QImage) set as a message field is serialized, and deserializing gives back an equal value; values of one field never leak into another; the bytes are those of the corresponding message of QtCore.proto or QtGui.proto. Values are valid ones: a null QTime counts as midnight, an invalid QColor as black, a QDateTime without time zone keeps its wall clock, colours and images are compared by their 8-bit channels.",
 ["inputs"],"every value of every supported Qt type",
 "Tests use one value per type.",
 ["src/qttypes/qtprotobufqttypes.cpp","src/qttypes/QtProtobuf"],"registered converters between Qt types and their messages","getters after a serialize/deserialize round trip")
p("P25","Timestamp and QDateTime denote the same instant",
 "Converting a QDateTime to google.protobuf.Timestamp gives the timestamp of the same instant with nanoseconds between 0 and 999999999, and converting back gives that instant to the millisecond, for every date before or after the epoch and every time zone.",
 ["inputs"],"every instant representable in both types",
 "Tests convert one positive timestamp.",
 ["src/generator/messagedefinitionprinter.cpp","src/wellknowntypes/CMakeLists.txt"],"generated conversion operators of Timestamp","seconds, nanos and the resulting QDateTime")
p("P26","Generated code maps the schema faithfully in every mode",
 "For every supported proto3 schema the generator emits code that compiles and whose message classes have, for each declared field, a property with the name, the C++ type, the JSON name and the field number that belong to it, an enum class with the declared names and values for each enum (also used by the wire format), field number constants when asked for, and whose service clients send a call with the declared service and method name, request and reply type. Single-file and multi-file output, with or without the QML, comment, folder, field-enum and extra-namespace options, behave the same on the wire, and the output depends only on schema and options. Supported means: no C++ keyword as a name, capitalised names for messages with nested types, no enum of a nested message used outside of it, no messages that contain themselves through singular fields only, multi-file output together with folders, and in folder mode imported files that lie in the directory of their package.",
 ["programs","configurations"],"every supported schema and every combination of generator options",
 "Tests generate from a fixed set of proto files with a fixed set of options.",
 ["src/generator/generatorcommon.cpp","src/generator/messagedeclarationprinter.cpp","src/generator/messagedefinitionprinter.cpp","src/generator/singlefilegenerator.cpp","src/generator/multifilegenerator.cpp","src/generator/templates.cpp"],"protoc plugin qtprotobufgen","meta objects and wire behaviour of the generated classes")
p("P27","QML list properties mirror the repeated message field",
 "The QML list of a repeated message field always reflects the field: for every sequence of append, clear, indexed access and count through QML and of set operations in C++, both views contain the same messages in the same order, and an element lives exactly as long as a list or the C++ program holds it, whatever happens to its QML parent. (An element that is already held by a list and is appended once more is a known finding.)",
 ["histories"],"every sequence of list operations through both interfaces",
 "A QML test appends and reads a few elements.",
 ["src/protobuf/qqmllistpropertyconstructor.h","src/generator/templates.cpp"],"constructQmlListProperty","list contents as seen from both interfaces")
p("P28","JSON serialization round trips every message",
 "For every message, deserializing the JSON produced by the JSON serializer yields an equal message, and the JSON follows the proto3 JSON mapping.",
 ["inputs"],"every message value",
 "Tests compare fixed JSON strings.",
 ["src/protobuf/qprotobufjsonserializer.cpp"],"QProtobufJsonSerializer","JSON text and decoded messages")
p("P29","Calls made from QML run one callback, once",
 "A unary call made from QML, client.method(argument, callback, errorCallback) or client.method(argument, result, errorCallback), sends one request with the argument as it is at that moment; when the answer arrives, exactly one thing happens, once: the callback is given the message the server sent, or the result object takes its value if it still exists, or the error callback is given the server's status. Calls do not disturb each other in any order of answers, also if callbacks make further calls or throw; a call whose client is destroyed is never answered; a call without usable argument, callback or channel sends nothing and runs nothing. (An answer that cannot be decoded is reported by the client's error signal and counts as an empty message.)",
 ["histories"],"every interleaving of calls, answers, garbage collection and destruction of results and clients",
 "A QML test makes a call and waits for its callback.",
 ["src/generator/templates.cpp","src/generator/clientdefinitionprinter.cpp","src/grpc/qgrpccallreply.h","src/grpc/qabstractgrpcclient.cpp"],"QML methods of generated clients","requests seen by the channel, callbacks run and result objects")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
