G = "The TLA+ specification of the client (GrpcClient: calls, streams, handlers, retries, channels, reactions of the user inside of handlers) is explored by TLC (GrpcClientGen: invariants and action properties); one scenario per transition plus random long ones are replayed on the real generated client with a scripted channel and a virtual clock under AddressSanitizer, and TLC judges the observations after every step (GrpcClientTrace). "
C["P11"] = ("TLA+/TLC: scenarios of concurrent calls (GrpcClientGen) replayed on the real client, judged by GrpcClientTrace", G + "Exhaustive up to the stated number of steps, random beyond.")
C["P12"] = ("TLA+/TLC: scenarios with blocking calls replayed on the real client, judged by GrpcClientTrace", G + "All status codes.")
C["P13"] = ("TLA+/TLC: scenarios of subscriptions and messages replayed on the real client, judged by GrpcClientTrace", G + "Includes subscribing and aborting inside of handlers.")
C["P14"] = ("TLA+/TLC: scenarios of ends of streams replayed on the real client, judged by GrpcClientTrace", G + "Retry timers run on a virtual clock.")
C["P15"] = ("TLA+/TLC: scenarios of failing streams replayed on the real client, judged by GrpcClientTrace", G + "Retry timers run on a virtual clock.")
C["P16"] = ("TLA+/TLC: scenarios of channel changes replayed on the real client, judged by GrpcClientTrace", G + "Includes the channel of another thread.")
NA["P28"] = "The JSON serializer needs the microjson submodule, which is empty in this tree (stubbed by the sandbox) and cannot be fetched; it is not part of the build, so there is nothing to bind a specification to."
H = "The TLA+ specification of gRPC over HTTP/2 (Http2: frames, chunks, trailers, resets, aborts, retries, credentials) is explored by TLC (Http2Gen: invariants and action properties); its scenarios are replayed on the real generated client and channel against a scripted HTTP/2 server in lock step under AddressSanitizer, and TLC judges what user and server saw after every step (Http2Trace). "
C["P18"] = ("TLA+/TLC: scenarios of requests replayed over a real HTTP/2 connection, what the server received judged by Http2Trace", H + "Argument sizes around all length boundaries.")
C["P19"] = ("TLA+/TLC: all chunkings of short message sequences and sampled ones of long messages replayed over a real HTTP/2 connection, judged by Http2Trace", H)
C["P20"] = ("TLA+/TLC: all status codes and broken exchanges replayed over a real HTTP/2 connection, judged by Http2Trace", H)
C["P21"] = ("TLA+/TLC: abort and destruction at every point of an exchange, including behind the back of events in flight, replayed over a real HTTP/2 connection, judged by Http2Trace", H)
C["P22"] = ("TLA+/TLC: the scenarios of the HTTP/2 channel replayed on the native channel, judged by the same Http2Trace", H)
C["P07"] = ("TLA+/TLC: sequences of value operations (MessageGen) replayed on generated messages, judged by MessageTrace", "The TLA+ specification of generated messages as values (Message) is explored by TLC; its histories of construction, setters, copies, moves, comparisons and destruction are replayed on real generated classes under AddressSanitizer, all getters and comparisons judged by TLC after every step. Exhaustive up to a length, random beyond.")
C["P08"] = ("TLA+/TLC: sequences of writes (MessageGen) replayed on generated messages with spies on every signal, judged by MessageTrace", "As P07, with the change signals of every property and the value readable inside the handler.")
C["P09"] = ("TLA+/TLC: algorithm of the handler registry model checked (Registry); recorded concurrent histories of the real registry checked for linearizability by RegistryTrace", "The model is checked for all interleavings of its steps; the real code is run with injected delays and under ThreadSanitizer, and TLC decides whether each recorded history has a linearization.")
C["P10"] = ("TLA+/TLC: sequences of loads and lookups (SerializersGen) replayed on the real registry with real plugins, judged by SerializersTrace", "Exhaustive up to the stated length, random beyond.")
C["P17"] = ("TLA+/TLC: operations of several threads (ClientThreads); recorded runs of the real client judged by ClientThreadsTrace", "The model is checked for all interleavings; real runs with seeded delays are judged by TLC, and run under AddressSanitizer.")
C["P23"] = ("TLA+/TLC: sequences of property changes and events (QuickStreamGen) replayed on the real QML element, judged by QuickStreamTrace", "Exhaustive up to the stated length, random beyond.")
C["P24"] = ("TLA+/TLC: values (QtTypesGen) and foreign encodings (WireSender) replayed on the real converters, judged by QtTypesTrace", "Catalogue of boundary values per component, all single and pairwise variations, random combinations.")
C["P25"] = ("TLA+/TLC: instants (TimestampGen) replayed on the real conversion operators, judged by TimestampTrace", "Calendar arithmetic is specified in TLA+; boundary and random instants.")
C["P27"] = ("TLA+/TLC: sequences of list operations (QmlListGen) replayed through QML and C++, judged by QmlListTrace", "Exhaustive up to the stated length, random beyond, under AddressSanitizer.")
C["P26"] = ("TLA+/TLC: schemas with generator options (SchemaGen) run through the real plugin, moc and compiler; meta objects, wire bytes and client calls judged by SchemaTrace", "Random schemas times option combinations; a fixed reference schema in every run. Supported subset is stated in the property.")
C["P29"] = ("TLA+/TLC: scenarios of calls, answers and destructions (QmlCallGen) replayed from JavaScript on a generated client, judged by QmlCallTrace", "Exhaustive state cover up to the stated length (sampled in quick), random beyond, under AddressSanitizer.")
