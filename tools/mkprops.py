import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,**({"state":state} if state else {}))))

p("C01","CIP scalars survive encode/decode with little-endian layout",
 "Writing any CIP value (8/16/32/64-bit signed or unsigned integers, REAL, LREAL, byte and word arrays, revision, IPv4 socket address) to a buffer appends exactly its little-endian wire image (network order for the address fields) and never disturbs what was already there. Reading the values back in the order they were written returns exactly the values written, advances by exactly the bytes each occupies, and reports the buffer empty exactly when everything was consumed.",
 ["inputs"],"every value of every type, and every pair/sequence of types within the bound",
 "TestBuffer checks a few literals per type; a sign-extension, byte-order or carry mistake for one byte position or one value range is not sampled.",
 ["src/utils/Buffer.cpp","src/utils/Buffer.h"],[("shift/push_back encoders and indexed decoders","src/utils/Buffer.cpp")],["Buffer::data","Buffer::pos","Buffer::isValid","Buffer::empty"])
p("C02","Arbitrary network bytes never cause an invalid memory access",
 "For every byte string a peer can send, each decoder of the library (encapsulation packet, common packet, padded path, message-router response, forward-open reply, list-identity reply, identity, parameter, file-transfer, drive-fault and implicit I/O data) finishes by either returning a value or throwing a std::exception. It never reads or writes outside the memory it owns, never fails an internal assertion and never loops without end.",
 ["inputs"],"all byte strings up to the stated length, fed to every network-facing decoder",
 "Tests feed well-formed frames; out-of-bounds reads on short or inconsistent frames do not crash without a sanitizer and are never fed.",
 ["src/utils/Buffer.cpp","src/eip/CommonPacket.cpp","src/eip/EncapsPacket.cpp","src/cip/EPath.cpp","src/cip/MessageRouterResponse.cpp","src/cip/connectionManager/ForwardOpenResponse.cpp","src/DiscoveryManager.cpp","src/IdentityObject.cpp","src/ParameterObject.cpp","src/IOConnection.cpp"],
 [("length checks before reads, isValid after","src/utils/Buffer.cpp, src/eip/*.cpp, src/cip/*.cpp")],["decoder return value or exception"])
p("C03","Truncated messages are reported, never completed with invented data",
 "When the bytes handed to a decoder end before the structure they announce is complete (encapsulation header or payload, common packet count or item, path segment, message-router header or additional status, forward-open reply, identity, parameter or drive-fault attributes, file-transfer packet), the decoder throws a std::exception instead of returning an object (a file transfer instead ends with its one error report). A complete message, with or without trailing optional data, is never rejected for that reason.",
 ["inputs"],"every well-formed message cut at every length, with every content",
 "The few negative tests cover one short header each; truncation at the other field boundaries is not tried, and the code had several missing or ineffective checks.",
 ["src/eip/CommonPacket.cpp","src/eip/EncapsPacket.cpp","src/cip/EPath.cpp","src/cip/MessageRouterResponse.cpp","src/cip/connectionManager/ForwardOpenResponse.cpp","src/IdentityObject.cpp","src/ParameterObject.cpp","src/fileObject/FileObjectUploadInProgressState.cpp","src/fileObject/FileObjectLoadedState.cpp","src/vendor/ra/powerFlex525/DPIFaultObject.cpp","src/vendor/ra/powerFlex525/DPIFaultParameter.cpp"],
 [("Buffer::isValid checks and size checks","src/utils/Buffer.h, decoders")],["exception from expand/constructor"])
p("C04","Encapsulation packets keep every field over pack/expand",
 "Packing an encapsulation packet yields the 24-byte little-endian header (command, payload length, session handle, status, sender context, options) followed by the payload, and expanding that image gives back an equal packet; equality holds exactly when all those fields agree. Expanding bytes whose length field differs from the number of payload bytes present, or that are shorter than the header, throws std::runtime_error; the register, unregister, send-RR-data and list-identity packets built by the library carry the commands, version, handle, timeout and data the protocol prescribes.",
 ["inputs"],"all header field values and all payloads up to the bound",
 "Tests use one literal packet per command; agreement of length and payload for all contents and corrupt length fields is not covered.",
 ["src/eip/EncapsPacket.cpp","src/eip/EncapsPacketFactory.cpp"],[("pack/expand","src/eip/EncapsPacket.cpp"),("createXxxPacket","src/eip/EncapsPacketFactory.cpp")],["EncapsPacket::pack","EncapsPacket::expand","getters"])
p("C05","Common-packet item lists survive pack/expand in order",
 "Packing a list of items yields the item count followed by, for each item in order, its type id, payload length and payload, all little-endian, and expanding that image returns the same items in the same order and nothing else. Expanding a list that announces more items or bytes than are present throws std::runtime_error, expanding replaces any items held before, and bytes after the last announced item are never turned into items.",
 ["inputs","histories"],"all item lists up to 3 items with all types and payloads in bound; all raw byte strings in bound",
 "Tests pack two items once and expand one literal; the counting/offset arithmetic for all lengths is not exercised.",
 ["src/eip/CommonPacket.cpp","src/eip/CommonPacketItem.cpp","src/eip/CommonPacketItemFactory.cpp"],[("pack/expand","src/eip/CommonPacket.cpp"),("item factories","src/eip/CommonPacketItemFactory.cpp")],["CommonPacket::pack","CommonPacket::getItems"])
p("C06","Padded paths encode and decode class/instance/attribute exactly",
 "A path naming a class, class+instance or class+instance+attribute packs to the logical segments in that order, in 16-bit form for every id and in 8-bit form for ids up to 255, and the reported size in words always equals half the packed byte count. Expanding a packed path (8-bit, 16-bit or mixed segments) yields the same ids, for non-zero ids a path equal to the original; unknown segment types and truncated segments throw std::runtime_error.",
 ["inputs"],"all ids and all byte strings in bound",
 "Tests use three fixed ids; agreement of size and bytes, mixed segment widths and malformed segments for all values is not covered.",
 ["src/cip/EPath.cpp","src/cip/EPath.h"],[("packPaddedPath/getSizeInWords/expandPaddedPath","src/cip/EPath.cpp")],["EPath::packPaddedPath","EPath::getSizeInWords","EPath::expandPaddedPath"])
p("C07","Message-router requests have the prescribed wire image",
 "A request packs to service code, path size in 16-bit words, the packed path in the chosen 8-bit or 16-bit form, then the request data unchanged, for every service, path and data. The size byte always describes exactly the path bytes that follow it.",
 ["inputs","configurations"],"all services, ids, both segment widths, all data in bound",
 "One literal request per width is tested.",
 ["src/cip/MessageRouterRequest.cpp","src/MessageRouter.cpp"],[("MessageRouterRequest::pack","src/cip/MessageRouterRequest.cpp")],["MessageRouterRequest::pack","bytes handed to the session"])
p("C08","Message-router responses are parsed exactly",
 "Parsing a response yields its service code, general status, the announced number of additional-status words (little-endian, in order) and exactly the bytes after them as data, for every content. A response shorter than its header or whose announced additional status does not fit throws std::runtime_error, and parsing again replaces all results of an earlier parse.",
 ["inputs","histories"],"all byte strings in bound, and pairs of them parsed by one object",
 "Tests parse one success and one error literal; the boundary where additional status exactly fills or overruns the data, high byte values, and reuse are not covered.",
 ["src/cip/MessageRouterResponse.cpp","src/utils/Buffer.cpp"],[("expand","src/cip/MessageRouterResponse.cpp")],["getServiceCode","getGeneralStatusCode","getAdditionalStatus","getData"])
p("C09","An explicit request returns what the peer answered, or throws",
 "Sending an explicit request passes exactly one send-RR-data packet to the session, carrying the current session handle, interface handle 0, a null address item, an unconnected-data item holding the packed request, and any additional items in order. The caller gets back the service, status, data and additional items of the reply (all items after the second), and any reply that is too short or has fewer than two items makes the call throw std::runtime_error or std::system_error; an exception of the session is passed on.",
 ["inputs","fault_sequences"],"all requests and all replies in bound",
 "The router tests mock one well-formed reply; malformed replies and additional items of all shapes are not fed.",
 ["src/MessageRouter.cpp","src/eip/EncapsPacketFactory.cpp"],[("MessageRouter::sendRequest","src/MessageRouter.cpp")],["packet passed to sendAndReceive","returned MessageRouterResponse","exception"])
p("C10","A TCP session delivers whole packets under any segmentation, or throws",
 "Whatever pieces the network delivers a reply in, and whatever reads are interrupted by signals, a session exchange returns exactly the one encapsulation packet that was sent by the peer and leaves later bytes unread; everything handed to the session is sent completely and unmodified. If the peer closes the connection early, a send or receive fails, the encapsulation status is not success, or the reply carries a different session handle, the call throws std::runtime_error or std::system_error and never returns data that was not received. (For sessions registered under a non-zero handle.)",
 ["inputs","schedules","fault_sequences"],"all segmentations, EINTR placements, early closes and errors of the byte stream in bound, all header contents",
 "No unit test runs the socket code at all; segmentation and faults are schedules a test cannot enumerate.",
 ["src/SessionInfo.cpp","src/sockets/TCPSocket.cpp","src/eip/EncapsPacket.cpp"],[("sendAndReceive","src/SessionInfo.cpp"),("Receive loop / Send","src/sockets/TCPSocket.cpp")],["SessionInfo::sendAndReceive result","bytes passed to send()","bytes consumed by recv()"])
p("C11","Sessions register, use and unregister one handle",
 "Creating a session sends one register-session request (protocol version 1, options 0) and adopts the handle of a successful reply, which every later request built for the session can read; a failed registration throws and leaves no session. Destroying a registered session sends exactly one unregister-session packet with that handle, and destruction never throws, even when sending fails.",
 ["inputs","fault_sequences","histories"],"all registration replies and send faults in bound",
 "The session class is not unit-tested (it needs a socket); error replies and failing teardown are never exercised.",
 ["src/SessionInfo.cpp","src/eip/EncapsPacketFactory.cpp"],[("constructor/destructor","src/SessionInfo.cpp")],["bytes passed to send()","getSessionHandle"])
p("C12","Connection and I/O sockets are opened, closed and reported correctly",
 "Every descriptor the library obtains from the operating system is closed exactly once, when its socket object is destroyed or when its construction fails at any step, and is not used afterwards. A failing system call during construction or connect (including a refused connect and an expired connect timeout) makes the constructor throw std::system_error; a successful connect leaves the socket in blocking mode connected to the requested address and port.",
 ["fault_sequences"],"every outcome of every system call made by the TCP, UDP and bound-UDP constructors, send, receive and destructors",
 "Fault placements in system calls are not reachable by the tests, which never open a socket under fault injection.",
 ["src/sockets/TCPSocket.cpp","src/sockets/UDPSocket.cpp","src/sockets/UDPBoundSocket.cpp","src/sockets/BaseSocket.cpp"],[("constructors with try/close, destructors","src/sockets/*.cpp")],["system calls issued","exception thrown"])
p("C13","Datagram sockets send and deliver whole datagrams unmodified",
 "Sending through a datagram socket hands the complete data to the operating system once, addressed to the configured host and port, and throws std::system_error when it fails. Receiving returns exactly the bytes of the one datagram received (truncated to the requested maximum), with no padding, and throws std::system_error when receiving fails.",
 ["inputs","fault_sequences"],"all datagram lengths and contents in bound, all receive/send outcomes",
 "Tests mock the socket class; real send/receive return values are never varied.",
 ["src/sockets/UDPSocket.cpp"],[("Send/Receive/ReceiveFrom","src/sockets/UDPSocket.cpp")],["bytes passed to sendto()","vector returned by Receive"])
p("C14","Forward Open, Large Forward Open and Forward Close requests are laid out exactly",
 "For all parameters, the open requests place every parameter at its prescribed little-endian position (16-bit connection parameters in the normal form, 32-bit in the large form, reserved bytes zero) followed by the connection path, and the close request carries serial number, vendor id and originator serial with the same path. For paths of whole words, the path size always matches the path bytes that follow.",
 ["inputs"],"all parameter values, paths up to the bound",
 "One literal parameter set per request is tested.",
 ["src/cip/connectionManager/ForwardOpenRequest.cpp","src/cip/connectionManager/LargeForwardOpenRequest.cpp","src/cip/connectionManager/ForwardCloseRequest.cpp"],[("pack","src/cip/connectionManager/*Request.cpp")],["pack()"])
p("C15","Network connection parameters keep every field separate",
 "For both the 16-bit and the 32-bit layout, building parameters by setting owner, connection type, priority, size type and size once each, in any order, yields a value from which every getter returns what was set, each field occupying only its prescribed bits; the getters decode any given value by the same layout. Forward-open replies decode every field at its prescribed position, including the application reply of the announced length.",
 ["inputs","configurations"],"all field combinations, all 32-bit values, both layouts; all reply bytes in bound",
 "Tests check a few combinations; interference between adjacent fields for all values is not covered.",
 ["src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp","src/cip/connectionManager/ForwardOpenResponse.cpp"],[("shift/mask setters and getters","src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp")],["build()","getters"])
p("C16","Opening an I/O connection requests and records what was asked and granted",
 "Opening a connection sends one open request (normal or large) to the connection manager object with the caller's parameters, a fresh serial number, and connection sizes enlarged by the sequence-count and run/idle-header bytes that the transport class and real-time format require; generated connection ids differ between connections. On success the connection uses the ids, packet intervals and serial number granted in the reply and sends to the address the reply names (the session's host when none or a wildcard is given); on an error status no connection is created and an empty reference is returned.",
 ["inputs","histories"],"all parameters and replies in bound; sequences of opens",
 "Tests open two fixed connections; flag/size interaction, both request sizes and all reply contents are not explored.",
 ["src/ConnectionManager.cpp","src/IOConnection.cpp"],[("forwardOpen","src/ConnectionManager.cpp")],["request passed to the message router","returned reference","datagrams sent later"])
p("C17","The open-connection set follows the history of opens, closes and timeouts",
 "After any sequence of opens, closes and timeouts, a connection is reported open exactly if its open succeeded and it was neither closed nor timed out since; closing one connection never affects another, whatever 32-bit ids the peer assigned (distinct ones among connections open together). Closing sends one close request with that connection's serial number, vendor, originator serial and path, removes it even if the peer answers with an error status, and closing an already closed connection sends nothing.",
 ["histories","inputs"],"all histories of opens/closes/timeouts up to the bound with arbitrary ids",
 "One open/close sequence with fixed small ids is tested; id collisions in the low 16 bits and interleaved closes are not.",
 ["src/ConnectionManager.cpp","src/ConnectionManager.h"],[("connection map keyed by target-to-originator id","src/ConnectionManager.h")],["hasOpenConnections","weak reference expired","requests to the message router"],
 [dict(name="connection map",meaning="open connections by T2O id",where="src/ConnectionManager.h")])
p("C18","Received I/O data reaches exactly the addressed connection, intact",
 "A datagram is delivered to the open connection whose target-to-originator id equals the full 32-bit id in the datagram, once, with the payload after the sequence count and run/idle header bytes that connection uses, and with those two values; it reaches no other connection, and data for unknown ids is dropped. For a fixed-size connection payloads of any other size are dropped, and a malformed datagram is dropped without disturbing connections or escaping as an exception.",
 ["inputs","histories"],"all datagrams in bound against all pairs of open connections",
 "Tests inject two well-formed payloads into one connection; arbitrary datagrams, colliding ids and short frames are not fed.",
 ["src/ConnectionManager.cpp","src/IOConnection.cpp"],[("receive handler","src/ConnectionManager.cpp"),("notifyReceiveData","src/IOConnection.cpp")],["receive listener calls"])
p("C19","Output data is produced every packet interval with running sequence numbers",
 "While a connection is open, each handling step at which at least the originator-to-target packet interval has accumulated since the last production sends exactly one datagram, and no other step sends one. The datagram is a common packet with the granted connection id, an encapsulation sequence number increasing by one per datagram (gaps may remain where a production was refused or failed), and a connected-data item holding the sequence count (transport class 1/3), the run header when configured, and exactly the data set by the user at that moment; data of the wrong size on a fixed-size connection is not sent.",
 ["schedules","inputs"],"all clock advances at every step up to the bound, all intervals, formats and data",
 "Timing depends on the clock; tests sleep for one schedule and check only that a packet was sent.",
 ["src/IOConnection.cpp"],[("notifyTick","src/IOConnection.cpp")],["datagrams passed to sendto()","send listener calls"])
p("C20","A silent connection is closed exactly once after its timeout, and only then",
 "A connection is closed by timeout at a handling step exactly when the time since its data was last accepted (or since it was opened) exceeds the granted target-to-originator interval times 4 times 2 to the power of the timeout multiplier, whatever the sizes and spacing of the handling steps and for every defined multiplier (0 to 7) and every interval. The close listener is then called exactly once, nothing is sent or delivered on it afterwards, and other connections stay open.",
 ["schedules","inputs"],"all clock schedules in bound, all intervals and multipliers",
 "One sleep-based schedule cannot cover accumulations, overflow of the product or sub-millisecond steps.",
 ["src/IOConnection.cpp","src/ConnectionManager.cpp","src/IOConnection.h"],[("notifyTick watchdog","src/IOConnection.cpp")],["close listener","hasOpenConnections"])
p("C21","Discovery reports exactly the devices that answered",
 "Discovery broadcasts one list-identity request and returns, in arrival order, one entry per identity item received before the receive timeout, with the address and identity attributes (vendor, type, product code, revision, status, serial, name) exactly as sent. A datagram whose item list is malformed, or which holds no identity item, contributes nothing and does not lose the other answers, the timeout ends discovery normally, and any other socket error is reported as std::system_error.",
 ["inputs","fault_sequences"],"all sequences of datagrams up to the bound and all receive errors",
 "The test replays three copies of one literal reply; malformed replies and errors are not mixed in.",
 ["src/DiscoveryManager.cpp"],[("discover loop","src/DiscoveryManager.cpp")],["returned vector","exception"])
p("C22","File upload delivers the exact content once, or one error",
 "An upload delivers to the user's handler exactly once: SUCCESS with the concatenation of the chunks in transfer order when its length equals the announced file size, otherwise an error status with empty content. Each transfer requests the next consecutive transfer number, a reply with another number or an error status ends the upload with that one error report, and after the handler was called no further transfer is requested as long as the caller stops when told there is nothing left to do. (One upload at a time per object; the trailing checksum is not compared.)",
 ["histories","inputs"],"all reply sequences up to the bound, all sizes and contents in bound",
 "Tests run one two-chunk upload and one wrong size; reply sequences are not enumerated.",
 ["src/FileObject.cpp","src/fileObject/FileObjectUploadInProgressState.cpp","src/fileObject/FileObjectLoadedState.cpp","src/fileObject/FileObjectState.cpp"],[("state machine","src/fileObject/*.cpp")],["upload handler calls","handleTransfers result","requests sent"])
p("C23","Parameter attributes are decoded exactly as the device sent them",
 "Reading a parameter yields the value, descriptor flags, type, name, units, help, minimum, maximum, default, precision and scaling attributes exactly as in the device's replies, for every data size, link path and string length, querying only that parameter's instance. An error status in any needed reply throws std::runtime_error, and updating the value replaces the actual value only.",
 ["inputs"],"all replies in bound",
 "Tests decode three literal replies; offsets for other lengths are not covered.",
 ["src/ParameterObject.cpp","src/ParameterObject.h"],[("constructor","src/ParameterObject.cpp")],["getters","requests sent"])
p("C24","Engineering-unit scaling follows the documented formula and inverts",
 "A scalable parameter converts an actual value to ((value + offset) * multiplier * base) / (divisor * 10^precision) and back by the inverse formula, so that converting there and back is the identity up to rounding; a non-scalable parameter returns the value unchanged. The same holds for the minimum, maximum and default, and setting one of them in engineering units changes only that one. This covers every integer type of the parameter and non-zero multiplier, divisor and base.",
 ["inputs","configurations"],"all attribute values with non-zero divisor/multiplier/base and all actual values",
 "Tests use one set of scaling attributes; signed values, offset sign and integer overflow before the conversion to floating point are not covered.",
 ["src/ParameterObject.cpp","src/ParameterObject.h"],[("actualToEngValue/engToActualValue","src/ParameterObject.cpp")],["getEngValue","setEng*Value"])
p("C25","Identity attributes are decoded exactly",
 "Reading an identity object queries the requested instance and yields vendor id, device type, product code, revision, status, serial number and product name exactly as sent, for every content and name length; an error status throws std::runtime_error. Setters and getters of an identity object are independent of each other.",
 ["inputs"],"all replies in bound, all instance ids",
 "Tests decode one literal for instance 1.",
 ["src/IdentityObject.cpp"],[("constructor","src/IdentityObject.cpp")],["getters","requests sent"])
p("C26","Endpoints compare consistently and keep address and port",
 "An endpoint built from an address structure or from host and port keeps host, port and address in agreement, for every address and port. Equality is an equivalence that holds exactly for same host and port, and the ordering is a strict weak ordering consistent with that equality, so that every distinct endpoint is a distinct key in ordered containers.",
 ["inputs"],"all triples of endpoints with hosts in bound and all ports",
 "The test compares two endpoints; the ordering laws quantify over triples.",
 ["src/sockets/EndPoint.cpp"],[("operator<, operator==, constructors","src/sockets/EndPoint.cpp")],["comparison results","getters"])
p("C27","Drive fault reporting reads each fault once, in order, then clears",
 "Handling drive faults reads fault entries from number 1 upwards, reports each entry to the listener exactly once in that order with its number, code and (when requested) voltage, current and frequency scaled from that same entry's parameters, and stops at the first empty entry or after the tenth. The clear command is sent exactly once after all reports if clearing is enabled and at least one fault was reported, and never otherwise; an error status from the device throws std::runtime_error.",
 ["inputs","configurations","histories"],"all fault queues (0 to 10 entries, all known codes) and all listener configurations",
 "Tests read one or two fixed queues; the parameter-number tables for entries 3 to 10 are never exercised.",
 ["src/vendor/ra/powerFlex525/DPIFaultManager.cpp","src/vendor/ra/powerFlex525/DPIFaultParameter.cpp"],[("handleFaultParameters loop","src/vendor/ra/powerFlex525/DPIFaultManager.cpp")],["listener calls","requests sent"])
p("C28","Drive fault records and fault texts are decoded exactly",
 "Decoding a drive fault record yields code, port, device object, 16-byte text, timer value and the valid-data and real-time flags exactly as sent, querying the requested instance. Every fault code in the drive's table maps to its own description, and any other code throws std::runtime_error.",
 ["inputs"],"all 26-byte records and all 16-bit codes",
 "The test decodes one literal; flag bits and all codes are not covered.",
 ["src/vendor/ra/powerFlex525/DPIFaultObject.cpp","src/vendor/ra/powerFlex525/DPIFaultCode.cpp","src/vendor/ra/powerFlex525/DPIFaultCode.h"],[("constructor","src/vendor/ra/powerFlex525/DPIFaultObject.cpp"),("fault map","src/vendor/ra/powerFlex525/DPIFaultCode.h")],["getFullInformation","getFaultDescription"])
p("C29","The Yaskawa variant speaks the same protocol with 8-bit paths",
 "Requests through the vendor router are framed exactly like those of the standard router with 8-bit path segments: service, size in words, class/instance/attribute segments of one byte each, data, and the same reply handling and errors. Its paths pack, size, expand and compare like standard 8-bit paths.",
 ["inputs"],"all services, ids, data and replies in bound",
 "Vendor tests cover one literal request and path.",
 ["src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp","src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp","src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.cpp"],[("sendRequest/pack","src/vendor/yaskawa/mp3300iec/*.cpp")],["packet passed to sendAndReceive","response","exception"])
p("C30","Waiting on sockets serves exactly the ready ones and returns in time",
 "Waiting for data calls each socket's receive handler exactly once per readiness notification and only for sockets reported ready, keeps serving while data keeps arriving within the timeout, and returns once nothing is ready or the timeout has passed. It never waits longer than the remaining time, an interrupted or failing wait is reported as std::system_error, and with no sockets it simply returns.",
 ["schedules","fault_sequences"],"all readiness patterns, clock advances and errors up to the bound",
 "Readiness and clock are schedules; the tests do not drive this code.",
 ["src/sockets/BaseSocket.cpp","src/ConnectionManager.cpp"],[("BaseSocket::select","src/sockets/BaseSocket.cpp")],["receive handler calls","timeouts passed to select()"])
p("C31","Log messages are printed exactly when their level is enabled",
 "A log message reaches the installed appender exactly once, with its own level and text, if its level is at or above the configured severity threshold, and not at all otherwise; with logging off nothing is printed. Changing the threshold or the appender takes effect for the messages finished afterwards.",
 ["configurations","histories"],"all level/threshold combinations and orders of changes",
 "No test covers the threshold matrix.",
 ["src/utils/Logger.cpp","src/utils/Logger.h"],[("destructor comparison","src/utils/Logger.cpp")],["appender calls"])
p("C32","CIP strings keep length and content in agreement",
 "A CIP short string or string built from text or bytes of any length its length field can express reports that length and content, and survives encoding and decoding through a buffer unchanged. A string whose announced length exceeds the remaining bytes marks the buffer invalid.",
 ["inputs"],"all contents up to the bound, all announced lengths",
 "Tests use two literals.",
 ["src/cip/CipString.h","src/utils/Buffer.h"],[("CipBaseString, Buffer operators","src/cip/CipString.h")],["getLength","toStdString","Buffer::isValid"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
