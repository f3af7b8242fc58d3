#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": observe, "hook_needed": None}})
L = "lib/src/"; I = "lib/include/dots/"

p("B01", "Every accepted publication reaches every group member exactly once, in order",
  "Every object publication the host accepts is delivered exactly once to each client that is a member of that type's group when the host processes it (the publisher included) and to the host's own subscribers, and to nobody else. All receivers see publications in the order in which the host accepted them, which keeps each publisher's own order, and each delivery carries the published values, the published set of included properties and the remove flag unchanged, over every transport.",
  ["schedules", "histories", "configurations"], "all interleavings of publishing, joining, leaving and connecting of any number of clients over TCP, UNIX-socket, WebSocket and in-process transports",
  "The transceiver tests drive one host or one guest against a mocked peer with scripted messages; no test connects several real clients and checks who got what.",
  [L+"HostTransceiver.cpp", L+"GuestTransceiver.cpp", L+"Connection.cpp", I+"io/channels/AsyncStreamChannel.h", L+"io/channels/LocalChannel.cpp", L+"io/channels/WebSocketChannel.cpp"],
  [("group membership and fan-out", "HostTransceiver::handleTransmission/transmit"), ("shared payload cache", "AsyncStreamChannel::serializeTransmission"), ("publish", "GuestTransceiver::publish")],
  ["transmission handlers of guests and host", "raw wire of a scripted client"], [("m_groups", "who is a member of which group", "HostTransceiver")])

p("B02", "All replicas of a type's cache converge to the host's cache",
  "Whenever the system is quiescent, every client that has stayed subscribed to a cached type since it joined holds exactly the set of objects that the host holds for that type, with equal property values, whenever it subscribed and whatever mixture of creations, partial updates, removals and disconnects came before. Nothing that was removed reappears and nothing that exists is missing.",
  ["schedules", "histories"], "all publication histories of any number of clients, with subscriptions and disconnects at any point of them",
  "The tests check single create/update/remove steps of one container; they never compare the caches of several processes after concurrent histories.",
  [L+"HostTransceiver.cpp", L+"Dispatcher.cpp", L+"Container.cpp", L+"GuestTransceiver.cpp"],
  [("host cache update before fan-out", "HostTransceiver::handleTransmission"), ("cache transfer on join", "HostTransceiver::handleMemberMessage/transmitContainer"), ("replica update", "Dispatcher::dispatchEvent, Container::insert/remove")],
  ["host and guest container pools at quiescence"], [("m_instances", "objects and their clone information", "Container")])

p("B03", "A late subscriber receives the current cache, counted and terminated",
  "A client that joins the group of a cached type receives, after the join and before any later publication of that type, every object that the host's cache contains at that moment exactly once with all its valid properties and last sender, marked as coming from the cache with the number of cached objects still to follow, and then one end-of-transmission notice for that type even when the cache is empty. No live publication is missing between the snapshot and the live stream and none is delivered twice.",
  ["schedules", "histories"], "all cache contents and all points of a concurrent publication stream at which a join is processed",
  "The host tests join with at most two cached objects and no concurrent publisher.",
  [L+"HostTransceiver.cpp", L+"GuestTransceiver.cpp", L+"Connection.cpp"],
  [("cache transfer", "HostTransceiver::handleMemberMessage/transmitContainer"), ("preload during connecting", "GuestTransceiver::handleTransitionImpl")],
  ["wire trace of the joining client", "host dispatch trace"])

p("B04", "Objects of cleanup types are removed when their last updater disconnects",
  "When a client's connection ends, gracefully, by an error or abruptly, the host removes exactly those objects of cleanup types that this client was the last to update, and every remaining subscriber receives one removal for each of them. Objects last updated by others, objects of other types and the caches of other clients stay untouched, and the leaving client receives nothing more.",
  ["histories", "fault_sequences", "schedules"], "all ownership histories and all ways and moments in which clients disconnect",
  "One host test removes the objects of one guest; several owners, ownership transfer, simultaneous and abrupt disconnects are not covered.",
  [L+"HostTransceiver.cpp", L+"Connection.cpp", L+"Container.cpp"],
  [("cleanup on closed transition", "HostTransceiver::handleTransitionImpl")],
  ["host container", "removal events at other clients"])

p("B05", "The origin of every delivered publication is authentic",
  "Every publication is delivered with the identifier that the host assigned to the connection it arrived on, whatever sender, host time or own-message mark the publishing client wrote into it; identifiers of connections are unique, and a client's own publications, and only those, are marked as its own when they come back. Publication and creation times that the client supplied are preserved, and at the host and at every client that stayed subscribed, the clone information of every object names the client that last changed it and the time of that change; at the host also the client that created it.",
  ["histories", "inputs", "schedules"], "all clients, including clients that forge header fields, and all interleavings of them",
  "The tests use well-behaved peers with one fixed header; forged headers and several concurrent clients are not covered.",
  [L+"Connection.cpp", L+"HostTransceiver.cpp", L+"Container.cpp", L+"Dispatcher.cpp"],
  [("sender override", "Connection::handleReceive"), ("id allocation", "Connection::M_nextGuestId"), ("clone information", "Container::insert/remove")],
  ["headers delivered to subscribers", "clone information in containers"])

p("B06", "Host services answer each request completely and only to the requester",
  "A descriptor request is answered with the description of every non-internal structure type the host knows that passes the white- and blacklist, preceded by everything needed to understand it, unless that connection has carried the description before, and exactly one end notice; an echo request is answered once with the same content; a clear-cache request removes every object of the named types, with a removal delivered to every subscriber, and touches nothing else. Replies go to the requesting client only, in the order of its requests.",
  ["inputs", "histories", "schedules"], "all type sets, list contents, cache contents and interleavings of requests with publications",
  "The tests issue single requests with one or two known types.",
  [L+"HostTransceiver.cpp", L+"io/Channel.cpp"],
  [("request handlers", "HostTransceiver::handleDescriptorRequest/handleClearCache/handleEchoRequest")],
  ["wire trace of each client"])

p("B07", "Refused publications have no effect",
  "Publishing an object without all of its key properties, of a type that may only be embedded, or without a connection is refused with an error at the caller; a peer that sends such an object, or a removal of an uncached object, has its connection closed with an error. In no case does any cache change or any subscriber receive anything, and all other clients continue to be served.",
  ["inputs", "histories", "fault_sequences"], "all types, all incomplete key sets and all states of the connection",
  "The tests cover a missing key on one type and role; peers that send refused objects over the wire next to other clients are not covered.",
  [L+"GuestTransceiver.cpp", L+"HostTransceiver.cpp", L+"Connection.cpp", L+"Dispatcher.cpp"],
  [("publish validation", "GuestTransceiver::publish, HostTransceiver::publish"), ("receive validation", "Connection::handleReceive, Dispatcher::dispatchEvent")],
  ["caches and traces of all clients"])

p("C01", "A cached object is the fold of its publication history",
  "For every sequence of publications, a cache holds exactly one object per distinct key among the objects created and not since removed; its non-key properties are those of the history applied in order, where a publication changes exactly the properties it includes and an included property without a value becomes unset. The reported operation is creation for the first publication of a key, update while it exists and removal when an existing one is removed, the clone information records creator, creation time, last sender, last operation and modification time, and the removal of an unknown object changes nothing.",
  ["histories", "inputs"], "all types, all key combinations and all sequences of create, partial update and remove",
  "The container tests use one or two fixed instances of one type per test.",
  [L+"Container.cpp", I+"Container.h", L+"ContainerPool.cpp", L+"Dispatcher.cpp"],
  [("merge of included properties", "Container::insert/updateWithoutKeys/remove"), ("key order", "Container::key_compare")],
  ["container contents after every step", "events"])

p("D01", "Every handler sees every event of its type exactly once, in order, until removed",
  "Each subscription handler that exists when a publication is dispatched is invoked exactly once for it, in one fixed order (most recent subscription first), and no handler is invoked after it was removed, even when handlers are added or removed by other handlers or by themselves during a dispatch. What a handler of a host publishes is delivered to every handler after the current publication and in the order in which it was made. A handler that subscribes to a type with cached objects first sees each of them once as created, marked with the number still to follow; a handler that throws is reported and does not prevent the other handlers from being invoked.",
  ["histories", "schedules", "programs"], "all sequences of publish, subscribe and unsubscribe, including those issued from inside handlers",
  "The dispatcher tests cover one self-removing handler; cross-removal, insertion and nested dispatch during a dispatch are not covered.",
  [L+"Dispatcher.cpp", I+"Dispatcher.h", L+"Subscription.cpp", L+"Transceiver.cpp", I+"Event.h"],
  [("deferred removal", "Dispatcher::removeHandler/dispatchToHandlers"), ("replay of cached objects", "Dispatcher::addEventHandler")],
  ["handler invocation log", "AddressSanitizer"])

p("H01", "A connection is usable only between a complete handshake and its single closing",
  "A connection moves only forward from connecting through preloading to connected and then to closed, becomes connected only after the complete exchange of hello, connect request and accepting response in that order, and delivers application objects only while it is preloading or connected. A message that does not fit the current step, or an error, closes it; closing is reported exactly once, and nothing is delivered or sent on it afterwards.",
  ["histories", "inputs", "fault_sequences"], "all orders and contents of messages a peer may send in either role, and all points at which the transport may fail",
  "The connection tests script a handful of valid handshakes and a few errors against a mocked channel.",
  [L+"Connection.cpp", I+"Connection.h", L+"HostTransceiver.cpp", L+"GuestTransceiver.cpp"],
  [("expected system type", "Connection::expectSystemType/handleReceive"), ("state changes", "Connection::setConnectionState/handleClose")],
  ["transition handler log", "wire trace"], [("m_connectionState", "protocol state", "Connection")])

p("H02", "A faulty or hostile peer harms only its own connection",
  "Whatever bytes a peer sends, in whatever pieces, and however and whenever it stalls, stops reading, resets or drops its connection, the host at most closes the connection of that peer. All other clients keep receiving all their publications, new clients are still accepted on every listener, and the process neither crashes nor accesses memory it does not own.",
  ["fault_sequences", "inputs", "schedules"], "all byte streams and connection failures of any number of hostile peers next to well-behaved clients, on every transport",
  "No test sends a malformed byte or drops a real socket at an arbitrary point.",
  [L+"HostTransceiver.cpp", L+"Connection.cpp", I+"io/channels/AsyncStreamChannel.h", L+"io/channels/TcpListener.cpp", L+"io/channels/UdsListener.cpp", L+"io/channels/WebSocketListener.cpp", L+"io/channels/WebSocketChannel.cpp", L+"io/Channel.cpp"],
  [("error routing", "Channel::processError, Connection::handleError, HostTransceiver::transmit"), ("listener errors", "Listener::processError, HostTransceiver::handleListenError")],
  ["liveness and traces of well-behaved clients", "AddressSanitizer and UBSan of the host"])

p("H03", "Access is granted exactly as the authentication rules say",
  "For every set of published authentication rules and policy, the verdict on a connecting TCP or WebSocket client is that of the first rule, by priority, that names no client or this one, whose network contains the client's address, that accepts or rejects, and that has no secret or whose secret the client's response proves; without such a rule a client that failed the proof for an accepting rule is rejected and any other is treated by the default policy, which is to accept. UNIX-socket clients are accepted; a response is demanded exactly when the first accepting rule for all clients at the address has a secret. A response is valid only for the challenge, client challenge, client name and secret it was computed from; changed and removed rules apply to the next connection; a rejected client never reaches the connected state and changes or learns nothing, and a client that is connected stays so.",
  ["inputs", "configurations", "histories"], "all rule sets, addresses, names, secrets, challenge responses and updates of the rules at run time",
  "The authentication tests use a few fixed rules and need the SHA-256 library that is missing here; malformed responses and combinations of rules are not covered.",
  [L+"io/auth/LegacyAuthManager.cpp", L+"io/auth/Digest.cpp", L+"io/auth/Nonce.cpp", L+"tools/IpNetwork.cpp", L+"Connection.cpp"],
  [("rule matching", "LegacyAuthManager::verifyAuthentication"), ("challenge response", "Digest, Nonce, Connection::handleConnect")],
  ["verdicts and connection states"])

p("I01", "Delivery does not depend on how the byte stream is cut or on the transport",
  "The sequence of objects received over a stream connection is the sequence that was sent, however the byte stream is split or coalesced in transit, however large the messages and however slowly either side reads, in both wire formats. What an end holds for a peer that does not read is bounded: beyond the limit it refuses to transmit, and everything it accepted before still arrives. The same exchange yields the same received objects over TCP, UNIX sockets, WebSockets and the in-process transport.",
  ["schedules", "inputs", "configurations"], "all segmentations of the byte stream, message sizes from empty to megabytes, and backpressure patterns",
  "The channel tests exchange a few small messages through one pre-filled buffer.",
  [I+"io/channels/AsyncStreamChannel.h", L+"io/channels/TcpChannel.cpp", L+"io/channels/UdsChannel.cpp", L+"io/channels/WebSocketChannel.cpp", L+"io/channels/LocalChannel.cpp", L+"io/Channel.cpp"],
  [("read buffering", "AsyncStreamChannel::asyncRead"), ("write queue", "AsyncStreamChannel::asyncWrite/serializeTransmission")],
  ["receive handler of the channel", "raw socket"])

p("I02", "A receiver can always decode what it receives",
  "On every connection, the description of each user-defined type is sent before the first object of that type and after the descriptions of the types it refers to, at most once per connection, so that a peer that knows none of the types decodes every object to the values that were sent. This holds for nested structures, enumerations and lists of them, for types learned from third clients, and in both directions.",
  ["inputs", "histories", "programs"], "all acyclic type graphs and all orders in which types are first used on a connection",
  "The channel tests export three fixed types once.",
  [L+"io/Channel.cpp", L+"io/DescriptorConverter.cpp", L+"type/Registry.cpp"],
  [("dependency export and import", "Channel::exportDependencies/importDependencies"), ("type reconstruction", "DescriptorConverter")],
  ["wire trace", "receiving registry and objects"])

p("S01", "Binary encoding is lossless and exact",
  "Encoding any object in either binary format and decoding it yields an object whose selected valid properties equal the original's, bit for bit for every representable value, and leaves all properties that were not selected as they were. The standard format is well-formed CBOR that maps exactly the tags of the selected valid properties to their values, in the shortest integer form, and several values written to one buffer are read back one after the other with the reported sizes.",
  ["inputs", "programs"], "all types, including nested structures, enumerations and lists, all property values including extremes, and all property selections",
  "The serializer tests compare some dozens of fixed byte strings.",
  [I+"serialization/CborSerializer.h", I+"serialization/ExperimentalCborSerializer.h", I+"serialization/Serializer.h", I+"serialization/formats/CborReader.h", I+"serialization/formats/CborWriter.h", I+"type/TypeVisitor.h"],
  [("visitor", "TypeVisitor"), ("number encoding", "CborWriter/CborReader")],
  ["encoded bytes against an independent CBOR codec", "decoded objects"])

p("S02", "Decoding arbitrary input is safe and terminates",
  "Given any byte string, every decoder of every format either produces a value or reports an error, in time and memory bounded by the size of the input. It never reads outside the input, never corrupts memory, never overflows the stack and never invokes undefined behaviour, and the object it was decoding into stays usable and destructible.",
  ["inputs"], "all byte strings and all target types",
  "Tests decode valid input and a few chosen invalid strings.",
  [I+"serialization/formats/CborReader.h", L+"serialization/formats/CborReader.cpp", I+"serialization/formats/TextReader.h", I+"serialization/Serializer.h", I+"serialization/TextSerializer.h", L+"serialization/SerializerException.cpp", I+"serialization/RapidJsonSerializer.h", L+"type/Chrono.cpp", L+"type/Uuid.cpp"],
  [("bounds checks", "CborReader::assertInputAvailable, TextReader")],
  ["AddressSanitizer, UBSan, allocation and time budgets"])

p("S03", "Unknown properties are skipped and known ones decode the same",
  "When an object encoded in the standard binary format, as JSON or in the string notation contains properties that the receiver's version of the type does not have, of any shape, size and nesting, decoding skips exactly them: all known properties get the same values as if the unknown ones were absent, and decoding continues correctly with whatever follows in the stream. Properties that the sender does not know keep the receiver's value.",
  ["inputs", "programs"], "all pairs of type versions that share tags and names, all values of the extra properties and all positions of them",
  "The tests skip two small unknown properties.",
  [I+"serialization/CborSerializer.h", I+"serialization/formats/CborReader.h", I+"serialization/TextSerializer.h", I+"serialization/formats/TextReader.h", I+"serialization/RapidJsonSerializer.h"],
  [("skipping", "CborReader::skip, TextReader::skip")],
  ["decoded objects and consumed sizes"])

p("S04", "Text encodings are lossless, well-formed and agree with each other",
  "Encoding any object as JSON or in the string notation, in every layout style, and decoding it yields an equal object up to the documented resolution of floating-point and time values, and JSON output is well-formed JSON for every string content. JSON written by either JSON implementation is read by the other to the same object, and an object that travels through text and binary formats in any order stays the same.",
  ["inputs", "programs", "configurations"], "all types and values, including strings with control, quote, non-ASCII and escape characters, and all output styles",
  "The serializer tests compare some dozens of fixed strings.",
  [I+"serialization/TextSerializer.h", I+"serialization/JsonSerializer.h", I+"serialization/StringSerializer.h", I+"serialization/RapidJsonSerializer.h", I+"serialization/formats/TextReader.h", I+"serialization/formats/TextWriter.h", I+"serialization/formats/RapidJsonReader.h", I+"serialization/formats/RapidJsonWriter.h"],
  [("escaping and number formatting", "TextWriter/TextReader")],
  ["encoded text against an independent JSON parser", "decoded objects"])

p("T01", "Objects behave as records of optional values",
  "Every object, of a compiled or a run-time defined type, behaves like a record of optional values under assignment, copying, merging, swapping, clearing, moving and comparing with any selection of properties: exactly the selected properties change, to exactly the specified values, nothing else does, and source objects keep their values unless moved from. Validity sets, key sets, equality, ordering and difference sets agree with the record, property set operations agree with set algebra, and every value is constructed and destroyed exactly once.",
  ["programs", "inputs"], "all types, all sequences of operations and all selections",
  "The type tests check each operation on one or two fixed objects.",
  [L+"type/StructDescriptor.cpp", I+"type/Struct.h", I+"type/StaticStruct.h", I+"type/DynamicStruct.h", I+"type/Property.h", I+"type/StaticProperty.h", I+"type/ProxyProperty.h", I+"type/PropertyContainer.h", I+"type/PropertySet.h", I+"type/PropertyIterator.h", I+"type/Vector.h", I+"type/VectorDescriptor.h", L+"type/AnyStruct.cpp"],
  [("descriptor operations", "StructDescriptor::assign/copy/merge/swap/clear/equal/less/diffProperties")],
  ["objects against a model record after every operation", "AddressSanitizer/LeakSanitizer"])

p("T02", "A type rebuilt from its transferred description is equivalent",
  "A type that a receiver reconstructs from a description has the same name, properties, tags, key properties and flags and non-overlapping aligned storage, and its objects behave as those of the original: they encode to the same bytes, are cached under the same keys and describe themselves identically. A description that cannot be realised is refused with an error and leaves the receiver's known types usable and unchanged.",
  ["programs", "inputs"], "all valid type descriptions and all malformed ones",
  "The tests rebuild two fixed types.",
  [L+"io/DescriptorConverter.cpp", I+"type/DynamicStruct.h", I+"type/PropertyOffset.h", L+"type/EnumDescriptor.cpp", I+"type/DynamicEnum.h", I+"type/VectorDescriptor.h", L+"type/StructDescriptor.cpp"],
  [("layout", "PropertyOffset, DescriptorConverter"), ("dynamic types", "Descriptor<DynamicStruct>, Descriptor<DynamicEnum>")],
  ["descriptors and objects of both sides", "AddressSanitizer"])

p("T03", "The type registry is complete, unambiguous and announces each type once",
  "After a type is registered, it and every type it refers to can be found by name, always as the same type, and each newly registered type is announced exactly once to every new-type subscriber, dependencies before the types that use them; a later subscriber is told of all known types once. Registering a name again never replaces the known type, lookups of unknown names or of the wrong kind fail without side effect, and a removed subscriber hears nothing more.",
  ["histories", "programs"], "all type graphs and all orders of registration, lookup, subscription and removal",
  "The registry tests register a handful of fixed types.",
  [L+"type/Registry.cpp", L+"type/DescriptorMap.cpp", L+"Transceiver.cpp", L+"type/Descriptor.cpp"],
  [("recursive registration", "Registry::registerType"), ("announcement", "Transceiver::handleNewType")],
  ["registry contents and new-type handler log"])

p("M01", "Connections, subscriptions and objects can end in any order",
  "Hosts, clients, channels, listeners, subscriptions and timers can be destroyed, moved or replaced in any order and at any moment, also inside the handlers of each other - channels, subscriptions and timers also inside their own handlers - without access to freed memory, double release, leak or deadlock, and nothing (handlers, sockets) is left of them when they and their io_context are gone. After a subscription, timer, client or host has ended none of its handlers is invoked, and everything that was moved continues to work as before the move.",
  ["schedules", "programs", "fault_sequences"], "all orders and moments of destruction with messages in flight on every transport",
  "The tests destroy everything at the end of a quiet test, without a sanitizer.",
  [L+"Transceiver.cpp", L+"GuestTransceiver.cpp", L+"HostTransceiver.cpp", L+"Connection.cpp", L+"Subscription.cpp", L+"Timer.cpp", I+"io/channels/AsyncStreamChannel.h", L+"io/channels/LocalChannel.cpp", I+"tools/Handler.h"],
  [("weak ownership of channels", "shared_ptr_only, weak_from_this"), ("teardown order", "~HostTransceiver, ~GuestTransceiver, ~Connection")],
  ["AddressSanitizer/LeakSanitizer", "handler log"])

p("U01", "Addresses, networks, times and identifiers convert faithfully",
  "Endpoint addresses decompose into their scheme, user, password, host, port and path, re-compose to the same text, and changing one component changes only that component; network membership agrees with bitwise prefix comparison. Time points (to the millisecond), durations (to the microsecond) and UUIDs survive conversion to text and back, and text that denotes no network, time point, duration or UUID is rejected without side effects.",
  ["inputs"], "all component values, including IPv6, empty and missing components, all networks and addresses, and all representable times",
  "The tests convert a few dozen fixed strings.",
  [L+"tools/Uri.cpp", L+"tools/IpNetwork.cpp", L+"type/Chrono.cpp", L+"type/Uuid.cpp", L+"io/Endpoint.cpp"],
  [("parsing", "Uri::parse, IpNetwork, TimePoint::fromString, Uuid::FromString")],
  ["results against independent reference implementations"])

p("U02", "Timers and descriptor observers fire when due and never after their end",
  "A one-shot timer fires exactly once and not before its interval has passed, a periodic timer fires at multiples of its interval without accumulating drift and without skipping a period, and timers that are due fire in the order of their due times. A descriptor observer reports readiness as long as there is some; an ended timer or observer never fires again, one that was detached keeps firing, and either may be ended from inside its own handler.",
  ["schedules", "programs"], "all sets of timers and observers, all intervals and all moments of ending them",
  "No test exercises timers or descriptor observers.",
  [L+"Timer.cpp", L+"io/FdObserver.cpp", L+"Application.cpp"],
  [("shared timer state", "Timer::AsyncWait"), ("shared observer state", "FdObserver::AsyncWait")],
  ["firing log with monotonic times", "AddressSanitizer"])

p("U03", "The daemon's client directory reflects the connections",
  "The broker daemon publishes, for every connection, one directory entry under the connection's identifier that carries the client's name and follows the state of the connection up to closed, and its status object reports the real number of cached types. Entries of closed clients are removed only when no cached object was created or last updated by that client any more, and entries of other clients are not affected.",
  ["histories", "schedules", "fault_sequences"], "all histories of clients connecting, publishing and disconnecting in every way",
  "No test runs the daemon.",
  ["bin/dotsd/src/DotsDaemon.cpp", L+"HostTransceiver.cpp", L+"Application.cpp"],
  [("directory", "DotsDaemon::handleTransition/cleanUpClients/updateServerStatus")],
  ["directory and status objects received by a client of the real daemon process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ids = set()
with open(out, "w") as f:
    for x in P:
        assert x["id"] not in ids and len(x["title"]) <= 80, x["title"]
        ids.add(x["id"])
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
