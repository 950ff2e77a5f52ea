#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "Application values are encoded exactly as BACnet defines",
     """For every value of a supported kind (null, boolean, unsigned and signed 32-bit integer, single and double
     precision real, text, enumerated, object identifier) the application-tagged encoding produced is exactly the
     standard BACnet encoding of that value: the right tag, the right length field at every length, big-endian
     content in the fewest octets, text as UTF-8. With the binary option an unsigned value is encoded as an enumerated. A value that cannot be represented (an unsupported type, an object type above 1023 or an instance above 4194303, a
     non-unsigned value for a binary point) is reported as an error.""",
     ["inputs"], "every value of every supported kind, including all length-field boundaries (4/5, 253/254, 65535/65536) and integer width boundaries",
     "The tests encode a handful of values and mostly decode them with the same package, so a mistake made on both sides, or at a width or length boundary, passes.",
     ["encoding/appdata.go", "encoding/encoder.go", "encoding/string.go", "encoding/general.go"],
     [("application data encoder", "encoding/appdata.go AppData"), ("tag writer", "encoding/encoder.go tag")],
     ["Encoder.AppData(value, binary) and Encoder.Bytes()"])

prop("C02", "Application values are decoded exactly and consume exactly their octets",
     """Decoding any well-formed application-tagged value of a standard primitive type (null, boolean, unsigned and
     signed of 1 to 4 octets, real, double, octet string, UTF-8 or UCS-2 text, bit string of up to 120 bits,
     enumerated, date, time, object identifier), in any legal form of its length field, yields the value those octets denote
     (dates as calendar years since 1900 with 255 kept as 255 for unspecified, times in milliseconds) and consumes exactly those octets, so
     that consecutive values decode one after another. An encoding whose length does not fit its type, whose character set or tag is not
     supported, or whose content is cut short is reported as an error and never as some other value.""",
     ["inputs"], "every primitive value, every legal length-field form, every concatenation of values",
     "The tests decode what the package itself encoded, for a few values; signed, date, time, bit string, octet string and UCS-2 decoding of negative, wide, long or unspecified values is never compared with an independent encoder.",
     ["encoding/appdata.go", "encoding/decoder.go", "encoding/date.go", "encoding/string.go", "btypes/bitstring.go"],
     [("application data decoder", "encoding/appdata.go AppDataOfTag"), ("date/time decoding", "encoding/date.go"), ("bit string decoding", "encoding/decoder.go bitString")],
     ["Decoder.AppData() result, error and remaining Bytes()"])

prop("C03", "No octets can crash, hang or exhaust the decoder",
     """For every octet sequence, handing it to any decoding entry point (link header, network header, application
     header, property acknowledgements, application values, Who-Is, I-Am) returns in time and memory bounded in proportion to the
     sequence's length, with a result or an error, and never panics. Every proper prefix of a valid message that is not itself a valid message is reported as
     an error, never as a shorter successful result.""",
     ["inputs"], "all octet sequences up to and beyond the largest UDP datagram",
     "The tests only decode well-formed messages; lengths that exceed the data, wrong nesting, and truncation at each octet are never tried.",
     ["encoding/decoder.go", "encoding/readmultipleack.go", "encoding/readprop.go", "encoding/appdata.go", "encoding/string.go", "encoding/date.go", "encoding/npdu.go", "encoding/apdu.go", "encoding/iam.go", "encoding/whois.go"],
     [("sticky decoder error", "encoding/decoder.go decode"), ("ack parsing loops", "encoding/readmultipleack.go objectsWithData")],
     ["return values, panics, allocated bytes and CPU time of each decode call"])

prop("C04", "Network headers are encoded and decoded exactly",
     """For every network header (any version octet, priority, reply expectation, destination and source with any network number and any MAC
     length up to 255, hop count, network-layer message type and vendor id) the encoding is the standard NPDU layout, destination or source being present exactly
     when its network number is non-zero, and decoding a standard NPDU yields exactly the fields it carries and leaves
     exactly the octets after it. An I-Am-Router-To-Network message decodes to every network number it lists, each once and in order, however many there are; Network-Number-Is decodes to the number it carries.""",
     ["inputs"], "all combinations of flags, address lengths, message types and network lists",
     "The tests round-trip one or two headers; a field both sides misplace, multi-octet MAC addresses, vendor ids and network lists are not covered.",
     ["encoding/npdu.go", "btypes/npdu.go", "btypes/address.go"],
     [("NPDU encoder and decoder", "encoding/npdu.go NPDU"), ("control octet", "encoding/npdu.go NPDUMetadata")],
     ["Encoder.NPDU octets; Decoder.NPDU fields, network list and remaining octets"])

prop("C05", "Link and application headers are encoded and decoded exactly",
     """For every link header (type, function, length) and every application header (confirmed and unconfirmed
     request, simple and complex acknowledgement, error, reject, abort, segment acknowledgement; segmentation flags, invoke id, sequence and window
     number, service choice, segment and size limits) encoding produces the standard octets for the kinds that can be sent, an error for the others, and decoding yields exactly the fields carried and leaves exactly the payload. An error message yields the error
     class and code it carries, whether or not they are wrapped in an opening and closing tag.""",
     ["inputs"], "all PDU types, flag combinations, invoke ids, service choices, class and code values",
     "The tests decode a few captured headers; errors in the standard form, segmented acknowledgements and most flag combinations never appear.",
     ["encoding/apdu.go", "encoding/bvlc.go", "encoding/general.go", "btypes/apdu.go"],
     [("APDU codec", "encoding/apdu.go"), ("BVLC codec", "encoding/bvlc.go")],
     ["Encoder/Decoder BVLC and APDU methods"])

prop("C06", "Read requests say exactly what was asked",
     """For every valid object identifier, property identifier and array index, the encoded ReadProperty and
     ReadPropertyMultiple requests are exactly the standard service requests for them: every object, property and index
     asked for, in the order given, index omitted exactly when the whole property is asked for. A request naming an object
     type above 1023, an instance above 4194303, a property identifier above 4194303, or (for ReadProperty) no property, is refused with an error rather
     than encoded as some other request.""",
     ["inputs"], "all identifiers, indices and request shapes",
     "The tests round-trip a few requests through this package's own decoder and ignore out-of-range identifiers.",
     ["encoding/readprop.go", "encoding/readmultiple.go", "encoding/encoder.go", "encoding/validate.go"],
     [("request encoders", "encoding/readprop.go ReadProperty, encoding/readmultiple.go"), ("identifier validation", "encoding/validate.go")],
     ["Encoder.ReadProperty / ReadMultipleProperty octets and errors"])

prop("C07", "Write requests say exactly what was asked",
     """For every valid object, property, array index, priority (0 meaning none) and encodable value, the encoded
     WriteProperty and WritePropertyMultiple requests are exactly the standard service requests: the named object, property and index, the value inside its opening and
     closing tags (an unsigned value that WriteProperty addresses to the present value of a binary output or binary value as an enumerated), and the priority in its standard position exactly when one was given. A request whose value or identifiers
     cannot be encoded is refused with an error.""",
     ["inputs"], "all identifiers, indices, priorities and values",
     "The tests encode one write and compare nothing independent; priorities in WritePropertyMultiple, indices and every value kind are uncovered.",
     ["encoding/writeprop.go", "encoding/writemultiple.go", "encoding/encoder.go"],
     [("request encoders", "encoding/writeprop.go, encoding/writemultiple.go, encoding/encoder.go properties")],
     ["Encoder.WriteProperty / WriteMultiProperty octets and errors"])

prop("C08", "Read acknowledgements yield exactly the data they carry",
     """For every ReadProperty and ReadPropertyMultiple acknowledgement whose values are application-tagged, decoding
     yields exactly the objects, properties, array indices and values carried, in order and each once: a single value as
     that value, several as a list in order. Property and array index numbers of every width are recovered, a property access
     error inside the acknowledgement is reported as an error naming its class and code, and the acknowledgements this package encodes decode to the data they were given. An acknowledgement that is not built of
     matching, correctly placed tags with contents of the lengths their types have is refused with an error, never taken for other data.""",
     ["inputs"], "all object/property/index/value combinations, lists of any length, errors at any position",
     "The tests use one or two captured acknowledgements; lists, nested positions, indices and errors at arbitrary positions are not explored.",
     ["encoding/readprop.go", "encoding/readmultipleack.go", "encoding/context_tag.go"],
     [("ack decoders", "encoding/readprop.go ReadProperty, encoding/readmultipleack.go objectsWithData")],
     ["Decoder.ReadProperty / ReadMultiplePropertyAck results"])

prop("C09", "Who-Is and I-Am carry exactly their fields",
     """For every limit pair below 4194303 a Who-Is is encoded with exactly those limits, and without limits when either is negative or not
     below 4194303; decoding recovers exactly the limits, or -1 and -1 when there are none. For every device identifier, maximum APDU length, segmentation and vendor
     id, I-Am is encoded as the standard message and decodes to exactly those fields, and an I-Am whose fields are
     missing or of the wrong type is reported as an error.""",
     ["inputs"], "all limits and field values, all malformed field sequences",
     "The tests try a few values; width boundaries and malformed I-Ams are untested.",
     ["encoding/whois.go", "encoding/iam.go"],
     [("Who-Is codec", "encoding/whois.go"), ("I-Am codec", "encoding/iam.go")],
     ["Encoder/Decoder WhoIs and IAm"])

prop("C10", "Each operation gets the answer to its own request",
     """However many reads and writes run at once through one client, against any number of devices, and however replies are reordered,
     delayed, duplicated or lost (a reply arriving before 200 further operations have begun), every operation that succeeds returns exactly the data
     a device sent in answer to that operation's request, and a write reported successful was acknowledged by the device it was addressed to. No
     operation returns another's data, blocks forever, or crashes because of another's replies.""",
     ["schedules", "fault_sequences", "histories"], "all interleavings of concurrent operations with reordered, delayed, duplicated and lost replies",
     "The package tests need a live BACnet network and run one operation at a time; nothing exercises concurrency or a misbehaving network.",
     ["device.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "tsm/transactions.go"],
     [("dispatch by invoke id", "device.go handleMsg"), ("transaction manager", "tsm/transactions.go")],
     ["results of Client read and write calls; datagrams seen by the simulated network"])

prop("C11", "The outcome reported is the outcome that happened",
     """A write is reported successful only if a simple acknowledgement of that service answered it, and a read only if a complex acknowledgement of that
     service carrying a well-formed value did; otherwise an error is returned; an operation whose first transmission is answered so in time succeeds, however often the same was asked and answered before. An Error answer is returned as an error that names its class and code, a Reject or Abort as an error that says which it was and its reason, and
     when nothing answers, an error is returned after at most two identical transmissions and a bounded wait (under 30 s). Messages that are not answers (requests, unconfirmed services, answers
     for other invoke ids) never complete an operation.""",
     ["fault_sequences", "inputs"], "every operation against every kind of answer, non-answer and loss pattern",
     "No test has a device that answers with an error, reject, abort, wrong service or nothing.",
     ["device.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "encoding/apdu.go"],
     [("reply dispatch", "device.go handleMsg"), ("retry loops", "readprop.go, readmulti.go, writeprop.go, writemulti.go")],
     ["results of Client calls; transmissions observed at the link; virtual time"])

prop("C12", "Requests are addressed and framed correctly",
     """Every confirmed request leaves as one datagram to exactly the IP address and port of the device, framed as an
     original-unicast message whose length field equals the datagram length, with a reply expected, and with the device's
     network number and complete MAC address as destination exactly when the device is on a remote network. Who-Is and the network queries leave as
     original-broadcast messages to the link's broadcast address, carrying the network number asked for (65535 for a global broadcast, none for local). An I-Am leaves as one datagram to the address given, a broadcast exactly when that address is one (network number without a MAC, or 65535) and
     a unicast otherwise, carrying exactly its fields; an announcement that cannot be encoded is refused with an error.""",
     ["inputs", "configurations"], "all device addresses, networks, MAC lengths (1 to 7 octets) and operations",
     "Without a network the tests never look at a datagram; only single-octet MACs on a real site would ever be exercised.",
     ["device.go", "whois.go", "whoisrouter.go", "whatnetwork.go", "iam.go", "btypes/address.go", "btypes/device.go"],
     [("framing and function choice", "device.go Send"), ("address length", "btypes/address.go SetLength")],
     ["datagrams and destinations handed to the data link"])

prop("C13", "Invoke ids are unique, in range, rotated and never leaked",
     """Over any history of concurrent acquisitions and releases, the invoke ids held at one time are distinct, lie in 1 to 254, and never number more than the
     configured size; an acquisition beyond that waits and, if its context ends, fails without using up anything. A released id becomes available again
     but is not handed out until every other id that was free before it has been; releasing an id that is not held is an error with no other
     effect.""",
     ["histories", "schedules"], "all sequences and interleavings of acquire, release, cancel and double release",
     "The test takes three ids once; wrap-around after 254 transactions, cancellation races and long histories are not reached.",
     ["tsm/transactions.go"],
     [("free-id and free-space channels", "tsm/transactions.go New, ID, Put")],
     ["TSM.ID and TSM.Put results and times"])

prop("C14", "Transaction delivery is safe, at most once and never misdirected",
     """Over any interleaving of sends, receives with timeouts, acquisitions and releases, a receiver gets only
     data sent to its own transaction while that transaction was open, each datum at most once, and data sent before or while a receiver waits is received. No call
     panics, deadlocks, or races; a send to an id that is not open fails, a receive with nothing sent fails at its timeout, and a receive whose transaction is released fails at once.""",
     ["schedules", "histories"], "all interleavings of Send, Receive, ID and Put, including late and duplicate sends",
     "The test delivers two messages with no contention; late and duplicate replies racing with release and reuse need particular schedules.",
     ["tsm/transactions.go"],
     [("per-transaction channel", "tsm/transactions.go Send, Receive"), ("state pool", "tsm/transactions.go ID, Put")],
     ["call/return history of TSM operations; race detector reports"])

prop("C15", "Publications reach every open matching subscription exactly once",
     """Every datum published with an id inside a subscription's inclusive range while that subscription is open appears exactly once in what the subscription
     returns, in publication order, and nothing else does. A subscription returns when nothing matching has arrived for the quiet period, or at the overall
     timeout, whichever is first, and at no other time. No mixture of publishers and subscribers deadlocks or races.""",
     ["schedules", "histories"], "all interleavings of publishers and overlapping subscriptions, bursts of any size, all ranges",
     "The test has one slow publisher and asserts nothing about what is received; bursts, expiry races and timing are not checked.",
     ["utsm/utsm.go", "utsm/subscriber.go"],
     [("publish loop", "utsm/utsm.go Publish"), ("subscription loop", "utsm/subscriber.go Subscribe")],
     ["Manager.Subscribe results and virtual return time against the publication log"])

prop("C16", "Who-Is returns exactly the devices that answered",
     """WhoIs returns exactly one entry per distinct device instance within the requested inclusive limits (no
     limits: every instance) whose I-Am reached the client while it was waiting, however many, in whatever burst, order or
     duplication they arrive and however soon after the request. Each entry carries the instance, maximum APDU, segmentation and vendor of that
     device's I-Am and the IP address, port, network number and MAC it came from; malformed and out-of-range announcements add
     nothing. It waits at least one second for announcements and returns within 30 seconds; an error is returned when the request cannot be sent.""",
     ["schedules", "inputs", "fault_sequences"], "all sets of answering devices, bursts, duplicates, delays and limits",
     "Needs live devices; no test has more than one, nor duplicates, bursts, routed devices or malformed answers.",
     ["whois.go", "device.go", "utsm/utsm.go", "utsm/subscriber.go"],
     [("subscription and de-duplication", "whois.go WhoIs"), ("I-Am handling", "device.go handleMsg")],
     ["Client.WhoIs result against the announcements injected"])

prop("C17", "A running client survives any traffic",
     """Whatever datagrams arrive, of any content and size, from any sender, before, between or during operations, a running client does not
     crash, stop receiving, or go on working or holding memory for them, and operations issued afterwards to well-behaved devices still return the right
     results.""",
     ["inputs", "histories", "fault_sequences"], "all datagram sequences, including malformed, truncated and out-of-place messages of every kind",
     "The tests never deliver an unexpected datagram to a running client.",
     ["device.go", "encoding/decoder.go", "encoding/npdu.go", "datalink/udp.go"],
     [("receive loop and dispatch", "device.go ClientRun, handleMsg")],
     ["process survival, goroutine count, results of probe operations"])

prop("C18", "Router and network-number queries report what was announced",
     """WhoIsRouterToNetwork returns every network number listed in any I-Am-Router-To-Network message, and WhatIsNetworkNumber every
     number carried by a Network-Number-Is message, that reached the client while it was waiting, for numbers 1 to 65534 and however soon or in
     whatever burst they arrive. Nothing that was not announced is returned, and both wait at least one second for announcements and return within 30 seconds whatever else arrives.""",
     ["inputs", "schedules"], "all sets of announcements, list lengths and arrival patterns",
     "Needs live routers; no test sees an announcement.",
     ["whoisrouter.go", "whatnetwork.go", "device.go", "encoding/npdu.go"],
     [("network message handling", "device.go handleMsg, encoding/npdu.go NPDU")],
     ["results of the two queries against the announcements injected"])

prop("C19", "The object inventory is complete and correct or is an error",
     """When Objects succeeds, the device returned contains exactly the objects in the remote device's object list, each once under its type and
     instance, and every standard-type object carries the name and description that device reports for that object. It succeeds for any list length
     and any maximum APDU of 128 or more when the device answers every read correctly, within seconds or at once, whatever the mix of standard and proprietary types. If a read fails or is answered with something other than what was asked for, an error is returned, never a
     panic or a partial inventory.""",
     ["inputs", "configurations", "fault_sequences"], "all list lengths, maximum APDU sizes, type mixes and read failures",
     "Needs a live device; chunking boundaries, proprietary types, and failures part-way are untested.",
     ["objectlist.go", "btypes/device.go"],
     [("chunked list reads", "objectlist.go objectList"), ("name and description reads", "objectlist.go objectInformation")],
     ["Client.Objects result against the simulated device's database"])

prop("C20", "Size limits are honoured in both directions",
     """A ReadPropertyMultiple or WritePropertyMultiple request whose APDU exceeds the device's maximum APDU is refused with an
     error and never transmitted, and one that fits together with its network header is transmitted. An answer of any size up to the full
     1476-octet APDU, with any link and network headers in front of it, is received and returned intact.""",
     ["inputs", "configurations"], "all request sizes around each device limit and all reply sizes up to the maximum",
     "No test builds a request near a limit or receives a large reply.",
     ["device.go", "readmulti.go", "writemulti.go"],
     [("request size check", "readmulti.go, writemulti.go"), ("receive buffer size", "device.go NewClient")],
     ["transmissions observed; results of Client calls"])

prop("C21", "Forwarded and routed messages are attributed to their originator",
     """An I-Am received inside a forwarded message is reported with the originating device's IP address and port, not the forwarder's, and one that came through a router with the
     source network number and complete source MAC. A request sent to a device as WhoIs reported it goes to the sending address and carries that network number and MAC as destination, and answers that arrive
     forwarded or through a router complete the operation exactly like direct ones.""",
     ["inputs", "configurations"], "all origins, source networks, MAC lengths and header combinations",
     "Needs a BBMD or router; no test delivers a forwarded or routed message.",
     ["device.go", "whois.go", "btypes/address.go"],
     [("forwarded header and source handling", "device.go handleMsg")],
     ["Client.WhoIs results, subsequent datagrams and operation results"])

prop("C22", "Closing releases everything and failures leak nothing",
     """After Close (with or without closing logs) the receive loop ends, the UDP port can be bound again at once, and no goroutine of the client
     remains once pending operations have timed out; closing reports no error and leaves what other clients and the process use (other links, the standard error) open. However many operations and discoveries, also of the network package, came before, no goroutine of the client
     and no memory is left of them. Any history of operations, including refused, failed, timed-out and
     erroneous ones, leaves the client as able to run operations concurrently as before.""",
     ["histories", "fault_sequences"], "all histories of successful and failing operations followed by close",
     "The tests close once after success; leaked transaction slots or goroutines show only after many failures.",
     ["device.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "datalink/udp.go", "tsm/transactions.go"],
     [("close path", "device.go Close, ClientClose"), ("slot release", "tsm/transactions.go Put")],
     ["port rebinding, goroutine counts, operations completed after the history"])

prop("C23", "Value containers and helpers preserve what they are given",
     """A bit string holds exactly the bits set in it: reading, setting, listing and counting bits or bytes agree with a plain array
     of bits for every index, out-of-range indices have no effect, and none of these panics. An object map marshalled to JSON and back is
     equal, for every object type including proprietary ones, and its objects are counted and listed in full. Each slot of a 16-entry priority array of nulls, reals and unsigned numbers is reported in its own position,
     the highest is the first that is set, and the typed accessors return a property's value exactly when it has the type asked for, and the helpers for optional values give back what was put in or zero, without panicking on any input.""",
     ["inputs"], "all bit indices and operation sequences, all object maps, all priority arrays, all property data",
     "The tests marshal one map and parse nothing out of range.",
     ["btypes/bitstring.go", "btypes/object_map.go", "btypes/priority/priority.go", "helpers/data/data.go", "helpers/nils/nil.go", "btypes/device.go"],
     [("bit string", "btypes/bitstring.go"), ("JSON map", "btypes/object_map.go"), ("priority array", "btypes/priority/priority.go")],
     ["exported methods of BitString, ObjectMap, priority.BuildFloat32, data.To*"])

prop("C24", "Point operations read, write and release what they are told to",
     """For every point, value and priority, PointWriteAnalogue/Bool/MultiState and Write make the addressed device object's property at that
     priority hold exactly that value, PointReleasePriority relinquishes exactly that priority (1 to 16, anything else is refused without
     transmitting), and PointReadFloat32, PointReadBool, PointReadMultiState, PointReadPriority and the name reads return exactly what the device holds. A device error, a value
     read that is not of the expected type, or an unsupported type of value to write is returned as an error, and no other object, property or priority is touched.""",
     ["histories", "inputs"], "all sequences of writes, releases and reads on all point types and priorities",
     "The network tests need a live controller and check no result.",
     ["network/points.go", "network/read.go", "network/write.go", "network/strings.go", "network/device.go"],
     [("point operations", "network/points.go"), ("property write", "network/write.go")],
     ["results of network.Device calls; the simulated device's database before and after"])

prop("C25", "Network discovery describes each device found, and only those",
     """Network-level discovery and Who-Is return one description per answering device, each carrying that device's own id, address, network number,
     MAC, names, maximum APDU and segmentation, however many devices there are and though each takes seconds to answer. DeviceObjects returns exactly the device's object list in order, whether it is read whole or, when the whole read fails, element by element, for
     lists of any length including none and one, and returns an error when an element cannot be read; a discovery whose request cannot be sent returns an error. Stored networks and devices are returned under the id they were
     stored with and under no other, what is stored under an id is never returned as the other kind, and what cannot be stored or made (no store, no network, a port, network number or MAC out of range) is reported as an error and leaves no port open.""",
     ["inputs", "fault_sequences"], "all sets of devices, list lengths and whole-read failures",
     "Needs live devices; several devices at once and failing reads are untested.",
     ["network/discover.go", "network/whois.go", "network/objects.go", "network/store.go", "helpers/store/init.go"],
     [("discovery", "network/discover.go, network/whois.go"), ("object list", "network/objects.go"), ("store", "network/store.go")],
     ["results of network calls against the simulated devices"])

prop("C26", "UDP link and address helpers are exact",
     """For every IPv4 address and port, conversion between UDP and BACnet addresses is lossless in both directions; a link opened on an
     address and prefix listens on the port asked for, reports that address as its own and the subnet's broadcast address with the
     BACnet default port, delivers each datagram unchanged to the address given, and reports each received datagram unchanged with its true sender. Invalid addresses, prefixes or
     interfaces are reported as errors, and a port is valid exactly when it lies in 0 to 65535. A device is made at exactly the address, port, network number and MAC given, or, when one is out of range, not at all. The address predicates hold exactly when they should: broadcast when the network number is 65535 or there is no MAC, broadcast on one network when there is a network number and no address on it, unicast when the MAC has the six octets of an IP address and port.""",
     ["inputs", "configurations"], "all IPv4 addresses, ports, prefixes and datagram contents",
     "No test opens a link; address helpers are tested on one or two values.",
     ["datalink/udp.go", "btypes/address.go", "helpers/ipbytes/ip.go", "helpers/validation/vaildation.go", "device.go"],
     [("UDP link", "datalink/udp.go"), ("address packing", "helpers/ipbytes/ip.go, btypes/address.go")],
     ["datalink functions over loopback sockets; helper results"])

prop("C27", "Concurrent use of one client is free of data races",
     """Any mixture of operations of all kinds (reads, writes, Who-Is, network queries, object inventories, I-Am) issued concurrently on
     one running client, while replies, announcements and garbage arrive and the client is finally closed, is free of data races.""",
     ["schedules"], "all interleavings of concurrent operations and arrivals",
     "The tests run without the race detector and without concurrency in the client.",
     ["device.go", "whois.go", "whoisrouter.go", "whatnetwork.go", "tsm/transactions.go", "utsm/utsm.go", "utsm/subscriber.go"],
     [("locks in the transaction managers", "tsm/transactions.go, utsm/utsm.go")],
     ["Go race detector reports while the workload runs"])

prop("C28", "Operations leave their arguments unchanged, and results stay as returned",
     """No operation of the client or of a network changes the devices, addresses, property data, point descriptions or options its caller gives it,
     also when several operations share them or run at once. A result once returned is not altered by later traffic or later operations, and overwriting a
     returned result changes neither later results nor later requests.""",
     ["histories", "inputs"], "all sequences of operations over shared arguments and later traffic",
     "The tests use each argument and each result once.",
     ["device.go", "readprop.go", "writeprop.go", "readmulti.go", "writemulti.go", "whois.go", "whoisrouter.go", "whatnetwork.go", "iam.go", "objectlist.go", "tsm/transactions.go", "utsm/utsm.go", "encoding"],
     [("buffers handed from reader to results", "device.go, encoding"), ("option handling", "whois.go")],
     ["deep copies of arguments and results before and after later operations"])

prop("C29", "Numbers and their standard names agree",
     """For every number, the text given for an object type, engineering unit, error class, error code, segmentation kind or network message kind is the
     name BACnet gives that number, or, where the package has no name for it, a text that shows the number itself; a property's text is its name and number. Looking up
     a listed property name, the text of an object type, or a protocol service gives back exactly the number it names (a property name that is not listed is an
     error), every protocol service is listed once with its standard number, and a printed result shows every object, property, index and value in order.""",
     ["inputs"], "every number of 16 bits of each kind, numbers of 32 bits, every listed name and unlisted names",
     "The tests print a few names; a shifted table or a lookup that is no inverse goes unnoticed, since nothing compares the whole tables with the standard.",
     ["btypes/object.go", "btypes/property.go", "btypes/units/unit_string.go", "btypes/bacerr/errorcode_string.go", "btypes/services/services.go", "btypes/segmentation", "btypes/ndpu"],
     [("object type names", "btypes/object.go"), ("property names", "btypes/property.go"), ("units", "btypes/units"), ("errors", "btypes/bacerr"), ("services", "btypes/services")],
     ["texts and numbers returned"])

prop("C30", "Constructed values are read whole, in order and with the right types",
     """Whatever the nesting of a property's value in a ReadProperty or ReadPropertyMultiple acknowledgement, every application-tagged value in it is yielded,
     each once and in order, and no value is disturbed by its neighbours (a date and time alone in a constructed value 2 of a ReadPropertyMultiple acknowledgement are one date-time). Values in context tags of
     event time stamps, exception schedules, log references, subordinate and recipient lists, subscriptions, commands, groups and
     shed levels (requested, expected, actual) are yielded with the type the standard gives them there (calendar entries, and the recipients and references inside a subscription, excepted); any other value in a context tag is left out, never taken for a value of some type. A value whose length
     does not fit its type, or that is cut short, makes the read an error.""",
     ["inputs"], "all nestings, all standard layouts with every choice and optional part, all context tag numbers and lengths",
     "No test reads a constructed value with a context tag in it; the one captured acknowledgement has only time stamps with dates.",
     ["encoding/context_tag.go", "encoding/readprop.go", "encoding/readmultipleack.go"],
     [("context tag types", "encoding/context_tag.go"), ("value loops", "encoding/readprop.go ReadProperty, encoding/readmultipleack.go objectsWithData")],
     ["Decoder.ReadProperty / ReadMultiplePropertyAck and Client read results"])

prop("C31", "Clients of one process are independent of one another",
     """However many clients and networks one process runs, and whatever the others do or suffer (all their invoke ids taken by devices that do not answer, floods
     of datagrams, a network that cannot be reached, slow devices, discoveries, being opened and closed), a client's requests go to its own network only, up to twenty of its operations run at
     once, each is transmitted and takes no longer than it would alone, and returns what its own devices answered, though addresses, instances, objects and invoke ids are the same on the
     other networks. Its discoveries return exactly what was announced to it, answers as large as its own buffer allows arrive whole, a store holds what was stored in it and not what was stored in another
     store under the same id, and using clients side by side is free of data races.""",
     ["schedules", "histories"], "all combinations of clients, loads and failures of the others, and all interleavings of their operations",
     "The tests run one client at a time.",
     ["device.go", "tsm/transactions.go", "utsm/utsm.go", "network/store.go", "network/base.go", "network/device.go", "helpers/store", "datalink/udp.go"],
     [("state of a client", "device.go NewClient"), ("state of a store", "network/store.go NewStore"), ("clients that were started", "network/whois.go runClient")],
     ["results, requests and durations on each client's own simulated network; race detector reports"])

prop("C32", "A client transmits only what its operations ask for",
     """Every datagram a client transmits is a request of an operation under way, of the kind that operation asks for: a read sends reads only and a write writes only (each at most two, a
     Who-Is, an I-Am and a network query exactly one, an inventory or discovery only reads besides its Who-Is). No received message of any kind (Who-Is, Who-Has, requests, notifications, segments,
     link and network control, late or repeated answers, garbage) makes it transmit anything; nor do opening, idling or closing it, nor making, storing or updating devices. An operation that is refused transmits nothing, and nothing is
     transmitted for an operation after it has returned.""",
     ["histories", "inputs"], "all sequences of received datagrams and operations, and all times between and after them",
     "The tests look at what is sent for an operation, never at what is sent without one.",
     ["device.go", "readprop.go", "writeprop.go", "readmulti.go", "writemulti.go", "whois.go", "whoisrouter.go", "whatnetwork.go", "iam.go", "objectlist.go", "network"],
     [("received messages", "device.go handleMsg"), ("everything that is sent", "device.go Send")],
     ["each datagram on the simulated link matched to the operations under way; what peers hear on loopback sockets"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
