"""Statements of the properties (source of properties.jsonl and MANIFEST.json; see kx/gen.py)."""

I, H, C, P, S, F = "inputs", "histories", "configurations", "programs", "schedules", "fault_sequences"
META = {}


def prop(pid, title, statement, over, text, why, files, mech, observe=(), state=()):
    META[pid] = dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None))


K = "knx_stack/"
ENC, DEC = "knx_stack.encode_msg", "knx_stack.decode_msg"

prop("C01", "Group writes are encoded to exactly the standard frame",
     "Encoding a group value write (request, or indication towards the bus) for a communication object produces "
     "exactly the octets the KNX standard prescribes: the medium's wrapping (USB HID report or KNXnet/IP tunnelling "
     "request), a cEMI L_Data frame to the object's group address, and the whole datapoint value, six-bit values "
     "inside the APCI octet and all others behind it. This holds for every address, datapoint value, channel and "
     "sequence counter; the bits of the value are neither lost, moved nor mixed with service bits.",
     [I, C], "all group addresses, individual addresses, datapoint values, channels, sequence counters, media and association layouts",
     "the doctests encode one fixed frame per message; the value, address and counter spaces are never varied",
     [K + "encode/layer/application/a_group_value_write", K + "encode/layer/network/n_data_group", K + "encode/layer/link/l_data", K + "encode/cemi", K + "encode/usb_hid", K + "encode/knxnet_ip/tunneling/req.py"],
     [("chain of layer encoders, each prepending its header", K + "encode")], [ENC])
prop("C02", "Group reads are encoded to exactly the standard frame, or refused",
     "Encoding a group value read for an object with at least one group address produces exactly the standard frame, "
     "addressed to the object's first associated group address. For an object without group address it is refused "
     "with an exception: no frame is produced.",
     [I, C], "all addresses, channels, counters, media and association layouts up to the bound",
     "tests use one asap with one address on one medium",
     [K + "encode/layer/application/a_group_value_read/req.py", K + "encode/layer/network/n_data_group"],
     [("state.get_addresses of the object", K + "state.py")], [ENC])
prop("C03", "Property reads and writes are encoded bit exact",
     "Encoding a property value read or write produces exactly the standard frame: individual addressing, APCI, "
     "object index, property id, four-bit element count, twelve-bit start index and the data octets in order. "
     "No field overflows into a neighbouring one, whatever values they have.",
     [I, C], "all object indexes, property ids, counts, start indexes, data octets, addresses and both media",
     "tests encode one property frame; neighbouring-field leakage needs specific bit patterns",
     [K + "encode/layer/application/a_property_value_read/req.py", K + "encode/layer/application/a_property_value_write/req.py"],
     [("ctypes bit fields of A_PropertyValue", K + "definition/layer/application/a_property_value.py")], [ENC])
prop("C04", "Every length field of an encoded frame equals the actual length",
     "In every frame the stack encodes, each length field (HID report body, KNX USB protocol body, KNXnet/IP total length, "
     "connection header, structure lengths, NPDU length) equals the number of octets that actually follow.",
     [I, C], "all message kinds, media, datapoint types and data lengths",
     "tests compare a handful of complete frames of fixed length",
     [K + "encode/usb_hid", K + "encode/knxnet_ip", K + "encode/layer/link/l_data"],
     [("lengths computed from the message being wrapped", K + "encode")], [ENC])
prop("C05", "KNXnet/IP core requests carry the given endpoints and channel",
     "Encoding a search, connect, connection state or disconnect request produces exactly the standard frame: the IPv4 address and "
     "port of each endpoint in network order, the current channel where one is carried, and tunnelling link layer connection information. "
     "Encoding them does not change the connection state.",
     [I], "all IPv4 addresses, ports and channels",
     "one fixed endpoint per doctest",
     [K + "encode/knxnet_ip/core"], [("HPAI encoder", K + "encode/knxnet_ip/core/hpai.py")], [ENC])
prop("C06", "A tunnelling acknowledge echoes the request and advances the counter once",
     "Acknowledging a tunnelling request carries the connection's channel, the given status and the counter of that request when it is the "
     "expected one or a repetition of the one before. The next expected counter advances by one (modulo 256) exactly when the "
     "acknowledged request is the expected one, and nothing else of the connection changes.",
     [I, H], "all request counters, expected counters (including wrap-around), channels and status values",
     "doctests acknowledge counter 1 once; wrap-around and repetition are not exercised",
     [K + "encode/knxnet_ip/tunneling/ack.py", K + "state.py"],
     [("comparison modulo 256 and advance in the acknowledge encoder", K + "encode/knxnet_ip/tunneling/ack.py")], [ENC],
     [("sequence_counter_remote", "next expected counter", K + "state.py")])
prop("C07", "A received group telegram reaches exactly the associated objects",
     "A group telegram is delivered as one message of the right kind to each communication object that is associated with its "
     "destination address and has a datapoint type, and to no other object. A telegram for an address without association delivers nothing.",
     [I, C], "all sources, destinations, control bits, payloads, media, and association tables up to the bound",
     "tests decode a handful of telegrams against tables of one or two rows",
     [K + "state.py", K + "decode/layer/application/a_group_value.py", K + "definition/layer/transport/association_table.py"],
     [("get_asaps_and_dpts", K + "state.py")], [DEC])
prop("C08", "The delivered datapoint holds exactly the value octets of the telegram",
     "The value delivered with a group write or response is exactly the payload of the telegram, most significant octet first, "
     "or the six low bits of the APCI octet for short values, in an object of the datapoint type configured for that communication object; it stays so whatever telegram follows.",
     [I, C], "all payload values of every datapoint type, both media",
     "tests decode a few values; bit-level leaks and octet order need specific payloads",
     [K + "decode/layer/application/a_group_value.py", K + "datapointtypes.py"], [("value assembled from APDU octets", K + "decode/layer/application/a_group_value.py")], [DEC])
prop("C09", "A confirmation reports success exactly when the bus confirmed it",
     "The confirmation of a group or property request is reported as successful exactly when the confirm flag of the frame's control "
     "field is clear, for each object concerned.",
     [I, C], "all control field, source and payload values; all request kinds; both media",
     "tests decode positive confirmations only",
     [K + "decode/layer/application", K + "definition/layer/link/ldata.py"], [("confirm bit of control field 1", K + "definition/layer/link/ldata.py")], [DEC])
prop("C10", "Property telegrams are reported with all their fields, for this device only",
     "A property read, response or write that concerns this device (an indication whose source, a confirmation whose destination is the "
     "stack's own individual address) is reported with its object index, property id, element count, "
     "start index and data exactly as carried. One that concerns another device is not reported.",
     [I, C], "all field values, data lengths and addresses, indications and confirmations, both media",
     "tests decode one property telegram",
     [K + "decode/layer/application/a_property_value.py", K + "decode/layer/network/n_data_individual"],
     [("bit fields of A_PropertyValue", K + "definition/layer/application/a_property_value.py")], [DEC])
prop("C11", "Only frames with a supported, well-formed header are interpreted",
     "A frame is interpreted only if its medium header has the prescribed values (report identifier, protocol version, protocol, EMI type; "
     "KNXnet/IP header size and version; known service). Any other frame yields no message and changes no connection state.",
     [I], "every value of every header octet",
     "tests feed well-formed headers only",
     [K + "decode/usb_hid", K + "decode/knxnet_ip/header.py", K + "decode/cemi"], [("header checks", K + "decode")], [DEC])
prop("C12", "Decoding a complete frame never fails, whatever it carries",
     "Decoding any frame whose length fields are consistent returns a list of messages; it never raises, whatever service, "
     "transport or application control code, address or payload the frame has, supported by the stack or not.",
     [I, C], "every cEMI message code, control field, TPCI/APCI and payload up to the length bound; every KNXnet/IP service",
     "tests feed supported services only; the space of codes is not sampled",
     [K + "decode", K + "definition"], [("dispatch on message code, TPCI and APCI", K + "decode")], [DEC])
prop("C13", "A truncated frame never yields data",
     "A frame that ends before the octets its own length fields announce never yields a message carrying a datapoint or property value: "
     "it yields nothing or is rejected with an exception.",
     [I, F], "every cut position of every frame kind, all contents",
     "no test truncates a frame",
     [K + "msg.py", K + "decode"], [("length checks while consuming octets", K + "msg.py")], [DEC])
prop("C14", "What one stack encodes, another decodes to the same message",
     "A group write, read or property request encoded by one stack and received by another as an indication is reported with the same "
     "kind, value and fields for every object the receiver associates with the address.",
     [I, C], "all values, addresses and fields, both media, all datapoint types",
     "no test connects the encoder with the decoder",
     [K + "encode", K + "decode"], [("symmetry of encoders and decoders", K)], [ENC, DEC])
prop("C15", "Tunnelled requests are delivered exactly once, in sequence, across wrap-around",
     "A tunnelling request is delivered exactly when its counter is the expected one; a repetition of the previous request is reported as "
     "acceptable but delivers nothing, and any other counter is reported as a sequence error and delivers nothing. "
     "Comparison is modulo 256 and reception by itself changes no counter.",
     [I, H, F], "all request and expected counters, all repetition histories up to the bound, all payloads",
     "tests receive one or two requests with small counters",
     [K + "decode/knxnet_ip/tunneling/req.py"], [("counter comparison", K + "decode/knxnet_ip/tunneling/req.py")], [DEC],
     [("sequence_counter_remote", "next expected counter", K + "state.py")])
prop("C16", "The own tunnelling counter advances exactly on its acknowledge",
     "A tunnelling request carries the connection's channel and own counter, and encoding it (also repeatedly) does not advance the counter. "
     "A positive acknowledge advances the own counter by one modulo 256 exactly when it carries the current counter; an acknowledge with any other "
     "counter leaves it alone.",
     [I, H], "all counters, statuses and channels",
     "doctests use counters 0 and 1",
     [K + "decode/knxnet_ip/tunneling/ack.py", K + "encode/knxnet_ip/tunneling/req.py"], [("own counter", K + "state.py")], [ENC, DEC])
prop("C17", "KNXnet/IP core responses are reported with the endpoint and status they carry",
     "Search, connect, connection state and disconnect responses are reported with exactly the endpoint, individual address, channel and status "
     "they carry. Only a successful connect response (adopting its channel) and a successful disconnect response (clearing it) change the connection.",
     [I, F], "all endpoint, address, channel values and all status codes, with and without endpoint in refusals",
     "one positive response per doctest",
     [K + "decode/knxnet_ip/core"], [("field-wise consumption of the response", K + "decode/knxnet_ip/core")], [DEC])
prop("C18", "The channel used is the one of the last successful connection",
     "After any sequence of connect, refusal, connection state and disconnect responses, every request the stack encodes carries the channel "
     "of the last successful connect response, or none (zero) after a disconnect.",
     [H, F], "all event histories up to the bound, all channel values",
     "no test runs a history of connections",
     [K + "decode/knxnet_ip/core", K + "definition/knxnet_ip/state.py"], [("channel kept in the state", K + "definition/knxnet_ip/state.py")], [ENC, DEC])

AT, AS = K + "definition/layer/network/address_table.py", K + "definition/layer/transport/association_table.py"
GO, DT = K + "definition/layer/application/groupobject_table.py", K + "datapointtypes.py"
prop("C19", "The address table is sorted, duplicate free and bounded",
     "After construction and after any sequence of add and remove, an address table holds exactly the group addresses added and not removed, "
     "each once, in ascending order and never more than its maximum size; adding to a full table is refused and changes nothing. "
     "TSAP and address are inverse to each other, TSAP 0 is the individual address, and an absent address has no TSAP.",
     [I, H, C], "all addresses, operation sequences up to the bound in every order and with duplicates, maximum sizes around the boundary",
     "the doctest performs one add and one remove on three fixed addresses",
     [AT], [("sorted insertion under a size limit", AT)], ["AddressTable.addresses", "AddressTable.get_tsap", "AddressTable.get_address"],
     [("_group_addresses", "the sorted group addresses", AT)])
prop("C20", "The association table and the address table stay consistent",
     "After any sequence of associations and disassociations: the address table holds exactly the addresses some object is associated with; "
     "the TSAPs and addresses of an object are its associated ones in association order, each once; the objects reported for an address are "
     "exactly those associated with it, each once.",
     [I, H], "all addresses and all histories up to the bound over two objects and shared addresses",
     "the doctest runs one history in which no address is shared",
     [AS, AT], [("associate / disassociate keep both tables in step", AS)],
     ["AssociationTable.get_tsaps", "AssociationTable.get_addresses", "AssociationTable.get_asaps_from_address", "AddressTable.addresses"],
     [("_asap_addresses", "addresses per object in association order", AS)])
prop("C21", "Object numbers identify objects; free numbers are free; types are a map",
     "ASAPs are equal, and hash equally, exactly when their numbers are equal, whatever their names. get_free_asap_value returns a number "
     "no object uses, whatever the history. The group object table behaves as a map from object number to datapoint type, and tables created "
     "separately share nothing.",
     [I, H], "all object numbers, names and orders of association; histories up to the bound",
     "the doctests use objects 1 and 2",
     [AS, GO, K + "state.py"], [("ASAP identity", AS), ("map from ASAP to type", GO)], ["ASAP", "AssociationTable.get_free_asap_value", "GroupObjectTable"])
prop("C22", "The notations of a group address denote the same sixteen bits",
     "The free, two level and three level notation of a group address always denote the same sixteen bits, whichever was written; addresses "
     "are equal and hash equally exactly when these bits are equal, and print as these notations.",
     [I], "all 65536 group addresses, every notation written and read",
     "two doctest addresses",
     [K + "address.py"], [("union of bit fields", K + "address.py")], ["GroupAddress", "Address"])
prop("C23", "Datapoint fields occupy the prescribed bits and are independent",
     "Every accessor of a datapoint reads and writes exactly the bits the datapoint type prescribes for it, for every value of the datapoint, "
     "and changes no other field; names outside an enumeration are refused without effect. Exactly the types of six bits or less travel "
     "inside the APCI octet.",
     [I], "all values of every datapoint type, all accessors and written values",
     "doctests read or write one pattern per type",
     [DT], [("bit field structures and property accessors", DT)], ["DPT_* accessors"])
prop("C24", "A datapoint survives the round trip through its description",
     "The description of a datapoint lists exactly its fields with their numbers or enumeration names, and the factory makes from it a new "
     "datapoint of the same type and value; neither changes its argument.",
     [I], "all values of all field-structured datapoint types with valid enumeration codes and no reserved bit",
     "doctests make two descriptions and never feed one back",
     [DT], [("Description_Factory and DPT_Factory", DT)], ["Description_Factory.make", "DPT_Factory.make"])
prop("C25", "Float datapoints denote the standard number in both directions",
     "A two octet float decodes to 0.01 * mantissa * 2^exponent with a two's complement mantissa; encoding any number of hundredths or "
     "thousandths in range yields octets that decode to within one step of it, encoding a decoded number keeps it, and a number out of range "
     "is refused leaving the value alone. A four octet float is an IEEE 754 single and survives decoding and encoding.",
     [I], "all mantissas, exponents and signs; all numbers of hundredths and thousandths over the range of the type",
     "doctests convert about a dozen numbers",
     [DT], [("DPT_Float_16.encode/decode", DT), ("DPT_Float_32", DT)], ["DPT_Float_16.decode", "DPT_Float_16.encode", "DPT_Float_32"])
prop("C26", "Messages are consumed octet by octet without loss and survive printing",
     "Taking an octet, a short or a long off the front of a message of any medium gives the big-endian number of its first octets and, "
     "as body, a message of the same class with the octets that follow; the message itself is unchanged and one with too few octets "
     "is refused. Printing a message as hexadecimal digits and reading these gives the same octets; text with any other character is refused.",
     [I], "all octet values, all lengths up to the bound, the three message classes",
     "doctests consume one fixed message and print a few",
     [K + "msg.py", K + "definition/knxnet_ip/msg.py", K + "definition/usb_hid/msg.py"],
     [("Msg.octect / short / long, make_from_str", K + "msg.py")], ["Msg", "Octect", "Short", "Long"])
prop("C27", "Exactly the requests are encoded; everything else is refused without effect",
     "encode_msg produces a message of octets for every request class (and the write indication and tunnelling acknowledge), refuses "
     "every class that only reports and anything that is no message with an exception, and then leaves the state as it was. decode_msg "
     "refuses a medium without decoder in the same way.",
     [I, C], "all message classes, media and field values",
     "tests encode each request once and never try what cannot be encoded",
     [K + "__init__.py"], [("encode_mapping and the medium dispatch", K + "__init__.py")], [ENC, DEC])
prop("C28", "The tunnelling client answers every datagram as the protocol demands",
     "The tunnelling client sends one connect request with its own endpoint when opened; answers a successful connect response, and no "
     "other, by resetting both counters, sending a connection state request with the new channel and becoming connected; acknowledges "
     "every expected or repeated tunnelling request exactly once with the request's counter, whatever telegram it carries, and no request out of sequence; everything "
     "goes to the gateway it was given, and nothing else is sent.",
     [H, I], "all histories of datagrams up to the bound, all channels, counters and payloads",
     "no test touches the clients", [K + "client/knxnet_ip.py"],
     [("Tunneling.connection_made / datagram_received", K + "client/knxnet_ip.py")], ["Tunneling", "start_tunneling"],
     [("connected", "a successful connect response was received", K + "client/knxnet_ip.py")])
prop("C29", "The tunnelling client sends every message once, in order, when connected",
     "The writer of the tunnelling client sends no tunnelling request before a successful connect response, and afterwards each of its "
     "messages exactly once, in order, as the standard frame with the channel and counter in force at that moment, whatever datagrams "
     "arrive while it waits.",
     [S, H], "all schedules of datagrams at the points where the writer waits, up to the bound",
     "no test touches the clients; the order depends on the event loop", [K + "client/knxnet_ip.py"],
     [("Tunneling.writer", K + "client/knxnet_ip.py")], ["Tunneling.writer"])
DM = "daemon/usbhid.c"
prop("C30", "The USB daemon never touches memory or descriptors it may not",
     "Whatever octets clients send, whatever packets the device delivers and however connections come, fail and go: the daemon accesses "
     "only live, initialised memory inside its objects, uses only open descriptors, closes every connection that ended or that it "
     "has no room for, keeps running when a client misbehaves, and stops with an error when a system call it depends on fails.",
     [I, H, F], "all lengths of a read, all classes of characters, all packet lengths up to the report size, histories of connections "
     "including more clients and higher descriptors than the daemon has room for, failing system calls",
     "nothing in the test suite runs the daemon; the errors need unusual lengths and counts", [DM],
     [("read_from_client", DM), ("client_fds and the fd_set in main", DM)], ["read_from_client", "write_to_client", "main"])
prop("C31", "The USB daemon forwards each line to the bus, each packet to every client",
     "Each line of an even number of hexadecimal digits (at most 56 octets, in upper or lower case, ended by LF, CR LF or CR, received in one piece) "
     "leads to exactly one write of 56 octets to the device: the octets of the line, then zeros. Any other line of up to 113 characters leads to "
     "no write. Each packet of the device is written exactly once to each connected client, as the lower case digits of its octets and a line feed; "
     "clients are sent nothing else.",
     [I, H], "all digits of every range at every position, all lengths, all listed histories of clients",
     "nothing in the test suite runs the daemon", [DM],
     [("read_from_client / write_to_knx_cemi", DM), ("read_from_knx_cemi / write_to_client", DM)], ["main"])
prop("C32", "A change of the tables takes effect on the very next message",
     "After every prefix of any history of associating, disassociating, typing and untyping objects, the frame an object sends goes to its "
     "first associated address at that moment (and it sends none without an address), and a telegram reaches exactly the objects "
     "associated and typed at that moment, with the datapoint type in force.",
     [H, I], "all histories of table changes up to the bound, all addresses, both media",
     "tests build their tables once", [K + "state.py", AS, GO],
     [("State looks the tables up for every message", K + "state.py")], [ENC, DEC])
prop("C33", "Whatever the stack returns can be printed",
     "repr and str of every decoded message, request, datapoint, address, number of octets, table and state return text and never raise, "
     "whatever the values of the fields.",
     [I], "all values of all datapoint types, all fields of all messages, all statuses",
     "doctests print a few values with defined codes only", [DT, K + "state.py", K + "definition"],
     [("Description_Factory behind DPT.__repr__", DT)], ["repr"])
prop("C34", "The USB client writes every message once, in order, one line of digits each",
     "The USB client connects to the daemon it is given and writes, for each of its messages in order and exactly once, the hexadecimal "
     "digits of its frame and a line feed, and nothing else; it reads every line the daemon sends, however its two tasks are interleaved.",
     [S, I], "all orders of the two tasks and nestings of one in a wait of the other, up to the bound; all values and addresses",
     "no test touches the clients", [K + "client/usbhid.py"],
     [("Client._knx_write / _knx_read", K + "client/usbhid.py")], ["Client"])
prop("C35", "The discovery client asks once, from its endpoint, and takes every response",
     "A discovery request sends one search request, naming the endpoint it is given, to the discovery multicast endpoint, and nothing "
     "else whatever it receives; a listener waits on the endpoint it is given, accepts every search response, overlooks any datagram of a service the stack does not interpret, and sends nothing.",
     [I], "all ports, all search responses, a few addresses",
     "no test touches the clients", [K + "client/knxnet_ip_discovery.py"],
     [("Request / Listen", K + "client/knxnet_ip_discovery.py")], ["Request", "Listen", "send_discovery_request", "listen_discovery_responses"])
prop("C36", "Encoding and decoding depend on message and tables only, without side effects",
     "Encoding the same request or decoding the same frame again in the same state gives the same result; arguments, tables and (apart from "
     "what other properties prescribe) connection keep their observable content; results share no mutable part with their arguments or "
     "with each other; states made separately never influence each other.",
     [I, H], "all field values; interleavings of two stacks up to the bound",
     "tests use each object once", [K + "__init__.py", K + "encode", K + "decode", K + "state.py"],
     [("no module-level state, fresh objects per call", K + "encode")], [ENC, DEC])
prop("C37", "The USB daemon serves the device named on its command line",
     "Started with -d or --dev-hidraw and a device name, in any form getopt accepts, the daemon opens that device for reading and writing; without, "
     "the default device; asked for help it opens nothing and succeeds; a device that cannot be opened is reported as failure.",
     [C], "the short, long, joined and separate forms of each documented option",
     "nothing in the test suite runs the daemon", [DM], [("getopt_long loop in main", DM)], ["main"])
prop("C38", "Transport connection control frames are exact and leave nothing behind",
     "The T_Connect and T_Disconnect requests are encoded to exactly the standard control frames for the stack's own individual address; they "
     "change neither tables nor argument, and the group write or property read encoded next is the same as without them. Received control "
     "frames deliver no service.",
     [I, H, C], "all individual addresses, media and preceding operations up to the bound",
     "one doctest encodes one connect frame; the effect on the next frame is never looked at",
     [K + "encode/layer/transport/t_connect/req.py", K + "encode/layer/transport/t_disconnect/req.py", K + "decode/layer/network/n_data_individual"],
     [("L_Data.tpci of connected control frames", K + "definition/layer/link")], ["knx_stack.encode.layer.transport.t_connect.req.encode"])
prop("C39", "Status reports of the USB interface are reported as they are, and only those",
     "A bus connection status or active EMI type that the KNX USB interface reports about itself, as information or as response, with the KNX "
     "manufacturer code, is reported with exactly its value (Connected or Disconnected; emi1, emi2 or cEMI). Any other service, manufacturer, "
     "feature or value of the bus access server protocol yields nothing. Tables are not changed and telegrams that follow are delivered as ever.",
     [I, H], "every value of every octet; preceding operations and frame sizes up to the bound",
     "no test feeds a status report",
     [K + "decode/usb_hid/report_body/usb_protocol_header/bus_access_server_feature", K + "definition/usb_hid/report_body"],
     [("service_identifier / feature_identifier decode", K + "decode/usb_hid/report_body/usb_protocol_header/bus_access_server_feature")], [DEC])
prop("C40", "Link layer frames and property headers give access to the prescribed bits",
     "Reading an L_Data frame gives for every accessor (source, destination, address type, confirm flag, control flag, transport and application "
     "control, data bits) exactly the bits the standard prescribes, the kind of service data unit it defines for them, and the payload that "
     "follows; writing one field changes no other, and frames share nothing. The same holds for the fields of a property service header.",
     [I, C], "all values of all octets; sequences of writes up to the bound",
     "doctests read one frame and one header",
     [K + "definition/layer/link/ldata.py", K + "definition/layer/application/a_property_value.py"],
     [("L_Data", K + "definition/layer/link/ldata.py"), ("PropertyServiceHeader", K + "definition/layer/application/a_property_value.py")], ["L_Data"])
prop("C41", "The records of a frame are read whole, in order and without loss",
     "Reading an endpoint (HPAI), connection request or response record, or connection header off the front of a KNXnet/IP or USB message gives exactly its fields "
     "and, as rest, a message of the same class with exactly the octets that follow; the message itself is not changed, and one that ends "
     "within the record is refused.",
     [I, F], "all values of all octets, all lengths up to the bound, all orders of records",
     "tests read whole frames with fixed endpoints",
     [K + "definition/knxnet_ip/msg.py", K + "definition/usb_hid/msg.py"],
     [("Msg.HPAI, CRI, CRD, header", K + "definition/knxnet_ip/msg.py")], ["HPAI", "CRI", "CRD", "header"])
prop("C42", "Printed messages, tables and addresses name exactly what they hold",
     "The printed form of a message is the documented one: its kind, and each of its fields (status, datapoint, object, property fields, endpoints, "
     "sequence counter) at its place with its value. Printed tables list exactly the objects, addresses and datapoint types they hold at that moment, "
     "in their order; octets, words and addresses print as hexadecimal digits of their width.",
     [I, H], "all values of all fields; all histories of table changes up to the bound",
     "doctests print a few values",
     [K + "definition", K + "address.py", K + "msg.py"],
     [("__repr__ of messages and tables", K + "definition")], ["__repr__"])
prop("C46", "Only the services the stack supports yield service messages, each its own",
     "A telegram yields service messages only if it is an indication or confirmation of the data link layer that carries a group value read, "
     "response or write in unnumbered data to a group address, or a property read, response or write of this device; the message is of exactly "
     "that kind. Any other application service, a transport acknowledge, a broadcast, group data with another transport control octet and any "
     "other message code yield none.",
     [I], "every application service code, transport control octet, message code and control field; data lengths up to the bound",
     "tests decode the services the stack supports",
     [K + "decode/layer", K + "decode/cemi"],
     [("selection of the service", K + "decode/layer/transport")], [DEC])
prop("C43", "A silent or vanished gateway is noticed and the connection kept alive",
     "While a tunnelling connection is up, the gateway is asked for the connection state within its time-out, a request that stays unacknowledged "
     "for the standard time is repeated, and after the prescribed number of failures the connection counts as down.",
     [H, F], "all timings of datagrams and of their loss",
     "no test runs a clock or loses a datagram",
     [K + "client/knxnet_ip.py"],
     [("Tunneling.writer", K + "client/knxnet_ip.py")], ["datagrams sent over time"])
META["C43"]["na"] = ("the guarantee quantifies over wall-clock time; the client holds no timer whose bound could be read off the source (it sleeps a fixed "
                     "time between messages), so there is nothing a static argument could bound")
prop("C44", "The USB daemon loses nothing when lines are split, joined or clients are slow",
     "However the network divides the text of the clients into segments, and however slowly they take what is sent to them, every line and every "
     "packet is passed on once and whole.",
     ["schedules", F], "all segmentations of the stream and all short writes of the kernel",
     "nothing in the test suite runs the daemon",
     ["daemon/usbhid.c"], [("read_from_client, write_to_client", "daemon/usbhid.c")], ["octets written"])
META["C44"]["na"] = ("segmentation and short writes are decided by the kernel at run time; the daemon takes one read for one line and one write for one packet "
                     "by design, so the property does not hold for it and no source-level bound makes it so; C31 decides what holds when reads are lines")
prop("C45", "One stack can be used by several threads at a time",
     "Encoding and decoding on one state from several threads gives the results of some order of the calls.",
     ["schedules"], "all interleavings of threads",
     "no test starts a thread",
     [K + "state.py"], [("State", K + "state.py")], ["encode_msg, decode_msg"])
META["C45"]["na"] = ("the state is a plain mutable object without any lock, and nothing promises its use by threads: there is no lock discipline to analyse; "
                     "separate states are covered by C36")
