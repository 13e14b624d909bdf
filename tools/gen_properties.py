"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })

prop("C01", "Byte stuffing is transparent and keeps the terminator unique",
 "For every byte string ending in the terminator 0x0D, stuffing it and then unstuffing it gives back exactly the original bytes. "
 "The stuffed form contains 0x0D only as its last byte and contains no 0x8D, and 0x0D, 0x1B and 0x8D are written as 1B 0E, 1B 1B and 1B 0F while every other byte is sent unchanged. "
 "Stuffing a string that does not end in the terminator is refused.",
 ["inputs"], "every byte string (bounded: all strings over the eight byte classes the codec distinguishes up to a length bound, all 1- and 2-byte strings over the full alphabet, every byte value in every context)",
 "Two example telegrams are checked today; the property is about every possible telegram, in particular those where escape bytes and their substitutes are adjacent.",
 ["elgas/utils.py", "elgas/connection.py"],
 [("escape_characters / return_characters", "elgas/utils.py"), ("send() stuffs, next_event() unstuffs", "elgas/connection.py")],
 observe=["stuffed bytes", "unstuffed bytes", "bytes returned by the connection for the wire"])

prop("C02", "Frames carry every header field and the payload unchanged",
 "Serialising a request or response frame (plain or encrypted type) produces STX, identifier, type, service, little-endian length of everything after STX, destination and source addresses (16-bit little-endian plus one byte each), payload, LRC, checksum, DRC and terminator. "
 "Parsing that serialisation returns a frame equal to the original in service, all four address parts and payload. "
 "A connection puts its configured addresses and the request's service and payload into exactly these positions.",
 ["inputs", "configurations"], "all address values, all services, all frame types, payload lengths 0..2000 and payload contents",
 "The tests only build frames with address 0 and never parse a request they built, so a byte-order or offset error in any header field is invisible to them.",
 ["elgas/frames.py", "elgas/connection.py"],
 [("to_bytes / from_bytes of the four frame classes", "elgas/frames.py"), ("frame construction in send()", "elgas/connection.py")],
 observe=["frame bytes", "parsed frame fields"])

prop("C03", "A corrupted frame is never delivered as an answer",
 "If the bytes of a response are damaged in transit (a byte replaced, lost, duplicated or inserted, two bytes exchanged, the frame cut short, or payload, length or redundancy bytes made mutually inconsistent in any other way), the connection does not deliver an answer from them. "
 "An answer is delivered only from a delimited frame whose prefix, length field, LRC, checksum and DRC all agree, and then it is the answer that frame encodes.",
 ["inputs", "fault_sequences"], "every single-byte damage at every position of frames of every service, every exchange of two bytes, every truncation, and every data damage compensated in all but one of the redundancy bytes",
 "One captured frame is only printed, not asserted; the tests never damage a frame, let alone at every position with every value.",
 ["elgas/frames.py", "elgas/utils.py", "elgas/connection.py"],
 [("length, LRC, checksum and DRC checks", "elgas/frames.py: from_bytes"), ("frames that do not parse are not delivered", "elgas/connection.py: next_event")],
 observe=["result of polling the connection"])

prop("C04", "How received bytes are split into chunks does not matter",
 "A response split into chunks in any way, including inside an escape sequence, with empty chunks and with polling between any of them, leads to exactly the same answer as when it arrives in one piece. "
 "Before the terminator has arrived polling always asks for more data and changes nothing.",
 ["schedules", "inputs"], "all 2^(n-1) splits of short responses, all splits with up to two (thorough: three) cuts of long ones, polling after every chunk or only at the end, over two consecutive exchanges",
 "No test ever feeds the connection in more than one piece (or at all); the space of splits is exponential.",
 ["elgas/connection.py"],
 [("receive buffer and search for the terminator", "elgas/connection.py: receive_data, next_event")],
 state=[("buffer", "bytes received and not yet consumed", "elgas/connection.py")],
 observe=["sequence of polling results"])

prop("C05", "The session resynchronises after unusable input",
 "Stray terminators and complete but unusable frames (noise, truncated or damaged frames, echoed requests, frames of unknown services) that arrive before a valid response to the outstanding request, in any number, order and chunking, do not prevent that response from being delivered once it has arrived. "
 "Whatever was left over in the same chunk behind an accepted response, or behind an answer by which the device refuses the request, does not disturb the next exchange.",
 ["histories", "fault_sequences"], "all sequences up to a depth over an alphabet of unusable inputs, glued or separate, polled or not, before and behind the valid response, over two exchanges",
 "Tests never feed a bad frame into a connection; the failure needs a multi-step history.",
 ["elgas/connection.py", "elgas/frames.py"],
 [("a lone terminator in an empty buffer is ignored", "elgas/connection.py: receive_data"), ("unusable frames are consumed", "elgas/connection.py: next_event")],
 state=[("buffer", "unconsumed bytes", "elgas/connection.py")],
 observe=["polling results", "ability to run the next exchange"])

prop("C06", "One outstanding request, answered only by its own response",
 "While a request is outstanding, any further request is refused with a protocol error, yields no bytes for the wire and leaves the outstanding one untouched; a request that cannot be encoded likewise leaves the session as it was. "
 "A response is delivered only if it answers the outstanding request, after which the session is idle again; a response of any other kind (an error response of another request included), or one that arrives unsolicited, is refused with a protocol error, is never delivered later, and does not change what the session is waiting for.",
 ["histories"], "all histories up to a depth of requests of every kind, unencodable requests and responses of every kind, with and without encryption",
 "The session state machine is not exercised by any test; the property ranges over all event histories.",
 ["elgas/state.py", "elgas/connection.py"],
 [("transition table", "elgas/state.py"), ("process_event before encoding / before delivering", "elgas/connection.py")],
 state=[("session state", "idle or awaiting the response to one request kind", "elgas/state.py")],
 observe=["bytes or exception from sending", "answer or exception from polling"])

prop("C07", "Device errors surface as errors and free the session",
 "A response whose payload is a single byte with at least one error bit set raises, for every service, with and without encryption, an error that corresponds to one of the set bits (bit 0 wrong password, 1 setting archive full, 2 switch off, 3 blocked buffer, 4 data error, 5 cipher key error, 6 wrong encryption keys, 7 write error); it is never reported as success. "
 "Afterwards the session is idle and the next request is sent and answered normally.",
 ["inputs", "histories"], "all 255 error bytes x all services x plain/encrypted, followed by every kind of next request; also through every client operation",
 "No test feeds an error response; 247 of the 255 values combine bits.",
 ["elgas/connection.py", "elgas/exceptions.py", "elgas/state.py"],
 [("raise_error on one-byte payloads", "elgas/connection.py")],
 state=[("session state", "must return to idle after a device error", "elgas/state.py")],
 observe=["exception class", "next exchange"])

prop("C08", "With a key configured requests leave only encrypted and decryptable",
 "When an encryption key and key id are configured, every request leaves as an encrypted-type frame whose payload is the request length, the key id and AES-CBC (key as IV) ciphertext of request, padding to a block boundary and Modbus CRC over header, request and padding; neither password nor request payload appears in clear. "
 "An independent implementation holding the key recovers exactly the request payload, and a payload sealed by such an implementation is recovered exactly, for every length, content and key id. A key without a key id, or of a length that is no key, is refused and never makes anything leave in clear.",
 ["inputs", "configurations"], "all payload lengths 0..N with several contents, all key ids, several keys, all request kinds, both directions",
 "One fixed vector is checked with the crypto library only, not through the library's own sealing code.",
 ["elgas/security.py", "elgas/connection.py"],
 [("CipherContext.encrypt / decrypt, data_padding", "elgas/security.py"), ("EncryptedRequest is chosen when a cipher context exists", "elgas/connection.py")],
 observe=["frame type and payload on the wire", "decrypted answer"])

prop("C09", "Requests are encoded exactly as the protocol lays them out",
 "Every request encodes its fields at fixed positions and widths: a ten-byte password field (six password characters, the fixed marker bytes 21 03, two filler bytes) where the request has one, 16-bit little-endian counts and buffer sizes, the archive number as one byte, 32-bit little-endian record ids, six-byte BCD timestamps to the second, and the sync-time flag for writing the time. "
 "A value that does not fit its field is refused rather than truncated or allowed to shift the other fields. "
 "A client operation asks with its own arguments and with the password, addresses and link that are set on the client when it is called, whatever they were before.",
 ["inputs", "histories"], "all 16-bit counts and sizes, all archive numbers, boundary and power-of-two record ids, all password characters in all positions, all days and seconds, out-of-range values",
 "Two requests are built in tests and only printed.",
 ["elgas/application.py", "elgas/utils.py"],
 [("to_bytes of the request classes", "elgas/application.py"), ("pad_password, datetime_to_bytes", "elgas/utils.py")],
 observe=["application payload of each request"])

prop("C10", "Responses decode to exactly what the device sent",
 "For every response kind the decoded fields equal the bytes the device put at the corresponding positions: time, DST flags, access result and extra data; instantaneous values with both status words, access byte and parameter CRC; parameter page number, amount, end flag and data; archive number, 32-bit oldest record id and record data. "
 "No byte of the data parts is lost, duplicated or reordered, whatever their length and content, and a payload too short to hold the fixed fields is refused.",
 ["inputs"], "every byte position of every response kind x all 256 values, all record ids and counts at boundaries, data lengths 0..2100, through frame, stuffing and optional encryption",
 "The tests decode a handful of captures and mostly print them; field boundaries are not asserted.",
 ["elgas/application.py", "elgas/connection.py"],
 [("from_bytes of the response classes", "elgas/application.py"), ("service to response mapping", "elgas/connection.py")],
 observe=["decoded response fields"])

prop("C11", "Device timestamps convert losslessly and invalid ones are refused",
 "Every calendar second from 2000-01-01 to 2099-12-31 encodes to six BCD bytes (second, minute, hour, day, month, two-digit year) and decodes back to itself, with the DST and DST-support flags taken from the two top bits of the hour byte. "
 "What a time object carries besides these fields (a time zone, a fold, fractions of a second) does not change the bytes. A time outside these years is refused when encoding, and six bytes that are not BCD or not a real date and time are refused when decoding.",
 ["inputs"], "all 36525 days x boundary seconds, all 86400 seconds x boundary days, all flag combinations, all 256 values of every byte, all pairs of byte values in pairs of positions",
 "Three timestamps are tested.",
 ["elgas/utils.py"],
 [("datetime_to_bytes, bytes_to_datetime, to_bdc, from_bcd", "elgas/utils.py")],
 observe=["encoded bytes", "decoded time and flags"])

prop("C12", "Parameter objects decode field by field from their own bytes",
 "For every parameter object type the device can report, every decoded field equals the value at its place in the record (little-endian integers, IEEE floats, flag bits, text, hex strings, IP addresses), independent of the contents of all other fields. "
 "The optional trailing fields are filled when present and reported as absent when the record ends before them, and the resulting object is of the class for that type.",
 ["inputs"], "every object type x with/without optional tail x every byte position x all 256 values, over several base records",
 "Tests decode a few captured records and print them; most object types are never decoded at all.",
 ["elgas/parameters/factory.py", "elgas/parameters/analog_quantity.py", "elgas/parameters/system_parameters.py", "elgas/parameters/counter.py", "elgas/parameters/statistics.py", "elgas/utils.py"],
 [("from_bytes of each parameter class", "elgas/parameters/*.py"), ("type to class map", "elgas/parameters/factory.py"), ("pretty_text, parse_ip_address", "elgas/utils.py")],
 observe=["decoded object fields and class"])

prop("C13", "A parameter list is decoded record by record, or refused",
 "Parsing a concatenation of length-prefixed parameter records returns exactly one object per record, in order, each equal to what that record alone decodes to. "
 "A list that is cut off anywhere inside a record, or that contains an impossible length or unknown object type, is refused with an error and never silently yields a shorter or different list.",
 ["inputs", "histories"], "all sequences of records up to length 3 over all object types and tail variants, every truncation point, all impossible lengths, all unknown type codes",
 "One captured list is parsed and only its length asserted.",
 ["elgas/parser.py", "elgas/parameters/factory.py"],
 [("length-prefixed record loop", "elgas/parser.py")],
 observe=["list of decoded objects or error"])

prop("C14", "A paged parameter download is complete, ordered and gap-free",
 "However the device divides its objects into pages, downloading parameters from any start index returns every object from that index on exactly once and in order. "
 "Each page request asks for the index right after the last object received, and downloading stops exactly at the page flagged as last.",
 ["histories", "configurations"], "all divisions of up to N objects into pages (including empty last page), all start indices, plain/encrypted, and lists of several hundred objects with several page sizes",
 "The client is not exercised by any test.",
 ["elgas/client.py", "elgas/application.py", "elgas/parser.py"],
 [("page loop", "elgas/client.py: read_parameters")],
 state=[("object_count", "index of the next object to request", "elgas/client.py")],
 observe=["requests seen by the device", "list returned to the caller"])

prop("C15", "Exporting and re-importing parameter objects loses nothing",
 "For every parameter object type, exporting an object to its JSON-compatible form, serialising that to JSON text and loading it back gives an object of the same class equal to the original, including absent optional fields and every finite float. "
 "A whole exported configuration keeps the type code and data of every object in order.",
 ["inputs"], "every object type x every field x boundary values of its domain, absent/present optional fields; configurations of all pairs of types",
 "The schema test dumps fixed objects and never loads them back.",
 ["elgas/parameters/factory.py", "elgas/integration.py", "elgas/parameters/flow_rate.py", "elgas/parameters/modem.py", "elgas/parameters/setpoint.py"],
 [("marshmallow schemas with post_load constructors", "elgas/parameters/*.py"), ("type to schema map", "elgas/parameters/factory.py")],
 observe=["re-loaded object"])

prop("C16", "A transport delivers the byte stream line by line and never hangs",
 "Successive receives on a TCP or serial transport return the peer's byte stream in order, without loss, duplication or invention, each result ending at the first terminator byte (or at the terminator or size limit asked for), for every way the operating system may segment the data. "
 "If the peer closes the connection, falls silent for longer than the timeout, or the read fails, receiving ends with a communication error in bounded time and a bounded number of reads; a result without terminator is returned only when the overall timeout has run out.",
 ["schedules", "fault_sequences"], "all segmentations of short streams and all placements of up to two faults or delays (end of stream, timeout, reset, slow bytes) among the reads, on a virtual clock",
 "No test touches a transport; timing and fault placement are outside unit tests' reach.",
 ["elgas/transport.py"],
 [("recv_until loop, Timeout", "elgas/transport.py"), ("OSError to CommunicationError mapping", "elgas/transport.py: recv")],
 observe=["results of recv()", "virtual time and number of reads consumed"])

prop("C17", "Transport lifecycle survives failures at any step",
 "Every connection is made to the configured address, port and line speed. Connecting twice is refused without disturbing the open link, sending or receiving while not connected is refused, and disconnecting when not connected does nothing. "
 "Any operating-system failure during connect, send or disconnect is reported as a communication error; after a failed connect or any disconnect the transport is disconnected, has released the underlying socket or port, and can connect again, and no link is ever leaked. "
 "What is sent reaches the link completely and in order.",
 ["fault_sequences", "histories"], "all operation sequences up to a depth x all placements of up to two failures of each kind at every underlying call, TCP and serial",
 "No test touches a transport.",
 ["elgas/transport.py"],
 [("connect / disconnect / send guards and error mapping", "elgas/transport.py")],
 state=[("tcp_socket / serial_port", "the open link or None", "elgas/transport.py")],
 observe=["exceptions", "calls seen by the fake network", "open links"])

prop("C18", "A client operation returns the device's answer or a library error",
 "Under any combination of link faults (peer closing, silence, reset, damaged, stray, slow, cut or wrong responses, device errors), every client operation ends within bounded time of the last byte the peer sends, either returning exactly what the device answered or raising one of the library's errors, never a wrong or partial result. "
 "When the answer arrives in time, with at most stray terminators and complete unusable telegrams in front of it, it is returned. "
 "After a failed operation, disconnecting and connecting again makes the same client fully usable.",
 ["fault_sequences", "histories"], "all sequences of two client operations x all placements of up to two faults among the device's answers and link calls, TCP transport and client under test over a simulated network and device, plain and encrypted",
 "The client is not exercised by any test; faults at particular points of a multi-step history are needed.",
 ["elgas/client.py", "elgas/connection.py", "elgas/transport.py"],
 [("request/response loop", "elgas/client.py"), ("session reset on connect", "elgas/client.py: connect")],
 state=[("session state and buffer", "survive between operations", "elgas/connection.py")],
 observe=["return values and exceptions of client operations"])

prop("C19", "Passwords and keys never show up in representations of a client",
 "In every state a session passes through, the textual representation of a client, of its connection and of the requests it builds reveals neither the password nor the encryption key, and neither does the message of any error an operation raises. "
 "With encryption configured no log record of any level emitted during any operation reveals them either, and without encryption none above debug level does.",
 ["histories", "configurations"], "all client operations, with success and failure, observed at every environment interaction; plain and encrypted; passwords and keys of several shapes",
 "No test looks at representations or log output.",
 ["elgas/utils.py", "elgas/client.py", "elgas/connection.py"],
 [("SecretStr / SecretByte", "elgas/utils.py"), ("converters on the client's fields", "elgas/client.py")],
 observe=["repr()/str()/format of client, connection, requests", "log records"])

prop("C20", "Device call-in messages decode field by field",
 "A device's call-in (registration) message decodes to its version, GUID, station id, SIM and modem ids, protocol, addresses, signal strength, counters, timestamps counted from 2000-01-01, serial number, IP address, modem error and battery data and firmware version, each from its own bytes and independent of all others. "
 "It does so identically from the bare payload and from the complete stuffed frame the device sends.",
 ["inputs"], "every byte position x all 256 values over several base messages, 32-bit boundaries for every counter and timestamp",
 "One captured message is decoded; it has zeros in many fields so that offsets and widths are under-determined.",
 ["elgas/application.py", "elgas/utils.py", "elgas/frames.py"],
 [("CallRequest.from_bytes", "elgas/application.py"), ("pop_many, pretty_text, from_bcd, parse_ip_address", "elgas/utils.py")],
 observe=["decoded fields"])

prop("C21", "Sessions are independent of each other",
 "Two sessions, or two clients with transports of their own, used side by side, in one thread with their steps interleaved in any order or in two threads with preemption anywhere, produce exactly the bytes, answers and errors each of them produces alone. "
 "Decoding one response or parameter list never changes objects returned earlier.",
 ["schedules", "histories"], "all interleavings of the steps of two sessions; all placements of one (thorough: two for short operations) thread preemptions at line granularity",
 "Tests use at most one object of each kind, sequentially.",
 ["elgas/connection.py", "elgas/client.py", "elgas/utils.py", "elgas/security.py", "elgas/parser.py"],
 [("all state lives in per-instance attributes; codecs are pure functions", "elgas/*.py")],
 observe=["per-session observations compared with a solo run"])

prop("C22", "Whatever bytes arrive, polling answers, waits or raises a library error",
 "For every byte stream, with and without a key configured and in every session state, polling the connection terminates and either delivers an answer, asks for more data or raises one of the library's own errors; no other exception escapes. "
 "Unless the outstanding request was thereby answered (or failed with a device error), its valid response is still delivered when it arrives after the stream has been terminated.",
 ["inputs", "histories"], "all short strings over the protocol's special bytes; correctly framed responses of every type and service code with all payload lengths up to a bound and all byte values per position, in every session state, with and without key",
 "No test feeds malformed responses.",
 ["elgas/connection.py", "elgas/frames.py", "elgas/security.py", "elgas/application.py"],
 [("error handling in next_event", "elgas/connection.py"), ("frame validation", "elgas/frames.py"), ("cipher validation", "elgas/security.py")],
 observe=["kind of polling result", "follow-up exchange"])

prop("C23", "Tampered or wrongly keyed encrypted responses are never delivered",
 "An encrypted response whose length header, key id or ciphertext was altered, that was sealed under a different key or key id, or whose inner CRC does not match is never delivered as an answer or as a device error, even if the outer frame is intact. "
 "The genuine response is still delivered when it arrives afterwards.",
 ["inputs", "fault_sequences"], "every single-bit change of header and ciphertext for sealed payloads of many lengths, all wrong key ids, several wrong keys, all removals and exchanges of cipher blocks",
 "Tests never decrypt through the library.",
 ["elgas/security.py", "elgas/connection.py"],
 [("CRC and key id check", "elgas/security.py: decrypt")],
 observe=["polling results"])

prop("C24", "Finished exchanges leave nothing behind",
 "However many exchanges a session, client or transport has been through, and however they ended (answered, refused by the device, with unusable telegrams in front, refused by the library, lost link and reconnect), the memory held by it and by the library does not grow with their number. "
 "Nothing of what was sent, received, skipped, decoded or raised piles up anywhere once its exchange is over and the caller has let go of the result.",
 ["histories"], "all cycles of one or two whole exchanges over an alphabet of sixteen kinds, plain and encrypted; all pairs of endings of client operations; transports; decoding, export and import of every object type; each repeated over a thousand times with contents that never repeat",
 "Tests run at most one exchange; growth shows only over long histories of mixed outcomes.",
 ["elgas/connection.py", "elgas/client.py", "elgas/state.py", "elgas/transport.py", "elgas/utils.py", "elgas/security.py", "elgas/parser.py"],
 [("consumed frames are deleted from the buffer; no object registers itself anywhere", "elgas/connection.py: next_event"), ("transports drop their socket when disconnecting", "elgas/transport.py")],
 state=[("buffer", "bytes received and not yet consumed", "elgas/connection.py")],
 observe=["size of everything reachable from the session and the library's modules", "allocated blocks of the process"])

prop("C25", "A frame is read exactly, or refused",
 "Reading bytes as a request or response frame (plain or encrypted) either returns the frame whose serialisation is exactly these bytes or refuses them with a value error. "
 "Refused are bytes with another prefix, type or unknown service, without terminator, with a length field that differs from the actual length, too short for the fixed fields, or with an LRC, checksum or DRC that does not agree, "
 "whatever their other bytes are; the general response reader accepts exactly the frames of the two response types, each as its own class.",
 ["inputs", "fault_sequences"], "every single damage (byte replaced, inserted, lost, repeated, exchanged, frame cut or doubled) at every place of frames of all four classes, with every subset of the redundancy bytes made to fit again; all pairs of redundancy values; length field against length; all short strings over the bytes that matter",
 "Tests parse two intact telegrams; no test gives the request reader a damaged one.",
 ["elgas/frames.py", "elgas/utils.py"],
 [("from_bytes of the four frame classes", "elgas/frames.py"), ("ResponseFactory", "elgas/frames.py"), ("LRC, checksum, DRC", "elgas/utils.py")],
 observe=["the frame read, its serialisation, or the refusal"])

prop("C26", "A session is configured with what the protocol can carry, or refused",
 "A connection is created exactly when its first addresses are within 0 to 65535, its second addresses within 0 to 255, its password id within 801 to 849 and its password at most six characters long; anything else is refused, whichever field it is and whatever the others are, and the same goes for password and password id given to a client. "
 "The accepted addresses and passwords of six characters are what every request then carries. An address assigned later that the protocol cannot carry is refused at the latest when a request would have to carry it: no request leaves with another address in its place.",
 ["inputs", "histories"], "every integer of each field's range and far around it, all border values of all fields together, passwords of 0 to 40 characters, later assignments before and after an exchange",
 "Tests create connections with one valid configuration.",
 ["elgas/connection.py", "elgas/client.py", "elgas/frames.py"],
 [("validators of ElgasConnection", "elgas/connection.py"), ("address fields of the request frames", "elgas/frames.py")],
 observe=["creation or refusal", "addresses and password on the wire"])

prop("C27", "Encoding and decoding are repeatable and leave alone what they are given",
 "Every encoding or decoding call of the library (escaping and unescaping, times, frames, request and response bodies, encryption and decryption, parameter parsing, export and import of every object type) gives the same result for the same arguments whatever was called before, also when the caller changed earlier results, refilled an argument object it had used before, or made calls that were refused; what is refused once is refused every time. "
 "No call changes its arguments or earlier results, and changing a result never changes an argument or another result. Filler bytes are free.",
 ["histories", "inputs"], "all pairs and, over a smaller alphabet, triples of calls over every codec in two variants, with equal or with the very same argument objects, results changed in between or not; long repetitions; every argument refilled in place",
 "Tests call each function once, with immutable arguments.",
 ["elgas/utils.py", "elgas/frames.py", "elgas/application.py", "elgas/security.py", "elgas/parser.py", "elgas/parameters/"],
 [("codecs work on copies", "elgas/utils.py: return_characters; elgas/parser.py; elgas/application.py: CallRequest"), ("no caches", "elgas/security.py: encrypt, decrypt")],
 observe=["results of the calls", "arguments and earlier results after each call"])

prop("C28", "Incomplete or malformed configuration data is refused on import",
 "Importing exported data as a parameter object gives an object only if every attribute of that object type is there and none besides, and each holds a value of its kind: "
 "data in which an attribute is missing, has another name, is null although every record of the device has it, or holds something else than its kind (no number for a number, no text for a text, no list of texts for a list of texts), data of a type with other attributes, and data that is no object at all are refused with a validation error that names the attributes at fault. "
 "The same goes for the objects of a whole configuration, and type codes that are not known have no import. A refused import does not affect later ones.",
 ["inputs", "histories"], "every object type x every attribute x every kind of damage, all pairs of attributes, every type's data as every other type, damaged configurations, all sequences of up to 3 (thorough 4) good and damaged imports",
 "No test loads exported data, neither good nor damaged.",
 ["elgas/parameters/", "elgas/parameters/factory.py", "elgas/integration.py"],
 [("required fields of the marshmallow schemas, unknown names raise", "elgas/parameters/*.py, elgas/integration.py"), ("type to schema map", "elgas/parameters/factory.py")],
 observe=["imported object, or the validation error and the attributes it names"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
