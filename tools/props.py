"""The properties, and what MANIFEST.json says about their checks.  gen.py writes both files from this."""

MC_SEQ = "explicit-state model checking: exhaustive bounded enumeration on the real code in lockstep with a reference model"
MC_BFS = "explicit-state model checking: exhaustive enumeration of all operation/byte sequences up to a depth on the real code"
MC_SCHED = "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler"

def P(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=None):
  return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
              mechanism=mechanism, technique=technique, note=note, observe=observe or [])

REF = "trusts the reference model in jy/ref.py (written from the protocol layout, imports nothing from pyd7a), Jython, bitstring; Cerberus acceptance is accelerated and cross-checked by jy/fastcerb.py"

PROPS = [
P("A01", "Variable-length ALP lengths and offsets encode canonically and decode exactly",
  "Every length or offset value from 0 to 0x3FFFFFFF serializes to the shortest of the 1, 2, 3 or 4 byte big endian forms whose top two bits give the number of extra bytes. Every one of those forms, also a non-shortest one, decodes to exactly the value it carries while consuming exactly its own bytes, and an incomplete form is rejected. Values outside the range are refused when constructed.",
  ["inputs"], "all values 0..0x3FFFFFFF (quick: all below 0x4800 plus all boundaries and byte sweeps; thorough: all below 2^22) and all encodings of them, inside and outside of actions",
  "the tests encode and decode five sample values; an error at a size boundary or in one byte position needs the whole range",
  ["d7a/alp/operands/length.py", "d7a/alp/operands/offset.py"],
  [("size selection and packing", "d7a/alp/operands/length.py: Length.__iter__"), ("decoding", "d7a/alp/operands/length.py: Length.parse")],
  MC_SEQ, REF),
P("A02", "Every supported ALP command decodes to exactly the content its bytes carry",
  "Any sequence of supported ALP actions (read and write file data, return file data, return file header, create file, break query, interface status, tag request, tag response, forward, indirect forward) decodes to the same actions, in the same order, with every field and flag equal to what the bytes carry. Decoding consumes exactly the declared number of bytes, whatever follows them. Reserved bits, non-shortest length forms and file contents never change how the rest is decoded.",
  ["inputs", "programs"], "every field of every action densely over its domain, and all action sequences up to length 2 (quick) / 4 (thorough) over a 33 letter alphabet",
  "the tests decode about twenty hand-written commands; field boundaries, flag combinations and sequences are only sampled",
  ["d7a/alp/parser.py", "d7a/alp/command.py", "d7a/alp/operands", "d7a/alp/operations"],
  [("action dispatch and operand decoding", "d7a/alp/parser.py: Parser.parse_alp_action"), ("command assembly", "d7a/alp/command.py: Command.__init__")],
  MC_SEQ, REF),
P("A03", "Every command built through the API serializes to the exact protocol bytes",
  "A command built with any of the factory functions, or from action objects, for any interface (host, serial, D7ASP, LoRaWAN ABP/OTAA) and any valid parameters, serializes to the tag request (when enabled), the optional forward action and then the requested actions, each with the exact opcode, flags and operand bytes of the protocol. Data, offsets, lengths, file ids, headers, tags and interface configurations appear unchanged. Parameters which the protocol cannot express are refused instead of being serialized differently.",
  ["inputs", "programs"], "all factories x interfaces x dense parameters, all actions densely, all action sequences up to length 2 (3 thorough)",
  "the tests check one or two calls per factory with one set of parameters",
  ["d7a/alp/command.py", "d7a/alp/operands", "d7a/alp/operations", "d7a/alp/regular_action.py"],
  [("factories", "d7a/alp/command.py: Command.create_with_*"), ("serialization", "d7a/alp/command.py: Command.__iter__")],
  MC_SEQ, REF),
P("A04", "Truncated, malformed and unsupported ALP commands are rejected, never misread",
  "An ALP command of which any number of trailing bytes is missing is rejected with an error. A command with an opcode, interface, interface status, query type, enumeration value or reserved combination that is not supported is rejected with an error as well, wherever it occurs in the command. No such input ever yields a command object.",
  ["inputs"], "all truncations of all letters and of all pairs; all 256 first bytes; every invalid enumeration value in every enumerated field; all unsupported interfaces, statuses and query forms, first and after other actions",
  "the tests contain a few invalid inputs; rejecting must hold at each byte position and for each invalid value",
  ["d7a/alp/parser.py", "d7a/alp/operands/query.py", "d7a/d7anp/addressee.py", "d7a/sp/qos.py"],
  [("opcode dispatch", "d7a/alp/parser.py: Parser.parse_alp_action"), ("enum construction and assertions in the operand parsers", "d7a/alp/operands, d7a/sp, d7a/phy")],
  MC_SEQ, REF),
P("A05", "Commands have at most one tag and interface status, and report them faithfully",
  "A command never contains more than one tag (request or response) nor more than one interface status: such combinations are rejected. The tag, including tag 0, the completed flag and the error flag reported by a command are those of its tag action, an untagged decoded command reports no tag, and the interface status reported is that of the command. A command built without tag gets one between 0 and 255 that stays the same for its lifetime; an explicitly requested tag is used as is.",
  ["inputs", "programs"], "all sequences up to length 4 over tag request, tag response, interface status and two other actions, at construction and when decoding; all 256 tags x flags; every outcome of the random tag generator",
  "the tests never combine tags, never use tag 0 and never enumerate orders",
  ["d7a/alp/command.py"],
  [("scan over the actions", "d7a/alp/command.py: Command.__init__")],
  MC_SEQ, REF + "; random.randint is enumerated by substitution"),
P("A06", "Re-serializing a decoded ALP command reproduces its bytes",
  "Serializing the actions of a decoded command yields exactly the canonical encoding of what was decoded, for every supported action (tag actions serialized on their own) and every order of actions. Serializing and decoding again is a fixpoint. The tag request of a command that is serialized with tag request enabled carries the tag and the response flag it was decoded with or given.",
  ["inputs", "programs"], "all actions densely; all sequences up to length 2 (3 thorough); all tags and flags",
  "tests compare bytes for a handful of commands",
  ["d7a/alp/command.py", "d7a/alp/operands", "d7a/sp/status.py"],
  [("serialization of actions, operations and operands", "d7a/alp/*.py: __iter__")],
  MC_SEQ, REF + "; known finding: an interface status serializes without its length byte (an existing test pins that)"),
P("A07", "Objects are independent: operations on one never change what another yields",
  "Constructing, filling, parsing or serializing any object never changes the bytes or fields of another object created before or after it, including objects created with default arguments. Serializing is repeatable and does not modify the object, nor the lists passed in by the caller. Two parsers never share received data.",
  ["histories"], "all operation sequences up to depth 3 (4 thorough) of constructing with defaults, mutating, parsing and serializing, over pairs of objects of every class",
  "unit tests look at one object at a time; sharing needs two objects and an order of operations",
  ["d7a/alp/command.py", "d7a/system_files/phy_status.py", "d7a/alp/operands/file.py", "d7a/serial_modem_interface/parser.py"],
  [("per-instance lists", "d7a/alp/command.py: Command.__init__, d7a/system_files/phy_status.py"), ("immutable use of defaults", "constructors across d7a")],
  MC_BFS, REF),
P("A08", "Values outside the domain of a field are refused at construction, valid never",
  "For every field with a declared domain (the schemas of the classes), the constructor accepts every value of that domain and raises an error for any value outside of it: integers below the minimum or above the maximum, wrong types, missing or wrong nested objects, enumeration members of another enumeration, strings that are too long, and lists with an invalid element at any position or of an invalid length. An identifier has to match its identifier type.",
  ["inputs"], "every validated field of every class: domain corners inside and outside, and one value of each wrong type, over valid backgrounds",
  "the tests check some out-of-range values for a minority of fields",
  ["d7a/support/schema.py", "d7a/alp/operands", "d7a/system_files", "d7a/fs", "d7a/phy", "d7a/dll", "d7a/sp"],
  [("schema validation", "d7a/support/schema.py: Validatable.validate and Types")],
  MC_SEQ, "domains are listed in the check, from the documented schemas; the real Cerberus decides every rejection"),
P("A09", "Interpreting returned system file data never alters or prevents its decoding",
  "A returned file data action always yields exactly the file id, offset and data bytes of the message, for every file id, length and content, also when the content is not a valid system file. When the data is a complete, valid system file read from offset 0, its interpretation equals decoding these bytes as that file. Data that starts elsewhere, belongs to no known system file, is longer than the file or is not valid is never presented as the content of a system file.",
  ["inputs"], "all 256 file ids x data lengths 0..file length+1 x contents x offsets",
  "tests cover one or two system files with valid content",
  ["d7a/alp/operations/responses.py", "d7a/system_files/system_files.py"],
  [("guarded interpretation", "d7a/alp/operations/responses.py: ReturnFileData.try_parse_system_file")],
  MC_SEQ, REF),
P("B01", "Compressed time: all 256 encodings and all compressions are exact",
  "Every byte decodes to the exponent in its upper 3 and the mantissa in its lower 5 bits, serializes back to the same byte and represents 4^exponent * mantissa. Compressing a duration of 0 to 507904 uses the smallest exponent that fits and rounds the duration up (by default) or down (when asked to) to a representable one.",
  ["inputs"], "all 256 bytes; all durations 0..507904 (quick: all below 10000, every representable value +-2 and a stride), both roundings",
  "tests check a few durations", ["d7a/types/ct.py"],
  [("compression", "d7a/types/ct.py: CT.compress"), ("codec", "d7a/types/ct.py: CT.parse, CT.compressed_value")], MC_SEQ, REF),
P("B02", "Addressee, QoS and interface configurations round-trip all their fields",
  "For every id type, security method, access class and identifier the addressee, and for every quality of service, dormant timeout and addressee the D7ASP configuration, serializes to the exact protocol bytes and decodes from them to the same values, consuming exactly its bytes. The same holds for the LoRaWAN ABP and OTAA configurations. Truncated encodings and undefined enumeration values are rejected.",
  ["inputs"], "every field densely over several backgrounds, corner products of the fields, all truncations, all undefined values",
  "tests sample a few addressees and configurations",
  ["d7a/d7anp/addressee.py", "d7a/sp/qos.py", "d7a/sp/configuration.py", "d7a/alp/operands/lorawan_interface_configuration_abp.py", "d7a/alp/operands/lorawan_interface_configuration_otaa.py"],
  [("codecs", "parse and __iter__ of the listed classes")], MC_SEQ, REF),
P("B03", "D7ASP session status round-trips all its fields",
  "Every session status (channel, received level, link budget, target level, security/missed/retry/unicast flags, fifo token, sequence number, response timeout and addressee) serializes to the exact protocol bytes and decodes from them to the same values, consuming exactly its bytes. Reserved bits are ignored. Truncated encodings and undefined enumeration values are rejected.",
  ["inputs"], "every field densely over several backgrounds, all corner pairs, all addressee shapes, all truncations",
  "tests use one or two status values", ["d7a/sp/status.py", "d7a/phy/channel_id.py", "d7a/d7anp/addressee.py"],
  [("codec", "d7a/sp/status.py: Status.parse, Status.__iter__")], MC_SEQ, REF),
P("B04", "Channel headers, ids, sub-bands and their text forms round-trip",
  "Every channel header and channel id decodes from and serializes to the exact protocol bytes, and sub-bands, sub-profiles and channel status identifiers do so for all their values. The text form of every channel header and id that has one parses back to the same channel, for every index. Undefined bands are rejected.",
  ["inputs"], "all headers, all 65536 channel indices (quick: dense), all values of the other fields, all text forms",
  "tests check a few channels", ["d7a/phy/channel_header.py", "d7a/phy/channel_id.py", "d7a/phy/subband.py", "d7a/phy/channel_status_identifier.py", "d7a/dll/sub_profile.py"],
  [("codec and text form", "parse, __iter__, __str__, from_string of the listed classes")], MC_SEQ, REF),
P("B05", "File headers, permissions and properties round-trip all their fields",
  "Every file header, with every combination of permissions, action protocol settings and storage class and every id and size, serializes to the exact protocol bytes and decodes from them to the same values, consuming exactly its bytes. Reserved bits are ignored, undefined action conditions and truncated headers are rejected. Headers compare equal exactly when all their fields are equal.",
  ["inputs"], "all 256 permission bytes, all 256 property bytes, ids and sizes densely, corner pairs, equality of all single-field variations",
  "tests use one header", ["d7a/fs/file_header.py", "d7a/fs/file_permissions.py", "d7a/fs/file_properties.py"],
  [("codecs and equality", "parse, __iter__, __eq__ of the listed classes")], MC_SEQ, REF),
P("B06", "Every implemented system file round-trips its content at its registered length",
  "Each implemented system file (UID, factory settings, firmware version, engineering mode, VID, PHY status, DLL configuration, DLL status, security key, authentication keys, access profiles) serializes to the exact bytes of its layout, of the registered length where that is fixed, and decodes from them to the same values. Truncated content and values outside of their domain are rejected when decoding.",
  ["inputs"], "every field densely over several backgrounds, corner pairs, all truncations, all invalid values",
  "tests check one instance of some of the files", ["d7a/system_files", "d7a/dll/access_profile.py"],
  [("file codecs", "parse and __iter__ of the files in d7a/system_files")], MC_SEQ, REF),
P("B07", "System file ids, lengths and the commands reading and writing them agree",
  "Every registered system file has the protocol's numeric id and length. A command that reads a system file requests exactly that id from offset 0 for exactly that length, and one that writes a system file writes exactly its serialized content to that id at offset 0, through every interface.",
  ["inputs", "configurations"], "all registered files x all interfaces x contents", "tests read one or two files",
  ["d7a/system_files/system_files.py", "d7a/system_files/system_file_ids.py", "d7a/alp/command.py"],
  [("registry", "d7a/system_files/system_files.py"), ("factories", "d7a/alp/command.py: create_with_*_system_file")], MC_SEQ, REF),
P("C01", "Serial frames: exact layout, correct CRC, counter modulo 256, oversized refused",
  "Each command handed to the serial framing yields the sync byte 0xC0, version 0, the frame counter, message type ALP, the payload length, the CRC over the payload (high byte first) and the payload. Counters of successive frames increase by one modulo 256 starting at 0. A command which does not fit in 255 bytes is refused without consuming a counter value or affecting later frames.",
  ["inputs", "histories"], "all payload lengths 0..300; all 256+ counter values; all sequences up to depth 5 of ok/oversized/failing commands; payload contents densely",
  "tests build one or two frames", ["d7a/serial_modem_interface/parser.py", "d7a/support/Crc.py"],
  [("framing", "d7a/serial_modem_interface/parser.py: Parser.build_serial_frame")], MC_BFS, REF),
P("C02", "Every intact serial stream is decoded completely, in order and by message kind",
  "A stream of intact frames yields exactly one message per frame, in order, with its message type: ALP commands decoded (or their exact payload bytes when ALP parsing is disabled), log messages as their exact text, and reboot notifications as their reason code. No errors are reported, nothing is left in the buffer and the number of consumed bits is the length of the stream. The error counter counts exactly the frames whose counter does not follow the previous one modulo 256.",
  ["inputs", "histories"], "all sequences up to length 3 (4 thorough) over a 14 letter frame alphabet x both parsing modes x counter histories; payload lengths 0..255",
  "tests feed one or two frames", ["d7a/serial_modem_interface/parser.py"],
  [("stream loop and dispatch", "d7a/serial_modem_interface/parser.py: Parser.parse_buffer, parse_one_command_from_buffer")], MC_BFS, REF),
P("C03", "How a serial stream is cut into reads never changes what is decoded",
  "Feeding the same bytes in any split (one by one, at any set of cut points, with empty reads in between) yields the same messages, types and total of skipped and consumed bytes as feeding them at once. This holds for intact streams and for streams with corruption or garbage in between.",
  ["inputs", "schedules"], "all 1 and 2 cut (3 thorough) splits and the byte-wise split of all streams of a set of intact and damaged streams; all 2^(n-1) splits of short streams",
  "tests use two fixed splits", ["d7a/serial_modem_interface/parser.py"],
  [("buffering", "d7a/serial_modem_interface/parser.py: Parser.parse, shift_buffer")], MC_SEQ, REF),
P("C04", "Corrupt frames are never delivered, intact frames around them always are",
  "No message is ever delivered from a frame of which the payload, CRC, sync bytes or length were altered, inserted into or truncated so that the checksum does not match, and no message is built from bytes beyond the end of its own frame. Intact frames before and after the damage are delivered exactly once and in order, at the latest when enough further bytes arrived to complete the largest frame the damage could have announced. Garbage between frames is skipped and reported.",
  ["inputs", "fault_sequences"], "every single-byte change (several values per position), deletion, duplication, insertion and truncation at every position of multi-frame streams; pairs of faults; garbage strings over the significant bytes",
  "tests contain two or three corrupted frames", ["d7a/serial_modem_interface/parser.py"],
  [("CRC and sync checks", "d7a/serial_modem_interface/parser.py: parse_serial_interface_header"), ("resynchronisation", "d7a/serial_modem_interface/parser.py: skip_bad_buffer_content")], MC_SEQ, REF),
P("C05", "Arbitrary bytes never crash or hang the serial parser, and no byte gets lost",
  "For every byte sequence, in every chunking, parsing returns normally. After each call the bytes of the delivered frames, the bytes reported as skipped and the bytes still buffered add up to the bytes received so far. What is still buffered is a suffix of what was received, and could be the beginning of a frame.",
  ["inputs", "histories"], "all strings up to length 6 (7 thorough) over an 8 symbol alphabet of significant bytes and whole fragments, fed symbol by symbol (explicit-state search with state merging)",
  "tests feed no arbitrary bytes", ["d7a/serial_modem_interface/parser.py"],
  [("error handling in the parse loop", "d7a/serial_modem_interface/parser.py: parse_one_command_from_buffer")], MC_BFS, REF),
P("D01", "DLL foreground and background frames decode to exactly what they carry",
  "Every background frame and every foreground frame using supported features (any target and origin id type, dialog and transaction ids, optional target level, listen, execution and congestion timeouts, and any ALP command) decodes to the values its bytes carry at every layer. Optional fields are read exactly when the control flags announce them.",
  ["inputs"], "all control bytes of each layer, all id types, all optional field combinations, dense field values, ALP payloads from the alphabet",
  "tests decode five sample frames", ["d7a/dll", "d7a/d7anp", "d7a/d7atp"],
  [("layered decoding", "d7a/dll/foreground_frame.py, d7a/d7anp/frame.py, d7a/d7atp/frame.py: parse")], MC_SEQ, REF),
P("D02", "Re-serializing a decoded DLL frame reproduces its bytes",
  "Serializing a decoded foreground or background frame yields exactly the bytes it was decoded from, reserved bits cleared, for every supported combination of optional fields.",
  ["inputs"], "as D01", "tests compare one or two frames", ["d7a/dll", "d7a/d7anp", "d7a/d7atp"],
  [("layered serialization", "__iter__ of the DLL, D7ANP and D7ATP classes")], MC_SEQ,
  REF + "; frames carrying an ALP tag or interface status are excluded (tags are not re-serialized, see A06)"),
P("D03", "DLL frames are decoded the same however their bytes arrive",
  "Bytes of DLL frames can be handed over in any split: an incomplete frame yields no frame and is kept, the call that completes it yields the frame, and bytes after it are kept for the next call. Consumed and buffered sizes are reported accordingly.",
  ["inputs", "schedules"], "all 1 and 2 cut splits and the byte-wise split of streams of up to 3 frames, both frame types",
  "tests feed whole frames", ["d7a/dll/parser.py"],
  [("buffering", "d7a/dll/parser.py: Parser.parse_one_frame_from_buffer")], MC_SEQ, REF),
P("E01", "Concurrently issued commands reach the modem as whole frames, in counter order",
  "Whatever threads issue commands at the same time, synchronously or not, the bytes written to the modem are a concatenation of whole frames, one per command, each with the exact payload of its command. The frame counters on the wire are consecutive modulo 256. When the serial port is lost and reopened meanwhile, every command that was issued without an error is on exactly one of the ports, as a whole frame.",
  ["schedules", "fault_sequences"], "2 and 3 threads issuing 1-3 commands each, all interleavings up to 2 preemptions (3 thorough) at points, 1 (2) at every line, with a write that is split; 3 scenarios in which the port is lost and reopened meanwhile",
  "tests never run threads", ["modem/modem.py", "d7a/serial_modem_interface/parser.py"],
  [("lock around framing, write and flush", "modem/modem.py: Modem.execute_command")], MC_SCHED,
  "real Modem code under a controlled scheduler; switches only at hooked points (locks, sleeps, device I/O, attribute accesses of modem and parser); fake serial port"),
P("E02", "A synchronous command gets exactly its own responses in every interleaving",
  "A synchronous command returns all responses which carry its tag, in order, up to and including the one that completes it, however these responses are cut into reads and interleaved with the executing thread, and with asynchronous commands and unsolicited messages. It returns nothing of another tag, and when no completing response arrives within its timeout it returns an empty result once that timeout has passed. Afterwards the next command works the same.",
  ["schedules", "inputs"], "scenarios of up to 4 device messages (own tag partial/final, other tags, untagged, logging, reboot) x read cuts x 1-2 commands x all interleavings up to 2 preemptions (3 thorough)",
  "tests never execute a command against a device", ["modem/modem.py"],
  [("tag matching in the reader", "modem/modem.py: Modem._read_async"), ("wait loop", "modem/modem.py: Modem.execute_command")], MC_SCHED,
  "one synchronous command at a time; responses arriving around the expiry of the timeout may go either way"),
P("E03", "Every received message is delivered once, to the right receiver, in order",
  "Each ALP message received from the modem is either returned by the synchronous command whose tag it carries, or else handed to the callback (when one is given and the modem is connected) or put in the list of unsolicited responses: exactly one of these, exactly once, in order of reception. Reboot notifications go to the reboot callback or list, and log messages to neither. This holds for tagged, untagged and raw (unparsed) messages, whether they become decodable one by one or several at once. Clearing the lists drops what they have, but takes nothing away from lists that were handed out before.",
  ["schedules", "histories", "configurations"], "all sequences up to length 3 (4 thorough) over 10 message kinds, connecting and clearing x all configurations (callback, reboot callback, raw mode, connected, synchronous command active); all sequences up to length 3 over 9 kinds that become decodable at once; schedules up to 1 deviation (2 thorough) for selected sequences",
  "tests never receive through the modem", ["modem/modem.py"],
  [("dispatch in the reader", "modem/modem.py: Modem._read_async")], MC_SCHED,
  "responses arriving around the expiry of the timeout may go either way, but to exactly one receiver; responses which a synchronous command took before it timed out are dropped with it"),
P("E04", "The reader survives garbage, undecodable messages and a lost serial port",
  "Garbage, corrupt frames, undecodable commands, unsupported messages and read errors of the serial port never end the reception of messages. After a read error the port is closed and reopened, retrying until that succeeds, and intact messages received after any of these are delivered as usual.",
  ["fault_sequences", "schedules"], "all sequences up to length 3 over messages, kinds of garbage and port failures (with 0..2 failing reopens) at every read",
  "tests never fail the port", ["modem/modem.py", "d7a/serial_modem_interface/parser.py"],
  [("reconnect loop", "modem/modem.py: Modem._read_async, _connect_serial_modem")], MC_SCHED,
  "fake serial port and virtual time"),
P("E05", "Connecting reports success exactly when the modem answered with its identity",
  "Connecting with checking succeeds exactly when the modem returns both its UID and its firmware version in response, and then reports exactly these; otherwise it fails, within its timeout, and stays disconnected. Connecting without checking, or in raw mode, succeeds without waiting for an answer; the answer that the modem gives in raw mode reaches the callback. Unsolicited messages are handed to the callback only once connected.",
  ["inputs", "schedules", "configurations"], "all responses with subsets and orders of the two files, other files, other tags, no answer; all modes; dense UIDs and versions; interleavings up to 1 preemption",
  "tests never connect", ["modem/modem.py"], [("connect", "modem/modem.py: Modem.connect")], MC_SCHED, "fake serial port and virtual time"),
P("E06", "Stopping the reader always terminates it",
  "Stopping reception returns, with the reader ended, in every interleaving with received data, callbacks and idle reads. No message is delivered after it returned.",
  ["schedules"], "stop at every point of a run with 0..2 incoming messages, all interleavings up to 3 preemptions",
  "tests never stop a reader", ["modem/modem.py"], [("flag and cancelled read", "modem/modem.py: Modem.stop_reading")], MC_SCHED,
  "a cancelled read is remembered by the port when no read is pending, as pyserial's posix port does"),
P("F01", "The MQTT bridge forwards every ALP payload byte-identical, once and in order",
  "Every intact ALP message the modem sends after the bridge has started is published on the topic of the gateway exactly once, in order, with exactly the payload bytes of its frame, whatever these bytes are (including undecodable and empty ones). Log messages, reboot notifications and corrupt frames are not published. A failure to publish one message does not affect the next.",
  ["inputs", "histories", "fault_sequences"], "payload contents densely; all sequences up to length 3 over messages, log, reboot, garbage and publish failures; all single cuts",
  "the tool has no tests", ["tools/modem2mqtt.py", "modem/modem.py"],
  [("raw mode callback", "tools/modem2mqtt.py: Modem2Mqtt.on_command_received")], MC_BFS, "fake serial port and MQTT client"),
P("F02", "The hex string tool prints exactly what the parsers decode",
  "For every input type (ALP, serial, foreground, background, system file) the hex string tool prints the decoded objects of the given bytes, for upper and lower case and with blanks in between, and exits without error for every valid input.",
  ["inputs"], "all letters of the ALP alphabet, frame sequences, DLL frames and all implemented system files x spellings",
  "the tool has no tests", ["tools/parse_hexstring.py"], [("dispatch", "tools/parse_hexstring.py")], MC_SEQ, REF),
P("G01", "The CRC is CRC-16/CCITT-FALSE for every message",
  "For every byte sequence, the calculated checksum equals CRC-16/CCITT-FALSE (polynomial 0x1021, initial value 0xFFFF), high byte first, whichever type of sequence holds the bytes.",
  ["inputs"], "all messages up to 2 bytes (3 thorough), all lengths up to 255 with single-bit changes", "tests check two values",
  ["d7a/support/Crc.py"], [("CRC", "d7a/support/Crc.py: calculate_crc")], MC_SEQ, "bit by bit reference"),
P("G02", "Commands survive JSON serialization unchanged",
  "Every decoded or built command, encoded to JSON and decoded again, serializes to the same bytes and has the same content, and every enumeration value comes back as the same member.",
  ["inputs"], "all letters, all pairs, all enumerations and members", "tests encode one command",
  ["d7a/support/serialization/enum_handler.py", "d7a/__init__.py"], [("enum handler", "d7a/support/serialization/enum_handler.py")], MC_SEQ, "jsonpickle is part of the environment"),
P("G03", "Every object can be printed, described and converted to a dictionary",
  "Text forms, action descriptions and dictionary forms are available for every command and object that can be decoded or built: none of them raises. They do not modify the object, the description lists all actions in order, and the dictionary contains the class and the values of all fields.",
  ["inputs"], "all letters, all pairs, all structures with dense fields, all tag/completed/error combinations", "tests print one command",
  ["d7a/support/schema.py", "d7a/alp/command.py"], [("text forms", "__str__, Command.describe_actions, Validatable.as_dict")], MC_SEQ, REF),
]

NOT_APPLICABLE = []
