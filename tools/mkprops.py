#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

PARSER="ublox/src/parser.rs"; PKT="ublox/src/ubx_packets/packets.rs"; UP="ublox/src/ubx_packets.rs"
TY="ublox/src/ubx_packets/types.rs"; CV="ublox/src/ubx_packets/cfg_val.rs"
OUT="ublox_derive/src/output.rs"; INP="ublox_derive/src/input.rs"; DT="ublox_derive/src/types.rs"

prop("C01","Only complete, checksum-correct frames are delivered, exactly as framed",
 "For every byte stream, buffer and chunking, a packet is delivered only when the stream bytes at that place are 0xB5 0x62, class, id, a little-endian length n, n payload bytes and the two UBX Fletcher-8 bytes computed over class, id, length and payload. The delivered packet is the one for exactly that class and id and its payload view is exactly those n bytes.",
 ["inputs","histories"],"all byte streams, all ways of cutting them into calls, all buffer implementations that honour the buffer contract",
 "The tests feed a handful of well-formed frames and one bad checksum; they cannot range over frame lengths, split points and byte values.",
 [PARSER,UP],[("ParserIter::next / extract_packet",PARSER),("UbxChecksumCalc",PARSER),("match_packet",OUT)],
 [("DualBuffer","concatenation of retained bytes and new bytes not yet consumed",PARSER)],["items yielded by the parser iterator"])
prop("C02","No input byte stream makes the parser panic",
 "For every byte stream, every chunking and every buffer of any capacity, creating a parser, feeding it, iterating and dropping the iterator never panics: no out-of-range index, no arithmetic overflow, no failed unwrap, no explicit panic. Only allocation failure inside a growing buffer is excepted.",
 ["inputs","histories","configurations"],"all byte streams, chunkings, fixed buffer capacities including 0",
 "Panic-freedom is a statement about every index expression and subtraction under every offset combination; tests visit a few dozen.",
 [PARSER],[("bounds reasoning in DualBuffer",PARSER),("FixedLinearBuffer",PARSER)],[],["Parser::consume","ParserIter::next","Drop"])
prop("C03","Reading a delivered packet never panics",
 "For every packet the parser can deliver, every field accessor, every sub-record iterator driven to any point, the Debug rendering and the serialised form complete without panicking, whatever the payload bytes are.",
 ["inputs"],"all payload bytes that pass packet validation, all accessors and iterators of all packet types",
 "The tests decode a few recorded payloads; enum values, string terminators, repeat counts and lengths that were never recorded are not exercised.",
 [PKT,OUT,TY],[("generated validate + accessors",OUT),("iterator is_valid / next",PKT)],[],["*Ref accessors","Debug","Serialize"])
prop("C04","Iteration always makes progress and ends",
 "For every stream and buffer, each step of the parser iterator either ends with nothing more to deliver or has consumed at least one byte of the bytes supplied, and every internal scan terminates, so iterating over any finite input ends.",
 ["inputs","histories"],"all streams, buffers, and internal loop iterations",
 "Termination of the scan loops is a claim about every loop path; a test that hangs only does so on the input that triggers it.",
 [PARSER],[("drain on each continue path",PARSER)],[],["ParserIter::next"])
prop("C05","Rejected bytes never hide a later frame, and rejections say why",
 "The parser discards bytes only when they cannot start a deliverable frame: bytes before the first 0xB5, a 0xB5 not followed by 0x62, a sync pair with an over-long length, or the sync pair of a frame it reports as bad checksum or out of space; scanning resumes immediately after them. A checksum error reports the checksum carried by the frame and the one computed, an out-of-space error reports the payload plus checksum size, and everything not discarded or delivered stays available for the next call; with a buffer of at least the documented minimum size, bytes the buffer cannot keep are lost only after an out-of-space error.",
 ["inputs","histories"],"all streams and chunkings, every rejection cause",
 "Tests check a few resynchronisation cases; they cannot cover every overlap of false sync, length and checksum bytes with a following frame.",
 [PARSER],[("drain amounts per outcome",PARSER),("Drop for DualBuffer",PARSER)],[],["sequence of delivered packets and errors"])
prop("C06","Delivery does not depend on how the stream is cut into calls",
 "The unread retained bytes followed by the unread new bytes behave as one sequence: indexing, length, peeking, draining and taking all act on that sequence whatever the split point, and when an iteration ends the retained buffer holds exactly the unread sequence, cut only at the buffer's capacity. Byte loss is signalled only when the sequence really exceeds the capacity.",
 ["histories","inputs"],"all split points of all streams, all offsets into both halves, all capacities",
 "The unit tests try single-digit sizes at chosen offsets; the case analysis over offsets, lengths and capacity is unbounded.",
 [PARSER],[("DualBuffer index/len/drain/peek/take/drop",PARSER)],[("off / new_buf_offset","read positions in the two halves",PARSER)],["retained buffer after each call"])
prop("C07","Buffer implementations honour the buffer contract",
 "For every capacity and content, both supplied buffers behave as a byte sequence: extending appends exactly the bytes that fit and reports how many did not, draining removes exactly the first bytes (all of them if asked for more) and shifts the rest unchanged, length, find, clear and indexing agree with the contents, and no access leaves the stored bytes or the backing memory.",
 ["inputs","histories"],"all capacities, contents and operation sequences",
 "The unit tests use an 8- or 16-byte buffer and one count per operation; the unsafe move and the capacity arithmetic must be right for all.",
 [PARSER],[("FixedLinearBuffer",PARSER),("UnderlyingBuffer for Vec<u8>",PARSER)],[],["UnderlyingBuffer methods"])
prop("C08","Field accessors decode their documented bytes, type and scale",
 "For every packet type, every accessor returns the value obtained from its documented byte range of the payload: little-endian, with the documented width, signedness, element conversion and scale, independently of all other bytes.",
 ["inputs"],"all payloads of all packet types, all accessors",
 "There are several hundred accessors and a handful of recorded payloads; a wrong offset, signedness or scale in an unrecorded field is invisible to the suite.",
 [PKT,OUT],[("generated getters",OUT),("packet declarations",PKT)],[],["*Ref accessors"])
prop("C09","Only payloads of acceptable length and content become typed packets",
 "A payload is presented as a typed packet only after that type's validation accepted it: exact length for fixed-length packets, at least the fixed part (and all self-described parts) otherwise, every enumerated field holding a defined value, every embedded string terminated and valid, every repeated part a whole number of records. A payload that meets these conditions is accepted, and one that does not is presented as an unknown packet with its bytes intact.",
 ["inputs"],"all payload lengths and contents for all packet types",
 "Tests check one or two wrong lengths; acceptance is a predicate over all payloads of all types.",
 [OUT,PKT,TY],[("generated validate",OUT),("is_valid functions",PKT)],[],["match on delivered packet variant"])
prop("C10","Enumerated fields accept exactly their defined values and keep them",
 "For every enumerated protocol field, the set of wire values accepted by validation equals the set of values conversion handles, each accepted value converts to the variant whose documented code it is, and converting a variant back to the wire yields that same code.",
 ["inputs"],"all raw values of all enumerations",
 "The tests construct two or three variants; disagreement between the two generated matches shows only for the value concerned.",
 [OUT,PKT],[("ubx_extend enum expansion",OUT)],[],["enum accessors and builders"])
prop("C11","Flag words keep every bit",
 "For every flag word type, decoding then encoding returns the same raw word, every named flag is the documented bit, and every remaining bit of the word is representable, so no received bit is lost or moved.",
 ["inputs"],"all raw words of all flag types",
 "No test touches most flag types; a missing or shifted bit is seen only for words that have it set.",
 [OUT,PKT],[("ubx_extend_bitflags expansion",OUT)],[],["flag accessors"])
prop("C12","Each valid frame is presented as its own packet type",
 "Every receivable packet type is reachable: a frame with its class and id and a payload its validation accepts is delivered as that type and no other, reporting that class and id; all other frames are delivered as unknown packets carrying their class, id and payload. No two receivable types compete for the same class, id and payload.",
 ["inputs"],"all (class, id, payload) triples",
 "Tests deliver a few types; shadowed or forgotten types stay unnoticed because nobody sends them in the suite.",
 [OUT,PKT],[("define_recv_packets expansion",OUT),("receivable packet list",PKT)],[],["PacketRef"])
prop("C13","The length ceiling admits every receivable packet",
 "The largest payload the parser is willing to wait for is at least the documented maximum payload of every packet type it can deliver, and a packet type's declared maximum covers its fixed length, so no well-formed documented frame is rejected for its length.",
 ["inputs","configurations"],"all receivable packet types and payload lengths up to their maximum",
 "The existing test compares one packet against the ceiling; the claim is over all types.",
 [OUT,PKT,PARSER],[("MAX_PAYLOAD_LEN fold",OUT)],[],["frames near the ceiling"])
prop("C14","Fixed-length builders emit one well-formed frame",
 "For every field value, a fixed-length builder's byte array is sync pair, the type's class and id, the little-endian payload length, every declared field little-endian at its documented offset with no gap or overlap, and the UBX checksum over everything between sync and checksum.",
 ["inputs"],"all field values of all sendable packet types",
 "One test compares one message; every offset, width and checksum range of every builder is a separate obligation.",
 [OUT,PKT,UP],[("into_packet_bytes",OUT)],[],["builder output bytes"])
prop("C15","Streaming a packet to a writer equals building it, and writer errors surface",
 "For every builder and field value, the bytes given to a writer are, concatenated, identical to the array form, and space is requested once for exactly that many bytes before anything is written. If the writer refuses the space or any write, that error is returned at once, nothing more is written, and success is reported only when every byte was accepted.",
 ["inputs","fault_sequences"],"all field values, all points at which the writer can fail",
 "No test uses a failing writer; the two emitters are separate code generated from the same fields.",
 [OUT,UP],[("create_packet",OUT),("MemWriter",UP)],[],["writer calls"])
prop("C16","Variable-length builders append exactly one well-formed frame",
 "For every builder with a repeated part and whatever the output already contains, the bytes already there are unchanged and what is appended is one well-formed frame: sync pair, class, id, the true payload length, the fields and records in order, and the checksum over that frame only; the vector form equals appending to an empty vector. (Records whose total size fits the frame's 16-bit length field.)",
 ["inputs","histories"],"all field values, record sequences and prior output contents",
 "The tests append to an empty vector only; prior contents and record sequences are unbounded.",
 [OUT,CV,TY],[("extend_to / into_packet_vec",OUT),("record extend_to",CV)],[],["output container contents"])
prop("C17","What a builder writes, the accessor reads back",
 "For every packet type that can be both sent and received, and every field, the accessor reads from the offset and width the builder wrote, and the composition of the field's encode and decode conversions is the identity on the raw representation for integers, enumerations, flags and byte arrays (for scaled fields the scale factors agree), for components that fit their documented widths; and what was built passes that packet type's own validation.",
 ["inputs"],"all fields of all two-way packet types, all raw values",
 "The two directions are generated by different code and tested on one message each.",
 [OUT,PKT],[("getters vs pack_fields",OUT),("conversion pairs",PKT)],[],["build, frame, parse, read"])
prop("C18","Scaled fields saturate instead of wrapping or panicking",
 "Setting a scaled field from any floating point number, including infinities and NaN, completes without panicking, divides by the field's documented scale, stores the nearest wire integer when the value is in range, and stores the wire integer's extreme when it lies outside its range rather than a wrapped one.",
 ["inputs"],"all floating point values for all scaled fields",
 "Nothing in the suite sets a scaled field out of range or to NaN.",
 [PKT],[("ScaleBack",PKT)],[],["builder bytes"])
prop("C19","Configuration items encode and decode consistently under one key each",
 "Every configuration item has a key no other item uses, its key's size class equals the width of its value type, encoding writes the key then the value little-endian and decoding the same key restores the same item and value, and the reported encoded length equals the bytes written. Reading an item list advances by exactly each item's encoded size and never past the list.",
 ["inputs"],"all configuration items and values",
 "The table has hundreds of rows; the suite exercises fewer than ten.",
 [CV],[("cfg_val table, into/from macros",CV)],[],["CfgVal encode/parse"])
prop("C20","Serialised packets name every field once with its decoded value",
 "With serialisation enabled, every packet type's map contains its class and id and each of its fields exactly once under the field's own name, with the value its accessor returns; repeated parts appear as the sequence of their records and every delivered packet kind, including unknown ones, is serialised.",
 ["inputs"],"all packet types and payloads",
 "The serialisation test compares one packet type.",
 [OUT,TY,UP],[("generated serialize_fields",OUT),("PacketSerializer",OUT)],[],["serialised maps"])
prop("C21","Packed configuration words decode and encode the documented bit ranges",
 "For the port mode, interference detection, time mark, and other multi-field words, each decoded component comes from its documented bit range only, every value of that range is handled, and encoding places each component back in the same range without disturbing the others.",
 ["inputs"],"all raw words, all component values",
 "These conversions are hand written and not covered by the suite.",
 [PKT],[("hand-written from/into_raw pairs",PKT)],[],["component accessors"])
prop("C22","Position, velocity and time conversions use the documented units and fields",
 "The convenience types for position, ECEF position, velocity and date-time take each component from the corresponding packet field and only from it, converted with that field's unit, and the high-precision parts are added with their own unit.",
 ["inputs"],"all field values of all source packets",
 "The suite converts none of the high-precision or ECEF sources.",
 [TY],[("From impls",TY)],[],["Position, PositionECEF, Velocity, DateTime values"])
prop("C23","Date-time conversion rejects impossible values instead of panicking",
 "Converting a packet's calendar fields to a date-time either yields exactly that calendar instant (including the signed nanosecond part) or reports an error; every possible instant is converted, and no combination of year, month, day, hour, minute, second and nanosecond makes it panic or silently produce a different date.",
 ["inputs"],"all raw values of the calendar fields, including those outside calendar ranges",
 "The suite has no date-time conversion tests.",
 [TY],[("TryFrom / From for DateTime",TY)],[],["DateTime conversion"])
prop("C24","The crate stays usable without the standard library",
 "With default features off the library links no standard library or allocator, with the allocation feature it uses the allocator but not the standard library, and every feature combination exposes the same packet decoding and fixed-length building.",
 ["configurations"],"all feature sets",
 "The tests are themselves built with the standard library, which hides an accidental dependency.",
 ["ublox/src/lib.rs",UP,PARSER,"ublox/Cargo.toml"],[("cfg(feature) gates","ublox/src/lib.rs")],[],["crates linked and public items per feature set"])
prop("C25","Inconsistent packet declarations are rejected at compile time",
 "The packet-declaration macros refuse declarations that could not be decoded or encoded consistently: a fixed length that differs from the sum of the fields, unsized or iterator fields not in last place, duplicate or out-of-range enumeration values, flags that are not single bits of the word, duplicate packet names, or missing class, id or length.",
 ["programs"],"all declarations of the rejected kinds",
 "The derive tests only check accepted declarations.",
 [INP,OUT,DT],[("input validation",INP)],[],["compilation of user declarations"])
prop("C26","Packets cannot be forged or outlive the bytes they view",
 "Safe user code can neither create a typed packet view from unvalidated bytes, nor keep a delivered packet or iterator while the parser is fed again, nor mutate the bytes under it, nor build a flag word or packet view by naming private parts.",
 ["programs"],"all safe client programs",
 "Runtime tests cannot show that a program is rejected by the compiler.",
 [PARSER,OUT],[("private fields, lifetimes",OUT)],[],["compile errors in client code"])
prop("C27","Sub-record iterators cover the repeated part once, in order",
 "For every packet with a repeated part, its iterator yields one record for each whole record of the repeated part, in payload order, each record viewing exactly its own bytes, and then ends; remaining-length hints are exact where given.",
 ["inputs"],"all record counts and contents of all repeated parts",
 "Recorded packets have one or two record counts.",
 [PKT,TY],[("iterator next functions",PKT)],[],["iterator items"])
prop("C28","Memory-unsafe operations stay confined and bounded",
 "The library's unsafe operations are confined to the fixed buffer's overlapping move, and that move always reads and writes inside the backing storage; no other part of the library or of the code its macros generate uses unsafe operations.",
 ["inputs","programs"],"all executions of unsafe operations; all generated code",
 "A test run that happens not to touch bad memory says nothing about other sizes; and tests do not look at generated code.",
 [PARSER,OUT],[("FixedLinearBuffer::drain",PARSER)],[],["unsafe operations in the compiled program"])
prop("C29","The backlog is bounded by one incomplete frame",
 "When the iterator reports that nothing more can be delivered, the bytes left for the next call are empty or start with a possible frame start and are fewer than one largest frame, so the retained data cannot grow without bound on any stream.",
 ["inputs","histories"],"all infinite streams",
 "A bounded test stream cannot show boundedness.",
 [PARSER],[("length ceiling and drains",PARSER)],[],["Parser::buffer_len after iteration"])
prop("C30","Every checksum computation is the UBX checksum",
 "All checksum implementations in the library compute, for every byte sequence and every way of feeding it in pieces, the 8-bit Fletcher sums over the bytes in order starting from zero (first sum the bytes, second sum the first sums), modulo 256, and agree with each other.",
 ["inputs"],"all byte sequences and chunkings",
 "The tests compare a few frames.",
 [PARSER,UP],[("UbxChecksumCalc (two copies), ubx_checksum",UP)],[],["checksum bytes"])
prop("C31","Acknowledgement matching and request builders name the right message",
 "An acknowledgement is recognised as being for a packet type exactly when its class and id are that type's, a poll request names exactly the requested type's class and id with an empty payload, and message-rate settings name exactly the requested type.",
 ["inputs"],"all packet types and acknowledgement contents",
 "Tests check one class and id.",
 [PKT,UP],[("is_ack_for, UbxPacketRequest, set_rate_for",PKT)],[],["request bytes, acknowledgement predicates"])
prop("C32","Scaled values survive a round trip to within half a unit",
 "For every scaled field that can be written and read, writing a value in range and reading it back differs from it by at most half of the field's unit, plus a few units in the last place of the field's own float type.",
 ["inputs"],"all in-range floating point values",
 "Only point values could be tested.",
 [PKT],[("ScaleBack rounding",PKT)],[],["build then read"])
prop("C33","Parsing keeps up with the stream in linear time",
 "The work of parsing a stream is proportional to its length, for every input including adversarial ones and whatever the chunking, when each iteration is driven to its end: between two packets or errors the scanner does a bounded amount of work per byte it consumes plus a constant set by the largest frame, every item it produces consumes at least one byte, what it keeps between calls is shorter than one frame, and no operation on the buffered bytes costs more than the bytes it takes, gives up or moves for the last time.",
 ["inputs","histories"],"all streams and chunkings",
 "Benchmarks sample friendly streams; a quadratic corner shows only on long adversarial ones.",
 [PARSER],[("ParserIter::next, DualBuffer, UnderlyingBuffer implementations, checksum",PARSER)],[],["run time"])
DEF=[UP,PKT,PARSER]
prop("C34","Decoding and building have no hidden state or outside effects",
 "What the library does with a packet, a builder or a parser depends only on the values it is given: it keeps no global, thread-local or interior-mutable state, reads no clock, environment, file or random source, prints nothing, and writes only to the buffer, writer, serialiser or formatter handed to it. Equal inputs therefore give equal results, on every call and in every feature set.",
 ["inputs","histories"],"all call histories of all functions in all feature sets",
 "A test run twice with the same result says nothing about other histories, and a stray global is invisible until two users share it.",
 [PARSER,PKT,UP,TY],[("whole library","ublox/src/lib.rs")],[],["results of repeated calls; side effects"])
prop("C35","What works without an allocator never allocates",
 "Every function that exists without the allocation feature - parsing with the fixed buffer, reading every field and iterating every sub-record, building fixed-size packets and requests, serialising - also works without allocating when the allocation feature is on: none of them reaches heap allocation on any path.",
 ["inputs","configurations"],"all paths of all functions available without the allocator",
 "Allocation is invisible to assertions, and the tests run where an allocator is present.",
 [PARSER,PKT,TY],[("FixedLinearBuffer parsing and accessors",PARSER)],[],["heap allocations"])
prop("C36","The library never recurses, so stack use is bounded on any input",
 "No function of the library calls itself, directly or through others, on any input or stream, so that the stack needed for parsing, reading and building does not grow with the input or the number of damaged frames in it.",
 ["inputs","schedules"],"all call chains of the library",
 "Tests feed short streams, on which a recursive resynchronisation works.",
 [PARSER,UP,PKT],[("ParserIter::next loop",PARSER)],[],["stack depth on long damaged streams"])
prop("C37","Default builders and settings carry the documented defaults",
 "A builder or settings value created by default writes the documented default in every field: zero or empty unless the field's type documents another default, reserved parts zero.",
 ["inputs"],"all builders and settings types with a default",
 "Tests always set the fields they look at.",
 [PKT,OUT],[("Default for builders",PKT)],[],["bytes of a default builder"])
prop("C38","Debug text shows every field once with its value",
 "The debug text of every packet names the packet and shows each of its fields exactly once, under its own name, with the value the field's accessor returns; a delivered packet's debug text names its kind and shows that packet; enumerated values show their own variant name, and structured values and errors their own parts.",
 ["inputs"],"all values of all packets, sub-records, enumerations and errors",
 "No test compares debug text.",
 [OUT,PKT,TY],[("generate_debug_impl",OUT)],[],["{:?} output"])
prop("C39","Everything can be sent and shared between threads",
 "Parsers, packet iterators, packet views, sub-record iterators, builders, settings and errors can be moved to and shared between threads (given that a client's own buffer can), and the error types are standard error types.",
 ["programs"],"all public types",
 "Single-threaded tests do not require it.",
 [PARSER,OUT,"ublox/src/error.rs"],[("public types","ublox/src/lib.rs")],[],["compilation of threaded client programs"])
prop("C40","Serialised components can be read back",
 "Every component type of the crate that can be deserialised (enumerations, flag sets, newtypes, and the sub-structures of packets) accepts the form it is itself serialised to, and gives back the same value.",
 ["inputs"],"all values of all types that are both Serialize and Deserialize",
 "The serde test serialises a single packet and reads nothing back.",
 [PKT,TY,OUT],[("CfgItfmConfig2, CfgAntSettings and their parts",PKT)],[],["serde_json text read back"])
prop("C41","Error messages say what failed, with its own numbers",
 "The text of every error names its kind so that no two kinds of one error type read alike, shows each of the error's parts exactly once and nothing else, and a place introduced by the name of a part (expect, got, field, packet, ...) holds that part.",
 ["inputs"],"all values of all error types",
 "No test looks at error texts; exchanged numbers read plausibly.",
 ["ublox/src/error.rs"],[("Display impls","ublox/src/error.rs")],[],["{} of errors"])
prop("C42","Copies are exact, and equality looks at every part",
 "Cloning a value of any type of the crate gives back exactly that value (a copied sub-record iterator goes on from where the original stands), without changing or panicking on the original; and two values of a type with equality are equal exactly when they are of the same kind and all their parts are equal.",
 ["inputs","histories"],"all values of all cloneable and comparable types",
 "Tests compare a few errors and never copy an iterator part-way.",
 [PKT,"ublox/src/error.rs","ublox/src/ubx_packets/cfg_val.rs","ublox/src/ubx_packets/types.rs"],[("Clone and PartialEq impls",PKT)],[],["clone() and =="])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
