#!/usr/bin/env python3
# Generates /verif/properties.jsonl (single source for the property texts).
import json, os
I = "include/crab/"
H = I + "http/"
P = []
def p(id, title, st, over, q, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe or [], state=state or [], hook_needed=None)))

p("C01", "Buffer is an exact bounded FIFO of bytes",
  "The circular Buffer of capacity N behaves as a FIFO byte queue that never holds more than N bytes: every byte read, peeked or written out through a stream is exactly the next byte written earlier, in order, none lost, duplicated or altered, also when the content wraps around the end of the storage. The free/occupied chunk pointers and counts it exposes always describe disjoint, in-range parts of the storage that add up to the capacity. Writing, un-writing or reading past the limits through did_write/did_write_undo/did_read throws std::logic_error.",
  ["inputs", "histories"], "every capacity, every history of public operations and every data and count argument",
  "No test touches Buffer directly; the state space of read/write positions, wrap-around and partial stream transfers is unbounded.",
  [I+"streams.hpp", I+"streams.hxx"],
  [("Buffer::did_read/did_write/did_write_undo", I+"streams.hpp"), ("Buffer::read_some/write_some/peek/read_from/write_to", I+"streams.hxx")],
  ["Buffer public API"], [dict(name="read_pos,write_pos", meaning="0<=read_pos<size, read_pos<=write_pos<=read_pos+size", where=I+"streams.hpp")])

p("C02", "Streams transfer exactly the bytes they report",
  "Memory, vector, string and combined streams move bytes between caller, stream and any other stream exactly once and in order: read_some/write_some return the number of bytes transferred, read/write transfer exactly the requested number or throw, and write_to returns exactly how many bytes the sink accepted and leaves exactly the rest in the source, even when the sink accepts only part of each write. No stream reads or writes outside the memory it was given.",
  ["inputs", "histories"], "every content, every requested count and every sequence of partial acceptances by the other side",
  "No test covers the stream classes with a peer that accepts only part of the data; the acceptance pattern is arbitrary.",
  [I+"streams.hpp", I+"streams.hxx"],
  [("IStream::read/OStream::write", I+"streams.hxx"), ("*::read_some, *::write_some, *::write_to", I+"streams.hxx"), ("CombinedIStream", I+"streams.hpp")])

p("C03", "Intrusive heap always yields the extreme element",
  "After any sequence of insert, erase, erase_at-front and pop operations the heap contains exactly the elements inserted and not removed, front() is an element no other element precedes under the ordering predicate, and membership (in_heap) is true exactly for the contained elements. Inserting or erasing an element never disturbs the other elements, and reports whether anything changed.",
  ["inputs", "histories"], "every heap size, every priority assignment (including ties) and every history of operations",
  "The heap has no unit test; sift paths depend on size, position and relative priorities of all elements.",
  [I+"intrusive_heap.hpp"], [("move_up/move_down/adjust", I+"intrusive_heap.hpp"), ("insert/erase/pop_front", I+"intrusive_heap.hpp")],
  [], [dict(name="heap_index", meaning="0 = not in heap, else 1-based position in storage", where=I+"intrusive_heap.hpp")])

p("C04", "Intrusive list keeps insertion order and membership",
  "After any sequence of push/insert, pop and unlink operations, iterating the intrusive list visits exactly the elements currently linked, once each, in the order implied by the operations, and in_list is true exactly for those. Linking an element that is already linked, or unlinking one that is not, changes nothing; destroying or unlinking an element while linked removes just that element.",
  ["inputs", "histories"], "every list length and every history of operations, on first, middle and last elements",
  "There is no unit test for the list; correctness depends on aliasing between neighbours (empty, single element, adjacent).",
  [I+"intrusive_list.hpp"], [("insert/unlink", I+"intrusive_list.hpp")])

p("C05", "Timers never fire early and fire in due order",
  "A timer becomes due only when the loop's current time has reached the moment it was last set to; a cancelled timer never fires, a re-set timer fires once, according to its last setting, and the timer scheduled earliest is always handled first (a timer postponed in place may run as soon as it is due, ahead of others already due). The time the loop sleeps never exceeds the time to the earliest pending timer by more than the documented rounding, and negative or too large delays are clamped instead of overflowing.",
  ["inputs", "histories"], "every set of timers, every sequence of set/cancel/move operations and every clock value",
  "No test exercises timers; interleavings of set, postpone and cancel with arbitrary clock values are unbounded.",
  [I+"network.hpp", I+"network.hxx"], [("Timer::once_at/cancel/can_fire/fire", I+"network.hxx"), ("RunLoop process_timer", I+"network.hxx"), ("IntrusiveHeap", I+"intrusive_heap.hpp")])

p("C06", "Decimal integer parsing is exact or rejects",
  "For every integer type, parsing a string succeeds exactly when the whole string is optional whitespace, an optional sign ('-' only for signed types), a decimal number without excess leading zeroes and optional whitespace, and the number is representable in the type; the result is that number. Every other string is rejected with std::out_of_range, and no arithmetic overflow or read outside the string happens on the way.",
  ["inputs"], "every byte string of every length, every integer type",
  "test_atoi samples a few dozen strings; the accepted language and the overflow boundary are over all strings.",
  [I+"integer_cast.hpp"], [("integer_parse_impl/integer_parse", I+"integer_cast.hpp")])

p("C07", "integer_cast between numbers is exact or throws",
  "integer_cast from any integer type to any integer type returns the same mathematical value exactly when it is representable in the target type, and otherwise throws std::out_of_range. From float or double it succeeds exactly when min <= value <= max of the target (so NaN and out-of-range values throw) and returns the value truncated toward zero. It never invokes undefined behaviour, including for NaN and values one past the largest representable one.",
  ["inputs"], "every value of every source type and every target type",
  "Tests sample few values and few type pairs.",
  [I+"integer_cast.hpp"], [("integer_cast_impl", I+"integer_cast.hpp"), ("integer_cast_is_integral", I+"integer_cast.hpp")])

p("C08", "Safe arithmetic returns the exact result or reports",
  "safe_add, safe_sub (throwing and optional-returning) and safe_abs return the exact mathematical result whenever it is representable and report overflow (std::out_of_range or an empty optional) exactly when it is not. They never overflow internally.",
  ["inputs"], "every pair of operands of every integer type",
  "Tests sample a handful of operand pairs.",
  [I+"integer_cast.hpp"], [("safe_add/safe_sub/safe_*_opt/safe_abs", I+"integer_cast.hpp")])

p("C09", "Integer formatting is canonical decimal",
  "Formatting any value of any integer type produces its canonical decimal representation (a '-' for negatives, no leading zeroes, no other characters), within the advertised maximum length. Parsing the produced text returns the original value.",
  ["inputs"], "every value of every integer type",
  "Only a few values are sampled by the existing tests.",
  [I+"integer_cast.hpp"], [("IntegerSaver", I+"integer_cast.hpp"), ("max_to_string_length", I+"integer_cast.hpp")])

p("C10", "Base64 encodes exactly and decodes only valid text",
  "base64::encode produces the RFC 4648 padded encoding for every byte string, and decode of it returns the original bytes. decode accepts exactly concatenations of base64 groups of the RFC 4648 alphabet (four characters each, '=' padded groups included; the last group may leave its padding out) and yields the bytes they denote, rejects everything else, and never reads or writes outside the given memory.",
  ["inputs"], "every byte string / text of every length",
  "test_crypto only samples a few strings; acceptance of malformed text is over all strings.",
  [I+"crypto/base64.hpp", I+"crypto/base64.hxx"], [("base64::encode/decode", I+"crypto/base64.hxx")])

p("C11", "Hex encoding round-trips and rejects bad digits",
  "to_hex produces two lower-case hex digits per byte, most significant first; from_hex accepts exactly even-length strings of hex digits of either case, yields the bytes they denote, and leaves its output unchanged when it rejects.",
  ["inputs"], "every byte string and every candidate text",
  "No test enumerates the rejected or mixed-case texts of arbitrary length.",
  [I+"util.hpp", I+"util.hxx"], [("to_hex/from_hex/from_hex_digit", I+"util.hxx")])

p("C12", "Percent-encoding round-trips and leaves no reserved bytes",
  "url_encode replaces every byte that is not allowed to stand for itself by '%' and two hex digits and keeps all others, so the result contains no control, space, non-ASCII or reserved characters. Decoding the encoded text with the library's own parsers (query values, cookie-safe values, URI paths) gives back the original bytes.",
  ["inputs"], "every byte string",
  "No existing test round-trips arbitrary bytes.",
  [H+"query_parser.hxx", H+"types.hxx"], [("url_encode/is_uri_reserved", H+"query_parser.hxx")])

p("C13", "UTF-8 validation accepts exactly well-formed UTF-8",
  "is_valid_utf8 returns true exactly for byte strings that are well-formed UTF-8 as defined by RFC 3629: no overlong forms, no surrogates, nothing above U+10FFFF, no truncated or stray continuation bytes. It never reads outside the given range.",
  ["inputs"], "every byte string of every length",
  "Existing tests sample a few strings; the automaton must be right for all of them.",
  [I+"util.hxx"], [("utf8_decode table automaton, is_valid_utf8", I+"util.hxx")])

p("C14", "CRC-32 and CRC-32C equal the polynomial definition",
  "The CRC functions return, for every byte string and every initial value, the bit-by-bit CRC with the IEEE and the Castagnoli polynomial respectively. Feeding data in several consecutive pieces gives the same result as feeding it at once.",
  ["inputs", "histories"], "every data, every initial value, every split into pieces",
  "test_crypto checks a few known vectors; table entries and length/alignment handling must hold for all inputs.",
  [I+"crypto/crc32.hxx"], [("crc32/crc32c tables and loops", I+"crypto/crc32.hxx")])

p("C15", "SHA-1 is computed exactly, however the data is split",
  "The SHA-1 object yields the FIPS 180 digest of the concatenation of all data added since construction, for every message length and for every way of splitting the message between add calls.",
  ["inputs", "histories"], "every message, every sequence of add calls with every piece length",
  "Tests use a few vectors; block-boundary and padding behaviour depends on all length combinations.",
  [I+"crypto/sha1.hpp", I+"crypto/sha1.hxx"], [("sha1::add/process_block/finalize", I+"crypto/sha1.hxx")])

p("C16", "MD5 is computed exactly, however the data is split",
  "The MD5 object yields the RFC 1321 digest of the concatenation of all data added since construction, for every message length and for every way of splitting the message between add calls.",
  ["inputs", "histories"], "every message, every sequence of add calls with every piece length",
  "Tests use a few vectors; block-boundary and padding behaviour depends on all length combinations.",
  [I+"crypto/md5.hpp", I+"crypto/md5.hxx"], [("md5::add/process_block/finalize", I+"crypto/md5.hxx")])

p("C17", "WebSocket frame headers encode and decode per RFC 6455",
  "Writing a frame header and parsing the written bytes gives back the same fin flag, opcode, payload length and masking key for every supported opcode (including continuation) and every 64-bit length, using the shortest length form. The parser rejects reserved bits, unknown opcodes and fragmented or oversized control frames, consumes exactly the header's bytes no matter how they are split, and never writes outside its buffers.",
  ["inputs"], "every combination of flags, opcode, length, key; every byte sequence and every split",
  "No test covers WebSocket framing.",
  [H+"web_message_parser.hpp", H+"web_message_parser.hxx"], [("WebMessageHeaderSaver", H+"web_message_parser.hxx"), ("WebMessageHeaderParser::consume", H+"web_message_parser.hxx")])

p("C18", "WebSocket masking XORs each byte with its key byte",
  "Masking data at stream offset s with key ABCD changes byte i of the data to itself XOR key byte (s+i) mod 4 and touches nothing else, for every alignment, length and offset; masking twice restores the data. Masking a message piecewise at the matching offsets equals masking it at once.",
  ["inputs"], "every key, offset, length, alignment and content",
  "No test covers masking; the word-at-a-time path depends on pointer alignment and length.",
  [H+"web_message_parser.hxx", I+"util.hpp"], [("WebMessageHeaderParser::mask_data", H+"web_message_parser.hxx"), ("rol", I+"util.hpp")])

p("C19", "WebSocket payloads arrive intact however they are split",
  "Feeding a frame's payload to the body parser in any pieces yields exactly the unmasked payload bytes in order, consumes exactly the payload length and no byte more, and becomes complete exactly when all of it has arrived.",
  ["inputs", "histories"], "every payload, key, and split into pieces",
  "No test covers WebSocket payload parsing.",
  [H+"web_message_parser.hpp", H+"web_message_parser.hxx"], [("WebMessageBodyParser::consume", H+"web_message_parser.hxx")])

p("C20", "HTTP request headers: exact grammar, limits, no leakage",
  "The request header parser accepts exactly the requests of its documented grammar (method, URI, HTTP/1.x version, header lines ending with an empty line), yields method, path, query and header names (lower-cased) and values exactly as sent, and rejects everything else by exception. The outcome does not depend on how the bytes are split between calls, nothing after the end of the header is consumed, headers longer than the limit are rejected, and no control character ever ends up in method, header names or values (except a tab that starts a folded continuation line).",
  ["inputs", "histories"], "every byte sequence and every split of it into pieces",
  "The tests and fuzz corpus replay a fixed set of messages and mostly check absence of crashes.",
  [H+"request_parser.hpp", H+"request_parser.hxx"], [("RequestParser::consume", H+"request_parser.hxx"), ("max_total_length check", H+"request_parser.hxx")])

p("C21", "HTTP response headers: exact grammar, limits, no leakage",
  "The response header parser accepts exactly HTTP/1.x status lines with a three digit style numeric status, reason and header lines ending with an empty line, yields version, status, reason, header names (lower-cased) and values exactly as sent, and rejects everything else by exception. The outcome does not depend on how the bytes are split, nothing after the header's end is consumed, and over-long headers are rejected.",
  ["inputs", "histories"], "every byte sequence and every split of it into pieces",
  "The tests and fuzz corpus replay a fixed set of messages and mostly check absence of crashes.",
  [H+"response_parser.hpp", H+"response_parser.hxx"], [("ResponseParser::consume", H+"response_parser.hxx")])

p("C22", "HTTP body framing delivers exactly the body",
  "For a body of declared content length the body parser delivers exactly that many bytes and consumes no more; for a chunked body it delivers exactly the concatenation of the chunk data and stops exactly after the trailer's end. Malformed chunk headers, sizes overflowing 64 bits, and chunk headers or trailers beyond their limits are rejected, and the outcome does not depend on how the bytes are split.",
  ["inputs", "histories"], "every byte sequence, every declared length and every split into pieces",
  "Only a fixed corpus is replayed, mostly for absence of crashes.",
  [H+"request_parser.hpp", H+"request_parser.hxx"], [("BodyParser::consume", H+"request_parser.hxx")])

p("C23", "Semantic headers (length, coding, connection) decided right",
  "From any header list the parsers derive content length (exact decimal value; conflicting or invalid ones rejected), transfer codings (chunked only as the final coding), keep-alive (HTTP/1.1 default on, 1.0 default off, overridden by Connection), upgrade and content type fields exactly as HTTP/1.1 prescribes, case-insensitively and in any order of headers.",
  ["inputs"], "every header name/value pair and header order",
  "Only a few header combinations appear in the tests.",
  [H+"request_parser.hxx", H+"response_parser.hxx", H+"types.hxx"], [("process_ready_header", H+"request_parser.hxx"), ("parse_content_type_value, parse_authorization_basic", H+"types.hxx")])

p("C24", "Query strings parse to exactly their key/value pairs",
  "Parsing a query string (or form body) yields exactly the pairs obtained by splitting at '&', splitting each piece at its first '=', and decoding '+' and %XX in keys and values; malformed percent sequences are kept or dropped locally without swallowing or merging neighbouring pairs.",
  ["inputs"], "every byte string",
  "test_query_parser samples a few strings.",
  [H+"query_parser.hpp", H+"query_parser.hxx"], [("QueryParser::consume/persist_pair", H+"query_parser.hxx")])

p("C25", "Cookie headers parse to exactly their name/value pairs",
  "Parsing a Cookie header value yields exactly its semicolon separated name=value pairs with surrounding white space removed, each name and value otherwise exactly as sent (quotes included); malformed pieces do not corrupt other pairs.",
  ["inputs"], "every byte string",
  "test_cookie_parser samples a few strings.",
  [H+"query_parser.hpp", H+"query_parser.hxx"], [("CookieParser::consume/persist_pair", H+"query_parser.hxx")])

p("C26", "URI paths are decoded, normalised and cannot escape root",
  "Parsing a URI splits it exactly into scheme, user info, host, port, percent-decoded path and undecoded query; '.' and '..' segments are resolved per RFC 3986 - also when spelled with escapes - so the resulting path always starts with '/' and contains no '.' or '..' segment, and '..' at the root stays at the root. A malformed percent escape stands for itself, and nothing short of scheme://host is accepted.",
  ["inputs"], "every byte string",
  "test_uri_parser samples a few URIs.",
  [H+"query_parser.hxx", H+"query_parser.hpp", H+"request_parser.hxx"], [("URIParser::consume", H+"query_parser.hxx")])

p("C27", "Serialised headers parse back to the same message",
  "Serialising a request or response header whose fields contain only characters legal for their position produces one well-formed HTTP/1.x head which the library's own parser reads back with the same method, path, query, version, status, connection flags, framing and header fields. set_uri followed by get_uri gives back the URI.",
  ["inputs"], "every header object with legal field contents",
  "main_messages only samples hand-written messages in one direction.",
  [H+"types.hxx"], [("RequestHeader::to_string/ResponseHeader::to_string/to_string_common/set_uri/get_uri", H+"types.hxx")])

p("C28", "Response body writer never misframes the stream",
  "Streaming a response body sends exactly the declared content length or a well-formed chunk sequence: each non-empty write becomes one chunk of that size, empty writes never produce a terminating chunk, the final chunk is sent exactly once, and writing more than the declared length throws without sending. The reported body position equals the number of body bytes accepted.",
  ["inputs", "histories"], "every sequence of body writes of every size, declared length or chunked, HTTP or WebSocket",
  "No test covers the writing side.",
  [H+"connection.hxx", H+"server.hxx"], [("ServerConnection::write/write_last_chunk", H+"connection.hxx"), ("Client::write", H+"server.hxx")])

p("C29", "Buffered socket sends every byte once and in order",
  "Whatever part of each write the operating system accepts, the bytes handed to the socket are exactly the bytes given to write/buffer, in order and once each, the reported buffered size equals the number of bytes accepted by the object but not yet by the system, and direct writes never overtake buffered data. Shutdown is passed on only after all buffered data was handed over.",
  ["inputs", "histories", "fault_sequences"], "every sequence of writes and every pattern of partial acceptance by the system",
  "No test exercises partial socket writes.",
  [H+"connection.hpp", H+"connection.hxx"], [("BufferedTCPSocket::write/buffer/write_some/sock_handler/write_shutdown", H+"connection.hxx")])

p("C30", "HTTP/WebSocket connection delivers messages whole and in order",
  "A connection delivers each complete request or message exactly once, in arrival order, assembled exactly from its frames (interleaved control frames handled without disturbing it), answers pings with a pong carrying the same payload, and never delivers partial data of an earlier peer after being closed and reused. Text messages that are not UTF-8 and protocol errors close the connection instead of being delivered.",
  ["inputs", "histories"], "every sequence of frames and every read fragmentation",
  "No test drives the connection state machine.",
  [H+"connection.hxx"], [("ServerConnection::advance_state / ClientConnection::advance_state", H+"connection.hxx")])

p("C31", "The pseudo-random generator is reproducible PCG32",
  "A Random object constructed from a seed yields exactly the PCG32 sequence of that seed on every platform; bytes() fills exactly the requested range with that sequence in order, printable_string contains only letters and digits, and double_value is always in [0,1).",
  ["inputs"], "every seed, every sequence of requests and every length",
  "No test pins the sequence or the tail handling.",
  [I+"util.hpp", I+"util.hxx"], [("Random::pcg32_random_r/bytes/printable_string/double_value", I+"util.hxx")])

p("C32", "Addresses parse and print consistently",
  "Parsing a textual IPv4 or IPv6 address and port succeeds exactly for valid ones and reports failure otherwise without throwing, and printing a parsed address gives a text that parses to an equal address; equality and ordering agree with address family, address bytes and port.",
  ["inputs"], "every text and port",
  "No test covers Address.",
  [I+"network_posix_win.hxx", I+"network_base.hpp"], [("Address::parse/get_address/get_port", I+"network_posix_win.hxx")])

p("C33", "No callback fires after its owner cancelled or died",
  "After a socket, timer, resolver or signal object is closed, cancelled or destroyed, its handler is never invoked again, even for events that were already pending in the same loop iteration.",
  ["schedules", "histories"], "every order of event arrival, handler execution and destruction",
  "Depends on the kernel's event order and on re-entrant handlers.",
  [I+"network_posix.hxx", I+"network.hxx"], [("Callable/Performable lists, cancel", I+"network_posix.hxx")])

p("C34", "Cross-thread wake-ups and DNS results are never lost",
  "A Watcher call from any thread leads to at least one invocation of its handler on the loop's thread after the call, and every started DNS resolution that is not cancelled reports exactly once, on the loop's thread, without data races.",
  ["schedules"], "every interleaving of threads",
  "Thread interleavings cannot be enumerated by tests.",
  [I+"network.hxx", I+"network_posix.hxx"], [("Watcher, DNSWorker, RunLoop wakeup", I+"network_posix.hxx")])

p("C35", "Event loop is fair and makes progress under overload",
  "While the run loop runs, every ready socket and due timer is eventually served; an acceptor that hits the file descriptor or connection limit resumes accepting once resources are free.",
  ["schedules", "fault_sequences", "histories"], "every workload and every fault pattern of the operating system",
  "Liveness over unbounded executions and OS faults is out of reach of tests.",
  [I+"network_posix.hxx", H+"server.hxx"], [("RunLoop::run, TCPAcceptor, Server::accept_all", I+"network_posix.hxx")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
