// C17: WebSocket frame headers
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/http/web_message_parser.hxx>
using namespace crab::http;

static bool supported(int op) { return op == 0 || op == 1 || op == 2 || op == 8 || op == 9 || op == 10; }

// write, then parse the bytes (followed by arbitrary bytes, in two arbitrary pieces)
VC_HARNESS(roundtrip) {
	bool fin = vc::any<bool>("fin");
	int op   = int(vc_range("op", 0, 15));
	vc_assume(supported(op));
	uint64_t len = vc::any<uint64_t>("len");
	bool control = op >= 8;
	vc_assume(!control || (fin & (len <= 125)));
	bool masked  = vc::any<bool>("masked");
	uint32_t key = vc::any<uint32_t>("key");
	crab::optional<uint32_t> mk;
	if (masked) mk = key;
	WebMessageHeaderSaver s(fin, op, len, mk);
	size_t want = 2 + (len < 126 ? 0 : len < 65536 ? 2 : 8) + (masked ? 4 : 0);
	vc_check(s.size() == want, "header.shortest-form");
	uint8_t bytes[16];
	for (size_t i = 0; i < 14; ++i)
		if (i < want) bytes[i] = s.data()[i];
		else bytes[i] = vc::any<uint8_t>("extra");
	WebMessageHeaderParser p;
	size_t cut       = vc_range("cut", 0, 14);
	vc_assume(cut <= want);
	const uint8_t *q = p.parse((const uint8_t *)bytes, (const uint8_t *)bytes + cut);
	vc_check(q == bytes + cut, "header.consumes-all-of-partial");
	vc_check(p.is_good() == (cut == want), "header.not-good-before-complete");
	q = p.parse(q, (const uint8_t *)bytes + 14);
	vc_reach("parsed");
	vc_check(p.is_good(), "header.good-when-complete");
	vc_check(q == bytes + want, "header.consumes-exactly-header");
	vc_check(p.fin == fin, "header.fin");
	vc_check(p.opcode == op, "header.opcode");
	vc_check(p.payload_len == len, "header.length");
	vc_check(bool(p.masking_key) == masked, "header.masked");
	if (masked) vc_check(*p.masking_key == key, "header.key");
}
// the bytes written are the RFC layout
VC_HARNESS(layout) {
	bool fin = vc::any<bool>("fin");
	int op   = int(vc_range("op", 0, 15));
	uint64_t len = vc::any<uint64_t>("len");
	bool masked  = vc::any<bool>("masked");
	uint32_t key = vc::any<uint32_t>("key");
	crab::optional<uint32_t> mk;
	if (masked) mk = key;
	WebMessageHeaderSaver s(fin, op, len, mk);
	const uint8_t *d = s.data();
	vc_check(d[0] == uint8_t((fin ? 0x80 : 0) | op), "layout.byte0");
	uint64_t l7 = len < 126 ? len : len < 65536 ? 126 : 127;
	vc_check(d[1] == uint8_t((masked ? 0x80 : 0) | l7), "layout.byte1");
	size_t pos = 2;
	if (l7 == 126) {
		vc_check(d[2] == uint8_t(len >> 8) && d[3] == uint8_t(len), "layout.length16");
		pos = 4;
	} else if (l7 == 127) {
		uint64_t v = 0;
		for (int i = 0; i < 8; ++i) v = v << 8 | d[2 + i];
		vc_check(v == len, "layout.length64");
		pos = 10;
	}
	if (masked) {
		vc_check(((uint32_t(d[pos]) << 24) | (uint32_t(d[pos + 1]) << 16) | (uint32_t(d[pos + 2]) << 8) | d[pos + 3]) == key, "layout.key");
		pos += 4;
	}
	vc_check(pos == s.size(), "layout.size");
}
// any 14 bytes: the parser rejects exactly reserved bits, unknown opcodes, fragmented or oversized control frames
VC_HARNESS(reject) {
	const uint8_t *b = vc_buf("bytes", 14);
	bool fin = (b[0] & 0x80) != 0, masked = (b[1] & 0x80) != 0;
	int op = b[0] & 15;
	unsigned l7 = b[1] & 0x7f;
	bool bad = ((b[0] & 0x70) != 0) | !supported(op) | ((op >= 8) & ((l7 > 125) | !fin));
	size_t want = 2 + (l7 == 126 ? 2 : l7 == 127 ? 8 : 0) + (masked ? 4 : 0);
	WebMessageHeaderParser p;
	const uint8_t *q = nullptr;
	bool threw = false;
	try {
		q = p.parse(b, b + 14);
	} catch (const std::exception &) {
		threw = true;
	}
	vc_check(threw == bad, "parser.rejects-exactly-invalid-headers");
	if (!threw) {
		vc_reach("accepted");
		vc_check(p.is_good() && q == b + want, "parser.consumes-exactly-header");
		uint64_t v = 0;
		if (l7 < 126) v = l7;
		else if (l7 == 126) v = uint64_t(b[2]) << 8 | b[3];
		else
			for (int i = 0; i < 8; ++i) v = v << 8 | b[2 + i];
		vc_check(p.payload_len == v, "parser.length");
		vc_check(p.fin == fin && p.opcode == op && bool(p.masking_key) == masked, "parser.flags");
		if (masked) {
			const uint8_t *k = b + want - 4;
			vc_check(*p.masking_key == (uint32_t(k[0]) << 24 | uint32_t(k[1]) << 16 | uint32_t(k[2]) << 8 | k[3]), "parser.key");
		}
	}
}
