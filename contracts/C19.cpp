// C19: WebMessageBodyParser. Invariant between calls: `body` holds the unmasked bytes received so far, masking_shift is their number
// (mod 4) when a key is set, remaining_bytes is what is missing, and GOOD means nothing is missing.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/http/web_message_parser.hxx>
using namespace crab::http;
typedef WebMessageBodyParser P;
static const size_t BIG = size_t(1) << 40;
static inline uint8_t key_byte(uint32_t key, size_t i) { return uint8_t(key >> (24 - 8 * (i & 3))); }
static size_t g_k; static const std::string *g_body;
namespace vcrep {
// contract of mask_data, proved in C18 (byte i of the range is XORed with key byte (shift + i) mod 4, nothing else changes)
void mask_data(size_t shift, char *data, size_t size, uint32_t key) {
	size_t at = size_t(data - g_body->data());
	bool in   = g_k >= at && g_k < at + size;
	char old  = in ? g_body->data()[g_k] : char(0);
	vc_havoc(data, size, "masked");
	if (in) vc_assume(g_body->data()[g_k] == char(uint8_t(old) ^ key_byte(key, shift + (g_k - at))));
}
}
struct Env {
	P p;
	size_t len; uint64_t remaining; uint32_t key; bool good;
	const uint8_t *in; size_t n; char old;
	Env() {
		vc::Raw<std::string> raw;
		vc_string(raw.ptr(), "body");
		p.body.get_buffer() = std::move(*raw);
		len = p.body.get_buffer().size();
		remaining = vc::any<uint64_t>("remaining");
		key = vc::any<uint32_t>("key");
		good = remaining == 0;
		p.remaining_bytes = remaining;
		p.masking_key = key;
		p.state = good ? P::GOOD : P::BODY;
		size_t shift = vc::any<size_t>("shift");
		vc_assume((key == 0) | ((shift & 3) == (len & 3)));
		p.masking_shift = shift;
		n  = vc_range("n", 0, BIG);
		in = vc_buf("in", n);
		g_body = &p.body.get_buffer();
		g_k = vc_range("k", 0, 4 * BIG);
		old = vcspec::char_at(g_body, g_k);
	}
	// after `took` bytes were consumed
	void check(const uint8_t *rv) {
		size_t took = n < remaining ? n : size_t(remaining);
		const std::string &b = p.body.get_buffer();
		vc_check(rv == in + took, "consumes-exactly-payload");
		vc_check(p.remaining_bytes == remaining - took, "remaining");
		vc_check((p.state == P::GOOD) == (p.remaining_bytes == 0), "good-iff-complete");
		vc_check(p.is_good() == (p.remaining_bytes == 0), "is_good");
		vc_check((p.masking_key == key) & ((key == 0) | ((p.masking_shift & 3) == ((len + took) & 3))), "masking-position-kept");
		vc_check(b.size() == len + took, "body-size");
		if (g_k < len) vc_check(b[g_k] == old, "earlier-bytes-kept");
		else if (g_k < len + took) vc_check(uint8_t(b[g_k]) == (in[g_k - len] ^ key_byte(key, g_k)), "bytes-unmasked");
	}
};
VC_HARNESS(consume) {
	Env e;
	vc_assume(e.len <= BIG);
	const uint8_t *rv = e.p.consume(e.in, e.in + e.n);
	vc_reach("consumed");
	e.check(rv);
}
VC_HARNESS(parse) {
	Env e;
	vc_assume(e.len <= BIG);
	const uint8_t *rv = e.p.parse(e.in, e.in + e.n);
	vc_reach("consumed");
	e.check(rv);
}
VC_HARNESS(initial) {
	uint64_t len = vc::any<uint64_t>("len");
	uint32_t key = vc::any<uint32_t>("key");
	crab::optional<uint32_t> mk;
	bool has = vc::any<bool>("has-key");
	if (has) mk = key;
	P p(len, mk);
	vc_check(p.body.get_buffer().empty() & (p.body.size() == 0), "initial.empty");
	vc_check((p.remaining_bytes == len) & ((p.state == P::GOOD) == (len == 0)), "initial.remaining");
	vc_check((p.masking_key == (has ? key : 0)) & (p.masking_shift == 0), "initial.key");
}
VC_HARNESS(default_state) {
	P p;
	vc_check(p.is_good() & p.body.get_buffer().empty(), "initial.default-is-complete");
}
// from a circular buffer: what was consumed is taken from the buffer, the rest stays
VC_HARNESS(parse_buffer) {
	size_t cap = vc_range("cap", 1, BIG);
	crab::Buffer b(cap);
	size_t rp = vc_range("rp", 0, BIG), wp = vc_range("wp", 0, 2 * BIG);
	vc_assume((rp < cap) & (wp >= rp) & (wp <= rp + cap));
	b.read_pos = rp; b.write_pos = wp;
	P p;
	uint64_t rem = vc::any<uint64_t>("remaining");
	p.remaining_bytes = rem;
	p.state = rem == 0 ? P::GOOD : P::BODY;
	size_t avail = b.read_count(), size = b.size();
	g_k = vc_range("k", 0, BIG);
	const uint8_t *rd = b.read_ptr();
	uint8_t want = g_k < avail ? rd[g_k] : 0;
	p.parse(b);
	size_t took = avail < rem ? avail : size_t(rem);
	vc_check(b.size() == size - took, "parse-buffer.consumed");
	vc_check(p.body.get_buffer().size() == took, "parse-buffer.size");
	if (g_k < took) vc_check(uint8_t(p.body.get_buffer()[g_k]) == want, "parse-buffer.bytes");
}
