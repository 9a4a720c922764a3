// C22: BodyParser. Every step from every parser state is specified: byte by byte for chunk headers and trailers, in bulk for data.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
#include <crab/http/request_parser.hxx>
using namespace crab::http;
typedef BodyParser P;
static const size_t BIG = size_t(1) << 40;
namespace spec {
inline int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline bool token(int c) {  // RFC 7230 tchar
	if (c <= 32 || c >= 127) return false;
	return !(c == '(' || c == ')' || c == '<' || c == '>' || c == '@' || c == ',' || c == ';' || c == ':' || c == '\\' || c == '"' || c == '/' || c == '[' || c == ']' || c == '?' || c == '=' || c == '{' || c == '}');
}
inline bool sp(int c) { return c == ' ' || c == '\t'; }
// chunked framing: what follows the chunk size line
inline int after_size(uint64_t size) { return size == 0 ? P::TRAILER_LINE_START : P::CHUNK_BODY; }
// next state, or -1 to reject
int next(int st, int c, uint64_t size) {
	if (st == P::CHUNK_BODY_CR) return sp(c) ? P::CHUNK_BODY_CR : c == '\r' ? P::CHUNK_BODY_LF : c == '\n' ? P::CHUNK_SIZE_START : -1;
	if (st == P::CHUNK_BODY_LF) return c == '\n' ? P::CHUNK_SIZE_START : -1;
	if (st == P::CHUNK_SIZE_START) return sp(c) ? P::CHUNK_SIZE_START : hexv(c) >= 0 ? P::CHUNK_SIZE : -1;
	if (st == P::CHUNK_SIZE) {
		if (sp(c) || c == ';') return P::CHUNK_SIZE_EXTENSION;
		if (c == '\r') return P::CHUNK_SIZE_LF;
		if (c == '\n') return after_size(size);
		return hexv(c) >= 0 && (size >> 60) == 0 ? P::CHUNK_SIZE : -1;  // 16 * size + digit must fit in 64 bits
	}
	if (st == P::CHUNK_SIZE_EXTENSION) return c == '\r' ? P::CHUNK_SIZE_LF : c == '\n' ? after_size(size) : P::CHUNK_SIZE_EXTENSION;
	if (st == P::CHUNK_SIZE_LF) return c == '\n' ? after_size(size) : -1;
	if (st == P::TRAILER_LINE_START) return c == '\r' ? P::FINAL_LF : c == '\n' ? P::GOOD : token(c) ? P::TRAILER : -1;
	if (st == P::TRAILER) return c == '\r' ? P::TRAILER_LF : c == '\n' ? P::TRAILER_LINE_START : P::TRAILER;
	if (st == P::TRAILER_LF) return c == '\n' ? P::TRAILER_LINE_START : -1;
	if (st == P::FINAL_LF) return c == '\n' ? P::GOOD : -1;
	return -1;
}
uint64_t size_after(int st, int c, uint64_t size) {
	if (st == P::CHUNK_SIZE_START) return hexv(c) >= 0 ? uint64_t(hexv(c)) : size;
	if (st == P::CHUNK_SIZE) return hexv(c) >= 0 ? size * 16 + uint64_t(hexv(c)) : size;
	return size;
}
bool in_trailer(int st) { return st == P::TRAILER_LINE_START || st == P::TRAILER || st == P::TRAILER_LF || st == P::FINAL_LF; }
}
struct Env {
	P p;
	size_t len, hlen, tlen, mh, mt, k; uint64_t rem; char old;
	Env() {
		vc::Raw<std::string> raw;
		vc_string(raw.ptr(), "body");
		p.body.get_buffer() = std::move(*raw);
		len = p.body.get_buffer().size();
		k = vc_range("k", 0, 4 * BIG);
		old = vcspec::char_at(&p.body.get_buffer(), k);
		rem  = p.remaining_bytes = vc::any<uint64_t>("remaining");
		hlen = p.chunk_header_total_length = vc_range("header-length", 0, BIG);
		tlen = p.trailers_total_length = vc_range("trailer-length", 0, BIG);
		mh = p.max_chunk_header_total_length = vc_range("header-max", 0, BIG);
		mt = p.max_trailers_total_length = vc_range("trailer-max", 0, BIG);
	}
	void body_kept() {
		const std::string &b = p.body.get_buffer();
		vc_check(b.size() == len, "framing.no-data");
		if (k < len) vc_check(b[k] == old, "framing.body-kept");
	}
};
static void step(int st) {
	Env e;
	P &p = e.p;
	p.state = P::State(st);
	uint8_t c = vc::any<uint8_t>("c");
	bool limit = (e.hlen > e.mh) | (e.tlen > e.mt);
	int want = spec::next(st, c, e.rem);
	const uint8_t *rv = &c;
	VC_TRY(std::runtime_error, threw, rv = p.consume(&c, &c + 1));
	vc_reach("stepped");
	vc_check(threw == (limit | (want < 0)), "rejects-exactly-malformed");
	e.body_kept();
	if (threw) return;
	vc_reach("accepted");
	vc_check(rv == &c + 1, "consumes-one");
	vc_check(p.state == want, "state");
	vc_check(p.remaining_bytes == spec::size_after(st, c, e.rem), "chunk-size");
	bool t = spec::in_trailer(st);
	vc_check((p.chunk_header_total_length == e.hlen + (t ? 0 : 1)) & (p.trailers_total_length == e.tlen + (t ? 1 : 0)), "limits.counted");
	vc_check((p.max_chunk_header_total_length == e.mh) & (p.max_trailers_total_length == e.mt), "limits.kept");
	// a chunk whose data is about to be read is not empty
	if (p.state == P::CHUNK_BODY) vc_check(p.remaining_bytes != 0, "chunk-body-not-empty");
}
VC_HARNESS(chunk_size_start) { step(P::CHUNK_SIZE_START); }
VC_HARNESS(chunk_size) { step(P::CHUNK_SIZE); }
VC_HARNESS(chunk_size_extension) { step(P::CHUNK_SIZE_EXTENSION); }
VC_HARNESS(chunk_size_lf) { step(P::CHUNK_SIZE_LF); }
VC_HARNESS(chunk_body_cr) { step(P::CHUNK_BODY_CR); }
VC_HARNESS(chunk_body_lf) { step(P::CHUNK_BODY_LF); }
VC_HARNESS(trailer_line_start) { step(P::TRAILER_LINE_START); }
VC_HARNESS(trailer) { step(P::TRAILER); }
VC_HARNESS(trailer_lf) { step(P::TRAILER_LF); }
VC_HARNESS(final_lf) { step(P::FINAL_LF); }
static void bulk(int st) {
	Env e;
	P &p = e.p;
	p.state = P::State(st);
	vc_assume((e.len <= BIG) & (e.rem != 0));
	size_t n = vc_range("n", 1, BIG);
	const uint8_t *in = vc_buf("in", n);
	const uint8_t *rv = p.consume(in, in + n);
	vc_reach("stepped");
	size_t took = n < e.rem ? n : size_t(e.rem);
	const std::string &b = p.body.get_buffer();
	vc_check(rv == in + took, "data.consumes-no-more-than-body");
	vc_check(p.remaining_bytes == e.rem - took, "data.remaining");
	vc_check(b.size() == e.len + took, "data.size");
	if (e.k < e.len) vc_check(b[e.k] == e.old, "data.earlier-kept");
	else if (e.k < e.len + took) vc_check(b[e.k] == char(in[e.k - e.len]), "data.bytes");
	bool done = took == e.rem;
	vc_check(p.state == (!done ? st : st == P::CHUNK_BODY ? P::CHUNK_BODY_CR : P::GOOD), "data.state");
	vc_check(p.chunk_header_total_length == (done & (st == P::CHUNK_BODY) ? 0 : e.hlen), "data.limit-restarts");
	vc_check(p.trailers_total_length == e.tlen, "data.trailer-limit-kept");
}
VC_HARNESS(content_length_body) { bulk(P::CONTENT_LENGTH_BODY); }
VC_HARNESS(chunk_body) { bulk(P::CHUNK_BODY); }
VC_HARNESS(initial) {
	bool has = vc::any<bool>("has-length"), chunked = vc::any<bool>("chunked");
	uint64_t v = vc::any<uint64_t>("length");
	crab::optional<uint64_t> cl;
	if (has) cl = v;
	P p(cl, chunked);
	vc_check(p.body.get_buffer().empty() & (p.body.size() == 0), "initial.empty");
	vc_check((p.chunk_header_total_length == 0) & (p.trailers_total_length == 0) & (p.max_chunk_header_total_length == 256) & (p.max_trailers_total_length == 4096), "initial.limits");
	if (chunked) vc_check(p.state == P::CHUNK_SIZE_START, "initial.chunked");
	else vc_check((p.remaining_bytes == (has ? v : 0)) & (p.state == (has & (v != 0) ? P::CONTENT_LENGTH_BODY : P::GOOD)), "initial.content-length");
	vc_check(p.is_good() == (p.state == P::GOOD), "is_good");
	P d;
	vc_check(d.is_good() & d.body.get_buffer().empty(), "initial.default-is-complete");
}
// parse feeds the steps without gap or overlap, and stops exactly when complete or out of data
static const uint8_t *g_base; static size_t g_i, g_n; static P *g_p;
namespace vcinv { bool pp_ptr(const uint8_t *p) { return (p == g_base + g_i) & (g_i <= g_n); } }
namespace vcrep {
const uint8_t *consume(P *p, const uint8_t *b, const uint8_t *e) {
	vc_check((p == g_p) & (p->state != P::GOOD), "parse.not-past-complete");
	vc_check((b == g_base + g_i) & (e == g_base + g_n) & (g_i < g_n), "parse.in-order");
	size_t took = vc_range("took", 1, BIG);
	vc_assume(took <= g_n - g_i);
	g_i += took;
	p->state = P::State(vc_range("next-state", 0, P::GOOD));
	return b + took;
}
}
VC_HARNESS(parse) {
	P p;
	g_p = &p;
	p.state = P::State(vc_range("state", 0, P::GOOD));
	g_n = vc_range("n", 0, BIG); g_base = vc_buf("in", g_n); g_i = 0;
	const uint8_t *rv = p.parse(g_base, g_base + g_n);
	vc_check(rv == g_base + g_i, "parse.returns-position");
	vc_check(p.is_good() | (g_i == g_n), "parse.runs-until-complete");
	vc_reach("parsed");
}
namespace vcrep {
// contract of parse(begin, end), proved above: some prefix is consumed
const uint8_t *parse(P *p, const uint8_t *b, const uint8_t *e) {
	vc_check((p == g_p) & (b == g_base) & (e == g_base + g_n), "parse-buffer.first-chunk");
	g_i = vc_range("took", 0, BIG);
	vc_assume(g_i <= g_n);
	return b + g_i;
}
}
VC_HARNESS(parse_buffer) {
	size_t cap = vc_range("cap", 1, BIG);
	crab::Buffer b(cap);
	size_t rp = vc_range("rp", 0, BIG), wp = vc_range("wp", 0, 2 * BIG);
	vc_assume((rp < cap) & (wp >= rp) & (wp <= rp + cap));
	b.read_pos = rp; b.write_pos = wp;
	P p;
	g_p = &p;
	p.state = P::State(vc_range("state", 0, P::GOOD));
	size_t size = b.size();
	g_n = b.read_count(); g_base = b.read_ptr(); g_i = 0;
	p.parse(b);
	vc_check(b.size() == size - g_i, "parse-buffer.takes-what-was-consumed");
}
