// C21: ResponseParser. Every step from every parser state (arbitrary strings, limits and flags) against the grammar as an automaton with
// the strings it collects; the header field semantics (process_ready_header) is C23.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
#include <crab/http/response_parser.hxx>
#include "http_spec.hpp"
using namespace crab::http;
typedef ResponseParser P;
static const size_t BIG = size_t(1) << 40;
namespace spec {
// next state, or -1 to reject
int next(int st, int c, int major, int minor, bool list) {
	if (st == P::HTTP_VERSION_H) return c == 'H' ? P::HTTP_VERSION_HT : -1;
	if (st == P::HTTP_VERSION_HT) return c == 'T' ? P::HTTP_VERSION_HTT : -1;
	if (st == P::HTTP_VERSION_HTT) return c == 'T' ? P::HTTP_VERSION_HTTP : -1;
	if (st == P::HTTP_VERSION_HTTP) return c == 'P' ? P::HTTP_VERSION_SLASH : -1;
	if (st == P::HTTP_VERSION_SLASH) return c == '/' ? P::HTTP_VERSION_MAJOR_START : -1;
	if (st == P::HTTP_VERSION_MAJOR_START) return digit(c) && c - '0' <= 1 ? P::HTTP_VERSION_MAJOR : -1;
	if (st == P::HTTP_VERSION_MAJOR) return c == '.' ? P::HTTP_VERSION_MINOR_START : digit(c) && major * 10 + c - '0' <= 1 ? P::HTTP_VERSION_MAJOR : -1;
	if (st == P::HTTP_VERSION_MINOR_START) return digit(c) ? P::HTTP_VERSION_MINOR : -1;
	if (st == P::HTTP_VERSION_MINOR) return sp(c) ? P::STATUS_CODE_1 : digit(c) && minor * 10 + c - '0' <= 99 ? P::HTTP_VERSION_MINOR : -1;
	if (st == P::STATUS_CODE_1) return sp(c) ? P::STATUS_CODE_1 : digit(c) ? P::STATUS_CODE_2 : -1;
	if (st == P::STATUS_CODE_2) return digit(c) ? P::STATUS_CODE_3 : -1;
	if (st == P::STATUS_CODE_3) return digit(c) ? P::STATUS_CODE_SPACE : -1;
	if (st == P::STATUS_CODE_SPACE) return c == '\r' ? P::STATUS_LINE_LF : c == '\n' ? P::FIRST_HEADER_LINE_START : sp(c) ? P::STATUS_TEXT_START : -1;
	if (st == P::STATUS_TEXT_START || st == P::STATUS_TEXT) {
		if (st == P::STATUS_TEXT_START && sp(c)) return P::STATUS_TEXT_START;
		return c == '\r' ? P::STATUS_LINE_LF : c == '\n' ? P::FIRST_HEADER_LINE_START : ctl(c) ? -1 : P::STATUS_TEXT;
	}
	if (st == P::STATUS_LINE_LF) return c == '\n' ? P::FIRST_HEADER_LINE_START : -1;
	return Head<P>::next(st, c, list);
}
int text(int st, int c) { return ((st == P::STATUS_TEXT_START && !sp(c)) || st == P::STATUS_TEXT) && c != '\r' && c != '\n' ? APPEND : KEEP; }
int major(int st, int c, int m) { return st == P::HTTP_VERSION_MAJOR_START ? c - '0' : st == P::HTTP_VERSION_MAJOR && digit(c) ? m * 10 + c - '0' : m; }
int minor(int st, int c, int m) { return st == P::HTTP_VERSION_MINOR_START ? c - '0' : st == P::HTTP_VERSION_MINOR && digit(c) ? m * 10 + c - '0' : m; }
int status(int st, int c, int s) { return (st == P::STATUS_CODE_1 || st == P::STATUS_CODE_2 || st == P::STATUS_CODE_3) && digit(c) ? s * 10 + c - '0' : s; }
}
static void str(std::string &s, const char *nm) { vc::Raw<std::string> raw; vc_string(raw.ptr(), nm); s = std::move(*raw); }
struct Env {
	P p; int st; size_t len, max; int major, minor, status; bool list, ka;
	Env(int st_) : st(st_) {
		str(p.req.status_text, "text"); str(p.header.name, "name"); str(p.header.value, "value");
		p.state = P::State(st);
		len = p.total_length = vc_range("length", 0, BIG); max = p.max_total_length = vc_range("max", 0, BIG);
		major = p.req.http_version_major = int(vc_range("major", 0, 1)); minor = p.req.http_version_minor = int(vc_range("minor", 0, 99));
		int hi = st < P::STATUS_CODE_2 ? 0 : st == P::STATUS_CODE_2 ? 9 : st == P::STATUS_CODE_3 ? 99 : 999;
		status = p.req.status = int(vc_range("status", 0, hi));
		list = p.header_cms_list = vc::any<bool>("list"); ka = p.req.keep_alive = vc::any<bool>("keep-alive");
	}
};
static Env *g_e; static int g_ready; static bool g_bad, g_deferred;
static vc::Track *g_name, *g_value;
namespace vcrep {
// process_ready_header (C23): takes name and value as collected, may reject them
void ready(P *p) {
	vc_check(p == &g_e->p, "field.of-this-parser");
	g_name->check(p->header.name, "field.name-handed-over");
	g_value->check(p->header.value, "field.value-handed-over");
	vc_check(p->header_cms_list == g_e->list, "field.list-flag-handed-over");
	++g_ready;
	if (g_bad) throw std::runtime_error("rejected header");
}
}
static void step(int st) {
	Env e(st);
	P &p = e.p;
	char ch = vc::any<char>("c");
	int c = (unsigned char)ch;
	g_e = &e; g_ready = 0; g_bad = vc::any<bool>("field-rejected");
	vc::Track t(p.req.status_text, "kt"), n(p.header.name, "kn"), v(p.header.value, "kv");
	tr_k = t.k;
	g_name = &n; g_value = &v;
	bool is_list = spec::is_list_header(&p.header.name);
	int want = spec::next(st, c, e.major, e.minor, e.list);
	bool ready = spec::Head<P>::ready(st, c, e.list);
	int got = -1;
	VC_TRY(std::runtime_error, threw, got = p.consume(ch));
	vc_reach("stepped");
	vc_check(threw == ((e.len >= e.max) | (want < 0) | (ready & g_bad)), "rejects-exactly-malformed");
	if (threw) return;
	vc_reach("accepted");
	vc_check(got == want, "state");
	vc_check((p.total_length == e.len + 1) & (p.max_total_length == e.max), "limit.counted");
	vc_check(g_ready == int(ready), "field.processed-once");
	if (st == P::FIRST_HEADER_LINE_START) vc_check(vcspec::trimmed(&t, &p.req.status_text), "status-text.trimmed");
	else vc_check(vcspec::after(&t, &p.req.status_text, spec::text(st, c), c), "status-text");
	vc_check(p.req.status == spec::status(st, c, e.status), "status");
	vc_check((p.req.status >= 0) & (p.req.status <= 999), "status.range");
	vc_check(vcspec::after(&n, &p.header.name, spec::Head<P>::name(st, c), spec::lower(c)), "header-name");
	vc_check(vcspec::after(&v, &p.header.value, spec::Head<P>::value(st, c, e.list), c), "header-value");
	vc_check((p.req.http_version_major == spec::major(st, c, e.major)) & (p.req.http_version_minor == spec::minor(st, c, e.minor)), "version");
	vc_check((p.req.http_version_major >= 0) & (p.req.http_version_major <= 1) & (p.req.http_version_minor >= 0) & (p.req.http_version_minor <= 99), "version.range");
	vc_check(p.header_cms_list == (((st == P::HEADER_NAME) | (st == P::HEADER_COLON)) & (c == ':') ? is_list : e.list), "list-header");
	vc_check(p.req.keep_alive == ((st == P::HTTP_VERSION_MINOR) & (got == P::STATUS_CODE_1) ? (e.major == 1) & (e.minor >= 1) : e.ka), "keep-alive.default");
	vc_check(p.req.headers.empty() & p.req.transfer_encodings.empty() & p.req.date.empty() & p.req.server.empty() & !p.req.content_length, "other-fields-kept");
}
#define S(n, st) VC_HARNESS(n) { step(P::st); }
S(http_version_h, HTTP_VERSION_H) S(http_version_ht, HTTP_VERSION_HT) S(http_version_htt, HTTP_VERSION_HTT) S(http_version_http, HTTP_VERSION_HTTP) S(http_version_slash, HTTP_VERSION_SLASH)
S(http_version_major_start, HTTP_VERSION_MAJOR_START) S(http_version_major, HTTP_VERSION_MAJOR) S(http_version_minor_start, HTTP_VERSION_MINOR_START) S(http_version_minor, HTTP_VERSION_MINOR)
S(status_code_1, STATUS_CODE_1) S(status_code_2, STATUS_CODE_2) S(status_code_3, STATUS_CODE_3) S(status_code_space, STATUS_CODE_SPACE) S(status_text_start, STATUS_TEXT_START)
S(status_text, STATUS_TEXT) S(status_line_lf, STATUS_LINE_LF)
S(first_header_line_start, FIRST_HEADER_LINE_START) S(header_line_start, HEADER_LINE_START) S(header_name, HEADER_NAME) S(header_colon, HEADER_COLON)
S(space_before_header_value, SPACE_BEFORE_HEADER_VALUE) S(header_value, HEADER_VALUE) S(header_lf, HEADER_LF) S(final_lf, FINAL_LF)
VC_HARNESS(initial) {
	P p;
	vc_check((p.state == P::HTTP_VERSION_H) & !p.is_good() & (p.total_length == 0) & (p.max_total_length == 8192) & !p.header_cms_list, "initial.state");
	vc_check(p.req.status_text.empty() & (p.req.status == 0) & p.header.name.empty() & p.header.value.empty(), "initial.strings");
	vc_check(p.req.headers.empty() & p.req.transfer_encodings.empty() & !p.req.content_length & !p.req.transfer_encoding_chunked & p.req.date.empty() & p.req.server.empty(), "initial.fields");
	vc_check(!p.req.connection_upgrade & !p.req.upgrade_websocket & p.req.sec_websocket_accept.empty(), "initial.flags");
}
// parse feeds the steps without gap or overlap, and stops exactly when the header is complete or the data is used up
static const uint8_t *g_base; static size_t g_i, g_n; static P *g_p;
namespace vcinv { bool pp_ptr(const uint8_t *p) { return (p == g_base + g_i) & (g_i <= g_n); } }
namespace vcrep {
P::State consume(P *p, char c) {
	vc_check((p == g_p) & (p->state != P::GOOD), "parse.not-past-complete");
	vc_check(g_i < g_n && c == char(g_base[g_i]), "parse.in-order");
	++g_i;
	return P::State(vc_range("next-state", 0, P::GOOD));
}
}
VC_HARNESS(parse) {
	P p;
	g_p = &p;
	p.state = P::State(vc_range("state", 0, P::GOOD));
	g_n = vc_range("n", 0, BIG); const uint8_t *in = vc_buf("in", g_n); g_base = in; g_i = 0;
	const uint8_t *rv = p.parse(in, in + g_n);
	vc_check(rv == g_base + g_i, "parse.returns-position");
	vc_check(p.is_good() | (g_i == g_n), "parse.runs-until-complete");
	vc_reach("parsed");
}
namespace vcrep {
// contract of parse(begin, end), proved above: some prefix is consumed
const uint8_t *parse(P *p, const uint8_t *b, const uint8_t *e) {
	vc_check((p == g_p) & (b == g_base) & (e == g_base + g_n), "parse-buffer.first-chunk");
	g_i = vc_range("took", 0, BIG);
	vc_assume(g_i <= g_n);
	return b + g_i;
}
}
VC_HARNESS(parse_buffer) {
	size_t cap = vc_range("cap", 1, BIG);
	crab::Buffer b(cap);
	size_t rp = vc_range("rp", 0, BIG), wp = vc_range("wp", 0, 2 * BIG);
	vc_assume((rp < cap) & (wp >= rp) & (wp <= rp + cap));
	b.read_pos = rp; b.write_pos = wp;
	P p;
	g_p = &p;
	p.state = P::State(vc_range("state", 0, P::GOOD));
	size_t size = b.size();
	g_n = b.read_count(); g_base = b.read_ptr(); g_i = 0;
	p.parse(b);
	vc_check(b.size() == size - g_i, "parse-buffer.takes-what-was-consumed");
}
TRIM_RIGHT_CONTRACT
