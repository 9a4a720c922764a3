// C12: url_encode / url_decode
// The encoded text is specified exactly: byte j of the input becomes its escape (or itself) at position pos(j), pos being defined by
// recursion over the input. Decoders are specified by the automaton `dec`, and fed with the encoder's output for one arbitrary byte
// from an arbitrary state between two bytes, they append exactly that byte.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
using namespace crab::http;
namespace spec {
inline int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline int lower_hex(int v) { return v < 10 ? '0' + v : 'a' + v - 10; }
// characters that stand for themselves: printable ASCII except RFC 3986 reserved characters and '%'
inline bool keep(uint8_t c, bool path) {
	if (c <= 0x20 || c >= 0x7f || c == '%') return false;
	if (c == '/' && path) return true;
	bool gen = c == ':' || c == '/' || c == '?' || c == '#' || c == '[' || c == ']' || c == '@';
	bool sub = c == '!' || c == '$' || c == '&' || c == '\'' || c == '(' || c == ')' || c == '*' || c == '+' || c == ',' || c == ';' || c == '=';
	return !(gen || sub);
}
void step_all(uint64_t *st, uint8_t c) { st[0] += keep(c, false) ? 1 : 3; }
void step_path(uint64_t *st, uint8_t c) { st[0] += keep(c, true) ? 1 : 3; }
// the bytes at position p of text s (n bytes) are the encoding of c
int enc_at(const char *s, size_t p, uint8_t c, bool path) {
	if (keep(c, path)) return s[p] == char(c);
	return s[p] == '%' && s[p + 1] == char(lower_hex(c >> 4)) && s[p + 2] == char(lower_hex(c & 15));
}
// decoding automaton: PEND characters of a possible escape are held back; CNT decoded so far; OUT = the K-th of them
enum { PEND, HEX1, CNT, K, OUT, NF };
inline void emit(uint64_t *st, uint8_t c) {
	if (st[CNT] == st[K]) st[OUT] = c;
	st[CNT] += 1;
}
void dec(uint64_t *st, uint8_t c) {
	if (st[PEND] == 0) {
		if (c == '%') st[PEND] = 1;
		else emit(st, c);
		return;
	}
	if (st[PEND] == 1) {
		if (hexv(c) >= 0) { st[PEND] = 2; st[HEX1] = c; return; }
		emit(st, '%');
	} else {
		if (hexv(c) >= 0) { emit(st, uint8_t(hexv(int(st[HEX1])) * 16 + hexv(c))); st[PEND] = 0; return; }
		emit(st, '%');
		emit(st, uint8_t(st[HEX1]));
	}
	st[PEND] = 0;
	if (c == '%') st[PEND] = 1;
	else emit(st, c);
}
void finish(uint64_t *st) {
	if (st[PEND] >= 1) emit(st, '%');
	if (st[PEND] == 2) emit(st, uint8_t(st[HEX1]));
	st[PEND] = 0;
}
bool sane(const uint64_t *st) { return st[PEND] <= 2 && (st[PEND] != 2 || (st[HEX1] < 256 && hexv(int(st[HEX1])) >= 0)); }
}
static const char *g_in;
static size_t g_n, g_k, g_pk;
static bool g_path;
static uint8_t g_c;
static size_t pos(size_t i) {
	uint64_t st[1] = {0};
	vc_fold(g_path ? spec::step_path : spec::step_all, st, 1, (const uint8_t *)g_in, i);
	return st[0];
}
static void at(size_t i, uint64_t *st) {
	for (int j = 0; j < spec::NF; ++j) st[j] = 0;
	st[spec::K] = g_k;
	vc_fold(spec::dec, st, spec::NF, (const uint8_t *)g_in, i);
}
namespace vcinv {
bool en_size(const std::string &r, const char *p) { return r.size() == pos(size_t(p - g_in)); }
bool en_sizei(const std::string &r, uint64_t i) { return r.size() == pos(i); }
bool en_byte(const std::string &r, const char *p) { return size_t(p - g_in) <= g_k || ((r.size() >= g_pk + (spec::keep(g_c, g_path) ? 1 : 3)) && spec::enc_at(r.data(), g_pk, g_c, g_path)); }
bool en_bytei(const std::string &r, uint64_t i) { return i <= g_k || ((r.size() >= g_pk + (spec::keep(g_c, g_path) ? 1 : 3)) && spec::enc_at(r.data(), g_pk, g_c, g_path)); }
bool en_bound(const std::string &r, const char *p) { return r.size() <= 3 * size_t(p - g_in); }
bool en_boundi(const std::string &r, uint64_t i) { return r.size() <= 3 * i; }
// url_decode: what the automaton holds back has been appended literally, because no escape follows
bool de_sane(uint64_t i) { uint64_t st[spec::NF]; at(i, st); return spec::sane(st) & (st[spec::K] == g_k); }
bool de_size(const std::string &r, uint64_t i) { uint64_t st[spec::NF]; at(i, st); return r.size() == st[spec::CNT] + st[spec::PEND]; }
bool de_byte(const std::string &r, uint64_t i) {
	uint64_t st[spec::NF];
	at(i, st);
	spec::finish(st);
	return g_k >= r.size() || uint8_t(r.data()[g_k]) == uint8_t(st[spec::OUT]);
}
bool de_ahead(uint64_t i) {
	uint64_t st[spec::NF];
	at(i, st);
	if (st[spec::PEND] == 0) return true;
	if (i >= g_n) return true;
	bool h0 = spec::hexv(g_in[i]) >= 0;
	if (st[spec::PEND] == 2) return !h0;
	return i + 1 >= g_n || !(h0 && spec::hexv(g_in[i + 1]) >= 0);
}
bool de_idx(uint64_t i) { return i <= g_n; }
bool de_bound(const std::string &r, uint64_t i) { return r.size() <= i; }
}
template<bool PATH> static void encode() {
	vc::Raw<std::string> raw;
	vc_string(raw.ptr(), "s");
	const std::string &s = *raw;
	size_t n = s.size(), k = vc::any<size_t>("k");
	vc_assume((k < n) | (n == 0));
	g_in = s.data(); g_n = n; g_k = k; g_path = PATH;
	g_c  = n != 0 ? uint8_t(s[k]) : 0;
	g_pk = n != 0 ? pos(k) : 0;
	std::string r = url_encode(s, PATH);
	vc_check(r.size() == pos(n), "url_encode.size");
	if (n != 0) {
		vc_reach("encoded");
		vc_check(g_pk + (spec::keep(g_c, PATH) ? 1 : 3) <= r.size(), "url_encode.position");
		vc_check(spec::enc_at(r.data(), g_pk, g_c, PATH) != 0, "url_encode.byte");
	}
}
VC_HARNESS(encode) { encode<false>(); }
VC_HARNESS(encode_path) { encode<true>(); }
VC_HARNESS(default_is_not_path) {
	std::string s(1, '/');
	vc_check(url_encode(s).size() == 3, "url_encode.slash-escaped-by-default");
}
VC_HARNESS(reserved) {
	int c = int(vc::any<char>("c"));
	vc_check(is_uri_reserved(c) == !spec::keep(uint8_t(c), false), "is_uri_reserved");
}
VC_HARNESS(decode) {
	vc::Raw<std::string> raw;
	vc_string(raw.ptr(), "s");
	const std::string &s = *raw;
	g_in = s.data(); g_n = s.size(); g_k = vc_range("k", 0, uint64_t(1) << 41);
	vc_fold_inv(spec::dec, spec::sane, spec::NF);
	std::string r = url_decode(s);
	vc_reach("decoded");
	uint64_t st[spec::NF];
	at(g_n, st);
	spec::finish(st);
	vc_check(r.size() == st[spec::CNT], "url_decode.size");
	if (g_k < r.size()) vc_check(uint8_t(r[g_k]) == uint8_t(st[spec::OUT]), "url_decode.byte");
}
// one encoded byte fed to the decoders between two bytes gives back that byte
static void encoded_byte(uint8_t c, bool path, char *out, size_t &m) {
	std::string s(1, char(c));
	std::string e = url_encode(s, path);
	m = e.size();
	vc_check((m == 1) | (m == 3), "roundtrip.size");
	for (size_t i = 0; i < 3; ++i) out[i] = i < m ? e[i] : char(0);
}
VC_HARNESS(roundtrip_decode) {
	uint8_t c = vc::any<uint8_t>("c");
	char e[3]; size_t m;
	encoded_byte(c, vc::any<bool>("path"), e, m);
	uint64_t st[spec::NF] = {0, vc::any<uint64_t>("hex1"), vc_range("cnt", 0, uint64_t(1) << 41), 0, vc::any<uint64_t>("out")};
	st[spec::K] = st[spec::CNT];
	size_t before = st[spec::CNT];
	spec::dec(st, uint8_t(e[0]));
	if (m == 3) { spec::dec(st, uint8_t(e[1])); spec::dec(st, uint8_t(e[2])); }
	vc_check((st[spec::PEND] == 0) & (st[spec::CNT] == before + 1) & (st[spec::OUT] == c), "roundtrip.url_decode");
}
static std::string any_str(const char *nm) {
	vc::Raw<std::string> r;
	vc_string(r.ptr(), nm);
	return std::move(*r);
}
template<bool KEY> static void query() {
	QueryParser p;
	p.state = KEY ? QueryParser::KEY : QueryParser::VALUE;
	p.key_ = any_str("key"); p.value_ = any_str("value");
	vc::Track k(p.key_, "kk"), v(p.value_, "kv");
	uint8_t c = vc::any<uint8_t>("c");
	char e[3]; size_t m;
	encoded_byte(c, false, e, m);
	if (m == 1) p.parse(e, e + 1);
	else p.parse(e, e + 3);
	vc_check(p.state == (KEY ? QueryParser::KEY : QueryParser::VALUE), "roundtrip.query-state");
	k.check(p.key_, "roundtrip.query-key", KEY ? 1 : 0, c);
	v.check(p.value_, "roundtrip.query-value", KEY ? 0 : 1, c);
	vc_check(vc_map_size(&p.parsed) == 0, "roundtrip.query-no-pair");
}
VC_HARNESS(roundtrip_query_key) { query<true>(); }
VC_HARNESS(roundtrip_query_value) { query<false>(); }
VC_HARNESS(roundtrip_uri_path) {
	URIParser p;
	p.state = URIParser::PATH;
	p.cur_path_ = any_str("segment");
	vc::Track t(p.cur_path_, "k");
	uint8_t c = vc::any<uint8_t>("c");
	vc_assume(c != '/');
	char e[3]; size_t m;
	encoded_byte(c, true, e, m);
	if (m == 1) p.parse(e, e + 1);
	else p.parse(e, e + 3);
	vc_check(p.state == URIParser::PATH, "roundtrip.uri-state");
	t.check(p.cur_path_, "roundtrip.uri-segment", 1, c);
	vc_check(p.path_components_.empty(), "roundtrip.uri-no-segment");
}
template<bool KEY> static void cookie() {
	CookieParser p;
	p.state = KEY ? CookieParser::KEY : CookieParser::VALUE;
	p.key_ = any_str("key"); p.value_ = any_str("value");
	vc::Track k(p.key_, "kk"), v(p.value_, "kv");
	uint8_t c = vc::any<uint8_t>("c");
	char e[3]; size_t m;
	encoded_byte(c, false, e, m);
	if (m == 1) { p.parse(e, e + 1); k.check(p.key_, "roundtrip.cookie-key", KEY ? 1 : 0, e[0]); v.check(p.value_, "roundtrip.cookie-value", KEY ? 0 : 1, e[0]); }
	else { p.parse(e, e + 3); k.check(p.key_, "roundtrip.cookie-key", KEY ? 3 : 0, e[0], e[1], e[2]); v.check(p.value_, "roundtrip.cookie-value", KEY ? 0 : 3, e[0], e[1], e[2]); }
	vc_check(p.state == (KEY ? CookieParser::KEY : CookieParser::VALUE), "roundtrip.cookie-state");
	vc_check(vc_map_size(&p.parsed) == 0, "roundtrip.cookie-no-pair");
}
VC_HARNESS(cookie_safe_key) { cookie<true>(); }
VC_HARNESS(cookie_safe_value) { cookie<false>(); }
