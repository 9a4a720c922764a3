// C23: process_ready_header of both parsers, for every header name and value and every earlier state of the derived fields.
// Its string helpers (trim_right, tolower, parse_content_type_value, parse_authorization_basic) have contracts proved here,
// integer_cast has the contract proved in C06.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
#include <crab/http/request_parser.hxx>
#include <crab/http/response_parser.hxx>
#include "http_spec.hpp"
using namespace crab::http;
static const size_t BIG = size_t(1) << 40;
TRIM_RIGHT_CONTRACT
namespace spec {
inline char low(char c) { return char(lower((unsigned char)c)); }
// the first n bytes of s are the literal, in any case
inline bool is_ci(const std::string *s, size_t n, const char *lit, size_t m) {
	if (n != m) return false;
	for (size_t i = 0; i != m; ++i)
		if (low(s->data()[i]) != lit[i]) return false;
	return true;
}
}
static void str(std::string &s, const char *nm) { vc::Raw<std::string> raw; vc_string(raw.ptr(), nm); s = std::move(*raw); }
// ---- tolower: contract and proof
static std::string *lo_s; static const std::string *lo_o; static size_t lo_k, lo_i; static char lo_c;
namespace vcinv {
bool lo_pos(const char *p) { return p == lo_s->data() + (p - lo_s->data()) && size_t(p - lo_s->data()) <= lo_s->size() && (lo_k >= lo_s->size() || lo_s->data()[lo_k] == (size_t(p - lo_s->data()) > lo_k ? spec::low(lo_c) : lo_c)); }
}
VC_HARNESS(tolower) {
	std::string s;
	str(s, "s");
	vc::Track t(s, "k");
	lo_s = &s; lo_k = t.k; lo_c = t.c;
	crab::http::tolower(s);
	vc_check(s.size() == t.n, "tolower.size");
	if (t.k < t.n) vc_check(s[t.k] == spec::low(t.c), "tolower.each-character");
}
namespace vcspec { bool lowered(const std::string *r, const std::string *s, size_t i) { return i >= s->size() || char_at(r, i) == spec::low(char_at(s, i)); } }
namespace vcrep {
void tolower(std::string *s) {
	size_t n = s->size();
	vc::Raw<std::string> raw;
	vc_string(raw.ptr(), "lowered");
	vc_assume(raw->size() == n);
	for (size_t i = 0; i < 12; ++i)
		vc_assume(vcspec::lowered(&*raw, s, i));
	vc_assume(vcspec::lowered(&*raw, s, lo_k));
	*s = std::move(*raw);
}
}
// ---- content type
static const std::string *g_val; static size_t g_m; static int g_ct, g_auth, g_cast; static bool g_cast_bad; static uint64_t g_num;
namespace vcrep {
void content_type(const std::string *v, std::string *mime, std::string *suffix) {
	++g_ct; g_val = v;
	*mime = "<mime>"; *suffix = "<suffix>";
}
bool authorization(const std::string *v, std::string *auth) {
	++g_auth; g_val = v;
	*auth = "<auth>";
	return vc::any<bool>("basic");
}
uint64_t cast(const std::string *v) {
	++g_cast; g_val = v;
	if (g_cast_bad) throw std::out_of_range("not a number");
	return g_num;
}
}
// ---- everything derived from headers, and what it was before
struct Fields {
	vc::Track mime, suffix;
	int major, minor; bool ka, cu, uw, chunked, has; uint64_t len; size_t te, nh;
	template<class H> static void init(H &h) {
		str(h.content_type_mime, "mime"); str(h.content_type_suffix, "suffix");
		h.http_version_major = vc::any<int>("major"); h.http_version_minor = vc::any<int>("minor");
		h.keep_alive = vc::any<bool>("keep-alive"); h.connection_upgrade = vc::any<bool>("upgrade"); h.upgrade_websocket = vc::any<bool>("websocket");
		h.transfer_encoding_chunked = vc::any<bool>("chunked");
		h.content_length.valid = vc::any<bool>("has-length"); h.content_length.impl = vc::any<uint64_t>("length");
	}
	template<class H> explicit Fields(const H &h)
	    : mime(h.content_type_mime, "k-mime"), suffix(h.content_type_suffix, "k-suffix"), major(h.http_version_major), minor(h.http_version_minor), ka(h.keep_alive), cu(h.connection_upgrade),
	      uw(h.upgrade_websocket), chunked(h.transfer_encoding_chunked), has(h.content_length.valid), len(h.content_length.impl), te(h.transfer_encodings.size()), nh(h.headers.size()) {}
	template<class H> void check(const H &h, bool ka2, bool cu2, bool uw2, bool ch2, bool has2, uint64_t len2, bool ct, size_t te2, size_t nh2) const {
		vc_check((h.http_version_major == major) & (h.http_version_minor == minor), "version-kept");
		vc_check(h.keep_alive == ka2, "keep-alive");
		vc_check(h.connection_upgrade == cu2, "connection-upgrade");
		vc_check(h.upgrade_websocket == uw2, "upgrade-websocket");
		vc_check(h.transfer_encoding_chunked == ch2, "chunked");
		vc_check((h.content_length.valid == has2) & (!has2 | (h.content_length.impl == len2)), "content-length");
		if (ct) vc_check(h.content_type_mime == "<mime>" && h.content_type_suffix == "<suffix>", "content-type");
		else { mime.check(h.content_type_mime, "mime-kept"); suffix.check(h.content_type_suffix, "suffix-kept"); }
		vc_check(h.transfer_encodings.size() == te2, "transfer-encodings");
		vc_check(h.headers.size() == nh2, "headers");
	}
};
namespace vcspec {
inline bool ends_clean(const std::string *v, size_t m) { return m <= v->size() && (m == 0 || !spb(char_at(v, m - 1))); }
inline bool first_digit(const std::string *v, size_t m) { return m != 0 && spec::digit((unsigned char)char_at(v, 0)); }
inline bool low_is(const vc::Track *v, const std::string *s, size_t m) { return s->size() == m && (v->k >= m || char_at(s, v->k) == spec::low(v->c)); }
bool sv_eq(const std::string *a, const char *d, size_t n) { return spec::is_lit(a, d, n); }
}
// ---- comparison of a string with a literal
namespace vcrep {
bool sv_eq(const std::string *a, const crab::string_view *b) { return vcspec::sv_eq(a, b->d, b->s); }
}
VC_HARNESS(literal_equal) {
	static const char *const LIT[] = {"content-length", "transfer-encoding", "content-type", "connection", "upgrade", "host", "origin", "authorization", "sec-websocket-key", "sec-websocket-version", "sec-websocket-accept", "date", "server",
	    "chunked", "identity", "close", "keep-alive", "websocket"};
	std::string s;
	str(s, "s");
	size_t i = vc_range("literal", 0, 17);
	for (size_t j = 0; j < 18; ++j)
		if (i == j) {
			crab::string_view v{LIT[j]};
			vc_check((s == v) == spec::is_lit(&s, LIT[j], std::strlen(LIT[j])), "string-equals-literal");
		}
}
enum Name { CONTENT_LENGTH, TRANSFER_ENCODING, CONTENT_TYPE, CONNECTION, UPGRADE, OTHER, HOST, ORIGIN, AUTHORIZATION, WS_KEY, WS_VERSION, WS_ACCEPT, DATE, SERVER, N_NAMES };
static const char *const NAMES[] = {"content-length", "transfer-encoding", "content-type", "connection", "upgrade", "", "host", "origin", "authorization", "sec-websocket-key", "sec-websocket-version", "sec-websocket-accept", "date", "server"};
static const size_t NAME_LEN[] = {14, 17, 12, 10, 7, 0, 4, 6, 13, 17, 21, 20, 4, 6};
static bool known(bool request, int nm) { return nm <= UPGRADE || (request ? nm >= HOST && nm <= WS_VERSION : nm >= WS_ACCEPT && nm < N_NAMES); }
static std::string &field(RequestHeader &h, int nm) { return nm == HOST ? h.host : nm == ORIGIN ? h.origin : nm == WS_KEY ? h.sec_websocket_key : nm == WS_VERSION ? h.sec_websocket_version : nm == AUTHORIZATION ? h.basic_authorization : nm == 100 ? h.method : nm == 101 ? h.path : h.query_string; }
static std::string &field(ResponseHeader &h, int nm) { return nm == WS_ACCEPT ? h.sec_websocket_accept : nm == DATE ? h.date : nm == SERVER ? h.server : h.status_text; }
template<class P> void field_header(bool request, int nm, int first, int last) {
	P p;
	if (nm == OTHER) {
		str(p.header.name, "name");
		const std::string &n = p.header.name;
		bool special = false;
		for (int i = 0; i < N_NAMES; ++i)
			if (i != OTHER && known(request, i)) special = special | spec::is_lit(&n, NAMES[i], NAME_LEN[i]);
		vc_assume(!special);
	} else
		p.header.name.assign(NAMES[nm], NAME_LEN[nm]);
	bool list = p.header_cms_list = (nm == CONNECTION) | (nm == TRANSFER_ENCODING);  // proved in C20 and C21
	str(p.header.value, "value");
	Fields::init(p.req);
	if (nm == TRANSFER_ENCODING && vc::any<bool>("has-encoding")) { p.req.transfer_encodings.push_back(std::string("gzip")); }
	if (nm == OTHER && vc::any<bool>("has-header")) { p.req.headers.push_back(Header{"a", "b"}); }
	for (int i = first; i <= last; ++i) str(field(p.req, i), "field");
	const std::string value = p.header.value;
	vc::Track v(value, "kv"), name(p.header.name, "kn");
	Fields f(p.req);
	vc::Track f0(field(p.req, first), "k0"), f1(field(p.req, first + 1 <= last ? first + 1 : last), "k1"), f2(field(p.req, first + 2 <= last ? first + 2 : last), "k2"), f3(field(p.req, first + 3 <= last ? first + 3 : last), "k3"), f4(field(p.req, last), "k4");
	tr_k = lo_k = v.k; g_ct = g_auth = g_cast = 0; g_val = nullptr;
	g_cast_bad = vc::any<bool>("cast-bad"); g_num = vc::any<uint64_t>("cast-value");
	VC_TRY(std::runtime_error, threw, p.process_ready_header());
	vc_reach("processed");
	size_t m = p.header.value.size();  // of the trimmed value
	vc_check(vcspec::ends_clean(&value, m), "value-trimmed");
	bool empty = list & (m == 0);
	bool close = spec::is_ci(&value, m, "close", 5), keep = spec::is_ci(&value, m, "keep-alive", 10), upg = spec::is_ci(&value, m, "upgrade", 7);
	bool chunked = spec::is_ci(&value, m, "chunked", 7), identity = spec::is_ci(&value, m, "identity", 8), websocket = spec::is_ci(&value, m, "websocket", 9);
	bool digit = vcspec::first_digit(&value, m);
	bool bad = nm == CONTENT_LENGTH ? f.has | !digit | g_cast_bad : nm == TRANSFER_ENCODING ? !empty & !chunked & !identity & f.chunked : nm == CONNECTION ? !empty & !close & !keep & !upg : nm == UPGRADE ? !websocket : false;
	vc_check(threw == bad, "rejects-exactly-invalid");
	if (threw) return;
	vc_reach("accepted");
	bool is_te = (nm == TRANSFER_ENCODING) & !empty & !chunked & !identity;
	f.check(p.req, nm == CONNECTION ? (f.ka & !close) | keep : f.ka, f.cu | ((nm == CONNECTION) & upg), f.uw | (nm == UPGRADE), f.chunked | ((nm == TRANSFER_ENCODING) & chunked),
	    f.has | (nm == CONTENT_LENGTH), nm == CONTENT_LENGTH ? g_num : f.len, nm == CONTENT_TYPE, f.te + (is_te ? 1 : 0), f.nh + (nm == OTHER ? 1 : 0));
	vc_check((g_ct == (nm == CONTENT_TYPE)) & (g_auth == (nm == AUTHORIZATION)) & (g_cast == (nm == CONTENT_LENGTH)), "helpers-used");
	if ((nm == CONTENT_TYPE) | (nm == AUTHORIZATION) | (nm == CONTENT_LENGTH)) vc_check(vc_same(g_val, &p.header.value), "helper-gets-value");
	if (is_te) {
		const std::string &te = p.req.transfer_encodings.back();
		vc_check(vcspec::low_is(&v, &te, m), "encoding-recorded");
		if (f.te) vc_check(p.req.transfer_encodings.front() == "gzip", "earlier-encoding-kept");
	}
	if (nm == OTHER) {
		const Header &h = p.req.headers.back();
		name.check(h.name, "header.name");
		vc_check(vcspec::trimmed(&v, &h.value), "header.value");
		if (f.nh) vc_check(p.req.headers.front().name == "a" && p.req.headers.front().value == "b", "earlier-header-kept");
	}
	const vc::Track *fs[] = {&f0, &f1, &f2, &f3, &f4};
	for (int i = first; i <= last; ++i) {
		const std::string &s = field(p.req, i);
		if (i == AUTHORIZATION && nm == AUTHORIZATION) vc_check(s == "<auth>", "authorization");
		else if (i == nm) vc_check(vcspec::trimmed(&v, &s), "field.value");
		else fs[i == last ? 4 : i - first]->check(s, "field.others-kept");
	}
}
#define B(n, nm) VC_HARNESS(req_##n) { field_header<RequestParser>(true, nm, HOST, WS_VERSION); } VC_HARNESS(resp_##n) { field_header<ResponseParser>(false, nm, WS_ACCEPT, SERVER); }
#define RQ(n, nm) VC_HARNESS(req_##n) { field_header<RequestParser>(true, nm, HOST, WS_VERSION); }
#define RS(n, nm) VC_HARNESS(resp_##n) { field_header<ResponseParser>(false, nm, WS_ACCEPT, SERVER); }
B(content_length, CONTENT_LENGTH) B(transfer_encoding, TRANSFER_ENCODING) B(content_type, CONTENT_TYPE) B(connection, CONNECTION) B(upgrade, UPGRADE) B(other, OTHER)
RQ(host, HOST) RQ(origin, ORIGIN) RQ(authorization, AUTHORIZATION) RQ(ws_key, WS_KEY) RQ(ws_version, WS_VERSION) RS(ws_accept, WS_ACCEPT) RS(date, DATE) RS(server, SERVER)
VC_HARNESS(req_request_line_kept) { field_header<RequestParser>(true, CONNECTION, 100, 102); }
VC_HARNESS(resp_status_line_kept) { field_header<ResponseParser>(false, CONNECTION, 103, 103); }
// ---- content type and authorization values
static const std::string *g_value; static size_t g_k, g_k2;
namespace vcspec {
bool blanks(const std::string *v, size_t from, size_t to, size_t k) { return k < from || k >= to || spb(char_at(v, k)); }
bool delim(char c) { return c == ';' || c == ' ' || c == '\t'; }
// mime is the lower-cased text before the first of ';', blank
bool mime_ok(const vc::Track *t, const std::string *v, const std::string *mime) {
	size_t e = mime->size();
	return e <= v->size() && (e == v->size() || delim(char_at(v, e))) && (t->k >= e || (!delim(t->c) && char_at(mime, t->k) == spec::low(t->c)));
}
// suffix is the rest of v from some position on, not starting with a blank
bool rest_ok(const std::string *v, size_t from, const std::string *s, size_t j) {
	size_t n = v->size(), r = s->size();
	return r <= n && n - r >= (from < n ? from : n) && (r == 0 || !spb(char_at(s, 0))) && (j >= r || char_at(s, j) == char_at(v, n - r + j));
}
// what is skipped is blanks and at most one ';'
bool gap_ok(const std::string *v, size_t e, size_t s0, size_t k, size_t k2) {
	bool in1 = k >= e && k < s0, in2 = k2 >= e && k2 < s0;
	return (!in1 || delim(char_at(v, k))) && (!in1 || !in2 || k >= k2 || !(char_at(v, k) == ';' && char_at(v, k2) == ';'));
}
// a ';' remains only after one was skipped (decided for gaps of up to 8 characters)
bool semicolon_ok(const std::string *v, size_t e, size_t s0) {
	if (s0 >= v->size() || char_at(v, s0) != ';' || s0 - e > 8) return true;
	for (size_t i = 0; i < 8; ++i)
		if (e + i < s0 && char_at(v, e + i) == ';') return true;
	return false;
}
bool is_basic(const std::string *v) { return v->size() >= 6 && spec::is_ci(v, 5, "basic", 5) && spb(char_at(v, 5)); }
}
namespace vcinv {
bool bl_pos_init(size_t start, size_t start_init) { return start >= start_init && (start_init > g_value->size() ? start == start_init : start <= g_value->size()); }
bool bl_k_init(size_t start, size_t start_init) { return vcspec::blanks(g_value, start_init, start, g_k) && vcspec::blanks(g_value, start_init, start, g_k2); }
bool bl_first_init(size_t start, size_t start_init) { return vcspec::blanks(g_value, start_init, start, start_init); }
}
VC_HARNESS(content_type_value) {
	std::string value;
	str(value, "value");
	g_value = &value;
	vc::Track t(value, "k");
	g_k = lo_k = t.k; g_k2 = vc::any<size_t>("k2");
	size_t j = vc::any<size_t>("j");
	vc_witness(t.k);
	std::string mime, suffix;
	str(mime, "old-mime"); str(suffix, "old-suffix");
	parse_content_type_value(value, mime, suffix);
	vc_reach("parsed");
	vc_check(vcspec::mime_ok(&t, g_value, &mime), "content-type.mime");
	size_t e = mime.size(), s0 = g_value->size() - suffix.size();
	vc_check(vcspec::rest_ok(g_value, e, &suffix, j), "content-type.suffix");
	vc_check(vcspec::gap_ok(g_value, e, s0, g_k, g_k2), "content-type.skips-blanks-and-one-semicolon");
	vc_check(vcspec::semicolon_ok(g_value, e, s0), "content-type.skips-semicolon");
}
VC_HARNESS(authorization_value) {
	std::string value;
	str(value, "value");
	g_value = &value;
	g_k = vc::any<size_t>("k"); g_k2 = 0;
	size_t j = vc::any<size_t>("j");
	std::string auth;
	str(auth, "old");
	vc::Track old(auth, "k-old");
	bool is = vcspec::is_basic(g_value);
	bool rv = parse_authorization_basic(value, auth);
	vc_check(rv == is, "authorization.scheme");
	if (!rv) { old.check(auth, "authorization.untouched"); return; }
	vc_reach("basic");
	vc_check(vcspec::rest_ok(g_value, 6, &auth, j), "authorization.credentials");
	vc_check(vcspec::blanks(g_value, 6, g_value->size() - auth.size(), g_k), "authorization.skips-blanks-only");
}
VC_HARNESS(is_websocket_upgrade) {
	RequestHeader h;
	ResponseHeader r;
	Fields::init(h); Fields::init(r);
	str(h.method, "method"); str(h.sec_websocket_key, "ws-key"); str(h.sec_websocket_version, "ws-version"); str(r.sec_websocket_accept, "accept");
	r.status = vc::any<int>("status");
	bool get = vcspec::sv_eq(&h.method, "GET", 3), v13 = vcspec::sv_eq(&h.sec_websocket_version, "13", 2);
	vc_check(h.is_websocket_upgrade() == (get & v13 & (h.http_version_major == 1) & (h.http_version_minor == 1) & h.connection_upgrade & h.upgrade_websocket & (h.sec_websocket_key.size() != 0) & h.keep_alive), "request-upgrade");
	vc_check(r.is_websocket_upgrade() == ((r.status == 101) & r.connection_upgrade & r.upgrade_websocket & (r.sec_websocket_accept.size() != 0)), "response-upgrade");
}
