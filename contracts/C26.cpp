// C26: URIs are split exactly; paths are percent-decoded, and no '.' or '..' segment survives
// Simulation over one character from any parser state; the number of path segments already stored is 0, 1 or 2 (only the last one
// can be touched).
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
using namespace crab::http;
typedef URIParser P;
namespace spec {
int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
}
static const std::string *g_decoded;  // argument of url_decode
static size_t g_dn, g_dk; static char g_dc; static int g_dcalls;
namespace vcrep {
std::string url_decode(const std::string &s) {  // contract in C12
	g_dn = s.size(); g_dk = vc::any<size_t>("dk"); g_dc = 0;
	if (g_dk < g_dn) g_dc = s.data()[g_dk];
	g_dcalls += 1;
	vc::Raw<std::string> r;
	vc_string(r.ptr(), "decoded");
	return *r;
}
}
static const char *g_base;
static size_t g_i, g_n;
static bool g_ended;
namespace vcinv {
bool pp_ptr(const char *p) { return (p == g_base + g_i) & (g_i <= g_n) & !g_ended; }
}
namespace vcrep {
P::State consume(P *, char c) {
	vc_check(!g_ended & (g_i < g_n), "parse.not-past-end");
	vc_check(c == g_base[g_i], "parse.characters-in-order");
	g_i += 1;
	return P::HOST;
}
P::State consume_end(P *) {
	vc_check((g_i == g_n) & !g_ended, "parse.ends-after-last");
	g_ended = true;
	return P::GOOD;
}
}
static std::string any_str(const char *nm) {
	vc::Raw<std::string> r;
	vc_string(r.ptr(), nm);
	return std::move(*r);
}
// a stored segment / the segment being read never contains '/'; a stored one is never "." or ".."
static bool no_slash(const std::string &s, size_t k) { return k >= s.size() || s.data()[k] != '/'; }
static bool dots(const std::string &s) { return (s.size() == 1 && s.data()[0] == '.') || (s.size() == 2 && s.data()[0] == '.' && s.data()[1] == '.'); }
struct Env {
	P p;
	P::State st;
	size_t nc;
	bool assigned;
	char h;
	Env(int lo, int hi, int segments) {
		int s = lo == hi ? lo : int(vc_range("state", uint64_t(lo), uint64_t(hi)));
		st = s == 0 ? P::SCHEME : s == 1 ? P::SCHEME_SEP1 : s == 2 ? P::SCHEME_SEP2 : s == 3 ? P::HOST : s == 4 ? P::PORT : s == 5 ? P::PATH : s == 6 ? P::PATH_HEX1 : s == 7 ? P::PATH_HEX2 : P::QUERY;
		p.state = st;
		h = vc::any<char>("sym");
		vc_assume(spec::hexv(h) >= 0);  // checked below
		p.percent1_hex_sym = h;
		assigned = vc::any<bool>("assigned");
		p.user_info_assigned = assigned;
		p.uri.scheme = any_str("scheme"); p.uri.user_info = any_str("user"); p.uri.host = any_str("host"); p.uri.port = any_str("port"); p.uri.query = any_str("query");
		p.cur_path_ = any_str("segment");
		nc = size_t(segments);
		if (segments > 0) p.path_components_.push_back(any_str("seg0"));
		if (segments > 1) p.path_components_.push_back(any_str("seg1"));
	}
};
struct T6 {
	vc::Track scheme, user, host, port, query, seg;
	T6(const P &p) : scheme(p.uri.scheme, "k0"), user(p.uri.user_info, "k1"), host(p.uri.host, "k2"), port(p.uri.port, "k3"), query(p.uri.query, "k4"), seg(p.cur_path_, "k5") {}
	void check_authority(const P &p) const {
		scheme.check(p.uri.scheme, "scheme-kept"); user.check(p.uri.user_info, "user-info-kept"); host.check(p.uri.host, "host-kept"); port.check(p.uri.port, "port-kept");
	}
};
static void check_state(const P &p, P::State s) { vc_check(p.state == s, "state"); }
static void step_authority(int lo, int hi) {
	Env e(lo, hi, 0);
	P &p = e.p;
	T6 t(p);
	g_dcalls = 0;
	char c = vc::any<char>("c");
	VC_TRY(std::runtime_error, threw, p.parse(&c, &c + 1));
	vc_reach("consumed");
	P::State st = e.st;
	bool bad = (st == P::SCHEME_SEP1 || st == P::SCHEME_SEP2) ? c != '/' : st == P::SCHEME ? false : c == '@' && e.assigned;
	vc_check(threw == bad, "rejects-exactly-malformed");
	if (threw) return;
	t.query.check(p.uri.query, "query-kept"); t.seg.check(p.cur_path_, "segment-kept");
	vc_check(p.path_components_.size() == e.nc, "segments-kept");
	if (st == P::SCHEME || st == P::SCHEME_SEP1 || st == P::SCHEME_SEP2) {
		check_state(p, st == P::SCHEME ? (c == ':' ? P::SCHEME_SEP1 : P::SCHEME) : st == P::SCHEME_SEP1 ? P::SCHEME_SEP2 : P::HOST);
		t.scheme.check(p.uri.scheme, "scheme-extended", st == P::SCHEME && c != ':' ? 1 : 0, c);
		t.host.check(p.uri.host, "host-kept"); t.port.check(p.uri.port, "port-kept"); t.user.check(p.uri.user_info, "user-info-kept");
		return;
	}
	t.scheme.check(p.uri.scheme, "scheme-kept");
	if (c == '@') {
		check_state(p, P::HOST);
		vc_check(p.user_info_assigned & p.uri.host.empty(), "user-info.host-starts");
		vc_check(g_dcalls == 1, "user-info.decoded");
		if (st == P::PORT) vc_check(p.uri.port.empty(), "user-info.port-starts-empty"); else t.port.check(p.uri.port, "port-kept");
		if (st == P::HOST) vc_check((g_dn == t.host.n) & (g_dk != t.host.k || g_dn == 0 || g_dc == t.host.c), "user-info.is-text-before-at");
		else vc_check((g_dn == t.host.n + 1 + t.port.n) & (g_dk != t.host.k || t.host.n == 0 || g_dc == t.host.c) & (g_dk != t.host.n || g_dc == ':') &
			(g_dk != t.host.n + 1 + t.port.k || t.port.n == 0 || g_dc == t.port.c), "user-info.is-text-before-at");
		return;
	}
	t.user.check(p.uri.user_info, "user-info-kept");
	vc_check(p.user_info_assigned == e.assigned, "user-info-flag-kept");
	if (c == '/') { check_state(p, P::PATH); t.host.check(p.uri.host, "host-kept"); t.port.check(p.uri.port, "port-kept"); return; }
	if (st == P::HOST) {
		check_state(p, c == ':' ? P::PORT : P::HOST);
		t.host.check(p.uri.host, "host-extended", c == ':' ? 0 : 1, c); t.port.check(p.uri.port, "port-kept");
		return;
	}
	check_state(p, P::PORT);
	t.host.check(p.uri.host, "host-kept"); t.port.check(p.uri.port, "port-extended", 1, c);
}
VC_HARNESS(step_scheme) { step_authority(0, 2); }
VC_HARNESS(step_host) { step_authority(3, 4); }
// what is left of the path after a segment `cur` (cn characters, tracked) ends
static void check_resolved(const P &p, const Env &e, bool up, bool same, const vc::Track *s0, const vc::Track *s1, const vc::Track &cur, size_t m, int c0, int c1) {
	size_t want = up ? (e.nc == 0 ? 0 : e.nc - 1) : same ? e.nc : e.nc + 1;
	vc_check(p.path_components_.size() == want, "path.segments");
	if (p.path_components_.size() != want) return;
	if (want > 0 && e.nc > 0) s0->check(p.path_components_[0], "path.earlier-segments-kept");
	if (want > 1 && e.nc > 1) s1->check(p.path_components_[1], "path.earlier-segments-kept");
	if (want == e.nc + 1) {
		cur.check(p.path_components_[e.nc], "path.segment-stored", m, c0, c1);
		vc_check(!dots(p.path_components_[e.nc]), "path.no-dot-segments");
	}
	vc_check(p.cur_path_.empty(), "path.next-segment-starts");
}
static void step_path(int s, int nc) {
	Env e(s, s, nc);
	P &p = e.p;
	T6 t(p);
	vc::Track *s0 = nc > 0 ? new vc::Track(p.path_components_[0], "ks0") : nullptr;
	vc::Track *s1 = nc > 1 ? new vc::Track(p.path_components_[1], "ks1") : nullptr;
	size_t k = vc::any<size_t>("kslash");
	vc_assume(no_slash(p.cur_path_, k));  // checked below
	size_t n = p.cur_path_.size();
	bool d1 = n == 1 && p.cur_path_[0] == '.', d2 = n == 2 && p.cur_path_[0] == '.' && p.cur_path_[1] == '.';
	char c = vc::any<char>("c");
	p.parse(&c, &c + 1);
	vc_reach("consumed");
	t.check_authority(p);
	t.query.check(p.uri.query, "query-kept");
	vc_check(no_slash(p.cur_path_, k), "path.segment-has-no-slash");
	int pending = e.st == P::PATH ? 0 : e.st == P::PATH_HEX1 ? 1 : 2;
	bool hex = spec::hexv(c) >= 0;
	char out = pending == 2 && hex ? char(spec::hexv(e.h) * 16 + spec::hexv(c)) : c;  // the character to append or act on
	size_t m = pending == 2 && hex ? 0 : size_t(pending);                             // an incomplete escape stands for itself
	if (c == '?') {
		check_state(p, P::QUERY);
		t.seg.check(p.cur_path_, "path.segment-complete", m, '%', e.h);
		vc_check(p.path_components_.size() == e.nc, "path.segments");
		return;
	}
	if (pending == 0 && c == '%') { check_state(p, P::PATH_HEX1); t.seg.check(p.cur_path_, "path.segment-kept"); vc_check(p.path_components_.size() == e.nc, "path.segments"); return; }
	if (pending == 1 && hex) { check_state(p, P::PATH_HEX2); vc_check(p.percent1_hex_sym == c, "path.first-digit"); t.seg.check(p.cur_path_, "path.segment-kept"); vc_check(p.path_components_.size() == e.nc, "path.segments"); return; }
	check_state(p, P::PATH);
	if (out == '/') {
		check_resolved(p, e, m == 0 && d2, m == 0 && d1, s0, s1, t.seg, m, '%', e.h);
		return;
	}
	vc_check(p.path_components_.size() == e.nc, "path.segments");
	if (m == 0) t.seg.check(p.cur_path_, "path.segment-extended", 1, out);
	else if (m == 1) t.seg.check(p.cur_path_, "path.segment-extended", 2, '%', out);
	else t.seg.check(p.cur_path_, "path.segment-extended", 3, '%', e.h, out);
}
VC_HARNESS(step_path_0) { step_path(5, 0); }
VC_HARNESS(step_path_1) { step_path(5, 1); }
VC_HARNESS(step_path_2) { step_path(5, 2); }
VC_HARNESS(step_hex1_0) { step_path(6, 0); }
VC_HARNESS(step_hex1_2) { step_path(6, 2); }
VC_HARNESS(step_hex2_0) { step_path(7, 0); }
VC_HARNESS(step_hex2_2) { step_path(7, 2); }
VC_HARNESS(step_query) {
	Env e(8, 8, 1);
	P &p = e.p;
	T6 t(p);
	char c = vc::any<char>("c");
	p.parse(&c, &c + 1);
	t.check_authority(p);
	check_state(p, P::QUERY);
	t.query.check(p.uri.query, "query-extended", 1, c);
	t.seg.check(p.cur_path_, "path.segment-kept");
	vc_check(p.path_components_.size() == e.nc, "path.segments");
}
VC_HARNESS(initial) {
	P p;
	check_state(p, P::SCHEME);
	vc_check(p.uri.scheme.empty() & p.uri.host.empty() & p.uri.port.empty() & p.uri.path.empty() & p.uri.query.empty() & p.uri.user_info.empty(), "initial.empty");
	vc_check(p.cur_path_.empty() & p.path_components_.empty() & !p.user_info_assigned, "initial.no-path");
}
// the end of the text: the path is "/" segment for each segment, and nothing short of a host is accepted
static void end(int nc) {
	Env e(0, 8, nc);
	P &p = e.p;
	T6 t(p);
	vc::Track *s0 = nc > 0 ? new vc::Track(p.path_components_[0], "ks0") : nullptr;
	vc::Track *s1 = nc > 1 ? new vc::Track(p.path_components_[1], "ks1") : nullptr;
	size_t n = p.cur_path_.size();
	bool d1 = n == 1 && p.cur_path_[0] == '.', d2 = n == 2 && p.cur_path_[0] == '.' && p.cur_path_[1] == '.';
	VC_TRY(std::runtime_error, threw, p.parse_end());
	vc_reach("ended");
	P::State st = e.st;
	vc_check(threw == (st == P::SCHEME || st == P::SCHEME_SEP1 || st == P::SCHEME_SEP2), "accepts-exactly-with-host");
	if (threw) return;
	check_state(p, P::GOOD);
	t.check_authority(p);
	t.query.check(p.uri.query, "query-kept");
	const std::string &path = p.uri.path;
	size_t pend = st == P::PATH_HEX1 ? 1 : st == P::PATH_HEX2 ? 2 : 0;
	size_t keep = pend == 0 && d2 ? (nc == 0 ? 0 : size_t(nc) - 1) : size_t(nc);
	bool drop = pend == 0 && (d1 || d2);
	size_t l0 = keep > 0 ? 1 + s0->n : 0, l1 = keep > 1 ? 1 + s1->n : 0, l2 = 1 + (drop ? 0 : t.seg.n + pend);
	vc_check(path.size() == l0 + l1 + l2, "path.length");
	if (path.size() != l0 + l1 + l2) return;
	vc_check(path[0] == '/', "path.starts-with-slash");
	if (keep > 0 && s0->n != 0) vc_check(path[1 + s0->k] == s0->c, "path.first-segment");
	if (keep > 1) vc_check((path[l0] == '/') & (s1->n == 0 || path[l0 + 1 + s1->k] == s1->c), "path.second-segment");
	vc_check(path[l0 + l1] == '/', "path.last-slash");
	if (!drop) {
		if (t.seg.n != 0) vc_check(path[l0 + l1 + 1 + t.seg.k] == t.seg.c, "path.last-segment");
		if (pend > 0) vc_check(path[l0 + l1 + 1 + t.seg.n] == '%', "path.incomplete-escape-kept");
		if (pend > 1) vc_check(path[l0 + l1 + 2 + t.seg.n] == e.h, "path.incomplete-escape-kept");
	}
}
VC_HARNESS(end_0) { end(0); }
VC_HARNESS(end_1) { end(1); }
VC_HARNESS(end_2) { end(2); }
VC_HARNESS(parse) {
	P p;
	vc::Raw<std::string> s;
	vc_string(s.ptr(), "text");
	g_n = s->size(); g_base = s->data(); g_i = 0; g_ended = false;
	p.parse(*s);
	vc_check(g_ended, "parse.ended");
	vc_reach("parsed");
}
