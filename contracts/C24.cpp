// C24: query strings parse to exactly their key/value pairs
// Simulation: from any state of the parser, one character does to the pair being built exactly what the grammar says.
//   text  = piece *( "&" piece );  piece = key [ "=" value ];  first "=" separates
//   "+" is a space, "%" HEX HEX the byte; anything else, incomplete escapes included, stands for itself
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
using namespace crab::http;
typedef QueryParser P;
namespace spec {
int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
}
// pending: number of characters of an escape seen ("%" or "%h")
struct St { bool in_value; int pending; char h; };
static St get(const P &p) {
	St s;
	s.in_value = (p.state == P::VALUE) | (p.state == P::VALUE_PERCENT1) | (p.state == P::VALUE_PERCENT2);
	s.pending  = ((p.state == P::KEY_PERCENT1) | (p.state == P::VALUE_PERCENT1)) ? 1 : ((p.state == P::KEY_PERCENT2) | (p.state == P::VALUE_PERCENT2)) ? 2 : 0;
	s.h        = p.percent1_hex_sym;
	return s;
}
static void setup(P &p, vc::Raw<std::string> &k, vc::Raw<std::string> &v) {
	int s = int(vc_range("state", 0, 5));
	p.state = s == 0 ? P::KEY : s == 1 ? P::KEY_PERCENT1 : s == 2 ? P::KEY_PERCENT2 : s == 3 ? P::VALUE : s == 4 ? P::VALUE_PERCENT1 : P::VALUE_PERCENT2;
	p.percent1_hex_sym = vc::any<char>("sym");
	vc_assume(spec::hexv(p.percent1_hex_sym) >= 0);  // set when the first digit was seen (state-invariant, checked below)
	vc_string(k.ptr(), "key"); vc_string(v.ptr(), "value");
	p.key_   = std::move(*k);
	p.value_ = std::move(*v);
	if (!get(p).in_value) vc_assume(p.value_.empty());  // checked below
}
static void check_state(const P &p, bool in_value, int pending, char h) {
	St s = get(p);
	vc_check((s.in_value == in_value) & (s.pending == pending), "state");
	if (pending == 2) vc_check(s.h == h, "state.first-digit");
	if (!in_value) vc_check(p.value_.empty(), "state.no-value-yet");
}
static void none(const P &p) { vc_check(vc_map_size(&p.parsed) == 0, "no-pair-yet"); }
// the text `add` (m characters) was appended to the part being read
static void appended(const P &p, const St &s, const vc::Track &k, const vc::Track &v, int m, int c0, int c1, int c2) {
	none(p);
	if (s.in_value) { k.check(p.key_, "key-kept"); v.check(p.value_, "value-extended", size_t(m), c0, c1, c2); }
	else { k.check(p.key_, "key-extended", size_t(m), c0, c1, c2); v.check(p.value_, "value-kept"); }
}
static void persisted(const P &p, const St &s, const vc::Track &k, const vc::Track &v) {
	vc_check(vc_map_size(&p.parsed) == 1, "pair-stored");
	if (vc_map_size(&p.parsed) != 1) return;
	size_t m = size_t(s.pending);
	k.check(*vc_map_key(&p.parsed), "pair-key", s.in_value ? 0 : m, '%', s.h);
	v.check(*vc_map_val(&p.parsed), "pair-value", s.in_value ? m : 0, '%', s.h);
	vc_check(p.key_.empty() & p.value_.empty(), "next-pair-starts-empty");
}
VC_HARNESS(initial) {
	P p;
	check_state(p, false, 0, 0);
	vc_check(p.key_.empty(), "initial.empty");
	none(p);
}
VC_HARNESS(step) {
	P p;
	vc::Raw<std::string> ks, vs;
	setup(p, ks, vs);
	St s = get(p);
	vc::Track k(p.key_, "kk"), v(p.value_, "kv");
	char c = vc::any<char>("c");
	p.parse(&c, &c + 1);
	vc_reach("consumed");
	if (c == '&') {
		check_state(p, false, 0, 0);
		if (!s.in_value && s.pending == 0 && k.n == 0) { none(p); vc_check(p.key_.empty(), "empty-piece-ignored"); }  // "a&&b"
		else persisted(p, s, k, v);
		return;
	}
	if (c == '=' && !s.in_value) {
		check_state(p, true, 0, 0);
		none(p);
		k.check(p.key_, "key-complete", size_t(s.pending), '%', s.h);
		v.check(p.value_, "value-starts");
		return;
	}
	if (s.pending == 0) {
		if (c == '%') { check_state(p, s.in_value, 1, 0); appended(p, s, k, v, 0, 0, 0, 0); return; }
		check_state(p, s.in_value, 0, 0);
		appended(p, s, k, v, 1, c == '+' ? ' ' : c, 0, 0);
		return;
	}
	if (s.pending == 1) {
		if (spec::hexv(c) >= 0) { check_state(p, s.in_value, 2, c); appended(p, s, k, v, 0, 0, 0, 0); return; }
		check_state(p, s.in_value, 0, 0);
		appended(p, s, k, v, 2, '%', c, 0);  // not an escape: stands for itself
		return;
	}
	check_state(p, s.in_value, 0, 0);
	if (spec::hexv(c) >= 0) appended(p, s, k, v, 1, spec::hexv(s.h) * 16 + spec::hexv(c), 0, 0);
	else appended(p, s, k, v, 3, '%', s.h, c);
}
VC_HARNESS(end) {
	P p;
	vc::Raw<std::string> ks, vs;
	setup(p, ks, vs);
	St s = get(p);
	vc::Track k(p.key_, "kk"), v(p.value_, "kv");
	p.parse_end();
	vc_reach("ended");
	check_state(p, false, 0, 0);
	if (!s.in_value && s.pending == 0 && k.n == 0) none(p);
	else persisted(p, s, k, v);
}

// a whole text is consumed character by character, each once and in order, and then ended
static const char *g_base;
static size_t g_i, g_n;
static bool g_ended;
namespace vcinv {
bool pp_ptr(const char *p) { return (p == g_base + g_i) & (g_i <= g_n) & !g_ended; }
}
namespace vcrep {
P::State consume(P *, char c) {
	vc_check(!g_ended & (g_i < g_n), "parse.not-past-end");
	vc_check(c == g_base[g_i], "parse.characters-in-order");
	g_i += 1;
	return P::VALUE;
}
P::State consume_end(P *) {
	vc_check((g_i == g_n) & !g_ended, "parse.ends-after-last");
	g_ended = true;
	return P::KEY;
}
}
VC_HARNESS(parse) {
	P p;
	vc::Raw<std::string> s;
	vc_string(s.ptr(), "text");
	g_n = s->size(); g_base = s->data(); g_i = 0; g_ended = false;
	p.parse(*s);
	vc_check(g_ended, "parse.ended");
	vc_reach("parsed");
}
