// C25: Cookie header values parse to exactly their name/value pairs
//   text = piece *( ";" piece );  piece = OWS [ name [ OWS "=" OWS value ] ] OWS;  first "=" separates; other characters stand for themselves
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
using namespace crab::http;
typedef CookieParser P;
namespace spec {
bool sp(int c) { return (c == ' ') | (c == '\t'); }
}
static P *g_p;
static const vc::Track *g_kt, *g_vt;
static const char *g_base;
static size_t g_i, g_n;
static bool g_ended;
// s is the tracked string without its trailing white space
static bool trimmed(const std::string &s, const vc::Track &t, char c0) {
	return (s.size() <= t.n) & (t.n == 0 || (t.k < s.size() ? s.data()[t.k] == c0 : spec::sp(c0)));
}
namespace vcinv {
bool tr_key() { return g_p->key_.size() <= g_kt->n && (g_kt->n == 0 || (g_kt->k < g_p->key_.size() ? g_p->key_.data()[g_kt->k] == g_kt->c : spec::sp(g_kt->c))); }
bool tr_val() { return g_p->value_.size() <= g_vt->n && (g_vt->n == 0 || (g_vt->k < g_p->value_.size() ? g_p->value_.data()[g_vt->k] == g_vt->c : spec::sp(g_vt->c))); }
bool pp_ptr(const char *p) { return (p == g_base + g_i) & (g_i <= g_n) & !g_ended; }
}
static void check_trimmed(const std::string &s, const vc::Track &t, const char *nm) {
	vc_check(trimmed(s, t, t.c), nm);
	vc_check(s.empty() || !spec::sp(s.data()[s.size() - 1]), nm);
}
enum Mode { BEFORE, NAME, BEFORE_VALUE, VAL };
static Mode get(const P &p) { return p.state == P::KEY_WS_BEFORE ? BEFORE : p.state == P::KEY ? NAME : p.state == P::VALUE_WS_BEFORE ? BEFORE_VALUE : VAL; }
static void setup(P &p, vc::Raw<std::string> &k, vc::Raw<std::string> &v) {
	int s = int(vc_range("state", 0, 3));
	p.state = s == 0 ? P::KEY_WS_BEFORE : s == 1 ? P::KEY : s == 2 ? P::VALUE_WS_BEFORE : P::VALUE;
	vc_string(k.ptr(), "key"); vc_string(v.ptr(), "value");
	p.key_   = std::move(*k);
	p.value_ = std::move(*v);
	if (s != 3) vc_assume(p.value_.empty());  // checked below
	if (s == 0) vc_assume(p.key_.empty());
	g_p = &p;
}
static void check_state(const P &p, Mode m) {
	vc_check((get(p) == m) & (p.state != P::GOOD), "state");
	if (m != VAL) vc_check(p.value_.empty(), "state.no-value-yet");
	if (m == BEFORE) vc_check(p.key_.empty(), "state.no-name-yet");
}
static void none(const P &p) { vc_check(vc_map_size(&p.parsed) == 0, "no-pair-yet"); }
static void persisted(const P &p, const vc::Track &k, const vc::Track &v) {
	vc_check(vc_map_size(&p.parsed) == 1, "pair-stored");
	if (vc_map_size(&p.parsed) != 1) return;
	check_trimmed(*vc_map_key(&p.parsed), k, "pair-name-trimmed");
	check_trimmed(*vc_map_val(&p.parsed), v, "pair-value-trimmed");
}
VC_HARNESS(initial) {
	P p;
	check_state(p, BEFORE);
	none(p);
}
VC_HARNESS(step) {
	P p;
	vc::Raw<std::string> ks, vs;
	setup(p, ks, vs);
	Mode m = get(p);
	vc::Track k(p.key_, "kk"), v(p.value_, "kv");
	g_kt = &k; g_vt = &v;
	char c = vc::any<char>("c");
	p.parse(&c, &c + 1);
	vc_reach("consumed");
	if (c == ';') {
		check_state(p, BEFORE);
		if (m == BEFORE) none(p);  // empty piece
		else persisted(p, k, v);
		return;
	}
	none(p);
	if (spec::sp(c) && (m == BEFORE || m == BEFORE_VALUE)) {
		check_state(p, m);
		k.check(p.key_, "name-kept");
		return;
	}
	if (c == '=' && (m == BEFORE || m == NAME)) {
		check_state(p, BEFORE_VALUE);
		k.check(p.key_, "name-complete");
		return;
	}
	if (m == BEFORE || m == NAME) {
		check_state(p, NAME);
		k.check(p.key_, "name-extended", 1, c);
		return;
	}
	check_state(p, VAL);
	k.check(p.key_, "name-kept");
	v.check(p.value_, "value-extended", 1, c);
}
VC_HARNESS(end) {
	P p;
	vc::Raw<std::string> ks, vs;
	setup(p, ks, vs);
	Mode m = get(p);
	vc::Track k(p.key_, "kk"), v(p.value_, "kv");
	g_kt = &k; g_vt = &v;
	p.parse_end();
	vc_reach("ended");
	check_state(p, BEFORE);
	if (m == BEFORE) none(p);
	else persisted(p, k, v);
}
// a whole text is consumed character by character, each once and in order, and then ended
namespace vcrep {
P::State consume(P *, char c) {
	vc_check(!g_ended & (g_i < g_n), "parse.not-past-end");
	vc_check(c == g_base[g_i], "parse.characters-in-order");
	g_i += 1;
	return P::KEY;
}
P::State consume_end(P *) {
	vc_check((g_i == g_n) & !g_ended, "parse.ends-after-last");
	g_ended = true;
	return P::KEY_WS_BEFORE;
}
}
VC_HARNESS(parse) {
	P p;
	vc::Raw<std::string> s;
	vc_string(s.ptr(), "text");
	g_n = s->size(); g_base = s->data(); g_i = 0; g_ended = false;
	p.parse(*s);
	vc_check(g_ended, "parse.ended");
	vc_reach("parsed");
}
