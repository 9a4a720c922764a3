// C31: Random is the PCG32 sequence of its seed
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>

namespace spec {
// the generator: state' = state * M + inc, output XSH-RR of the old state
static const uint64_t M = 6364136223846793005ull;
inline uint32_t out(uint64_t s) {
	uint32_t x = uint32_t(((s >> 18) ^ s) >> 27), r = uint32_t(s >> 59);
	return (x >> r) | (x << ((32 - r) & 31));
}
// the byte sequence: state = {generator state, increment, byte within the word, current word}, one step per byte
void step(uint64_t *st, uint8_t) {
	if (st[2] == 0) {
		st[3] = out(st[0]);
		st[0] = st[0] * M + st[1];
	}
	st[2] = (st[2] + 1) & 3;
}
bool phase_ok(const uint64_t *st) { return st[2] < 4; }
}  // namespace spec
static uint64_t g_state, g_inc;
static const uint8_t *g_dummy, *g_buf;
static size_t g_k, g_n, g_j;
static uint8_t g_lo, g_hi;
static crab::Random *g_r;
struct St { uint64_t st[4]; };
static void at(size_t m, uint64_t *st) {
	st[0] = g_state; st[1] = g_inc; st[2] = 0; st[3] = 0;
	vc_fold(spec::step, st, 4, g_dummy, m);
}
static inline uint8_t byte_at(size_t j) {
	uint64_t st[4];
	at(j + 1, st);
	return uint8_t(uint32_t(st[3]) >> (8 * (j & 3)));
}
// generator state once the word that byte i starts (if any) has been drawn
static bool drawn(uint64_t state, uint64_t i) {
	uint64_t st[4];
	at(i, st);
	return state == ((i & 3) == 0 ? st[0] * spec::M + st[1] : st[0]);
}
namespace vcinv {
bool st_at(uint64_t i) { uint64_t st[4]; at(i, st); return g_r->state == st[0]; }
bool st_atp(const uint8_t *p) { uint64_t st[4]; at(size_t(p - g_buf), st); return g_r->state == st[0]; }
bool st_drawn(uint64_t i) { return drawn(g_r->state, i); }
bool st_drawnp(const uint8_t *p) { return drawn(g_r->state, size_t(p - g_buf)); }
bool shape(uint64_t i) { uint64_t st[4]; at(i, st); return (st[1] == g_inc) & (st[2] == (i & 3)); }
bool shape_p(const uint8_t *p) { uint64_t st[4]; at(size_t(p - g_buf), st); return (st[1] == g_inc) & (st[2] == ((p - g_buf) & 3)); }
bool guards() { return (g_buf[g_j - 8] == g_lo) & (g_buf[g_n + g_j] == g_hi); }
bool mul4(uint64_t i) { return (i & 3) == 0; }
bool mul4_p(const uint8_t *p) { return ((p - g_buf) & 3) == 0; }
bool done(uint64_t i) { return i <= g_k || g_buf[g_k] == byte_at(g_k); }
bool ldone_lv(const uint8_t *b, uint64_t i) { return i <= g_k || b[g_k] == byte_at(g_k); }
bool done_p(const uint8_t *p) { return size_t(p - g_buf) <= g_k || g_buf[g_k] == byte_at(g_k); }
bool rest(uint32_t v, uint64_t i) {
	uint64_t st[4];
	at(i, st);
	return v == ((i & 3) == 0 ? spec::out(st[0]) : uint32_t(st[3]) >> (8 * (i & 3)));
}
static bool alnum(uint8_t c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
bool letters(const std::string &s, uint64_t i) { return i <= g_k || alnum(uint8_t(s[g_k])); }
bool letters_app(const std::string &s) { return s.size() <= g_k || alnum(uint8_t(s[g_k])); }
bool str_size(const std::string &s, uint64_t i) { return s.size() == i; }
}
static void any_random(crab::Random &r) {
	g_r     = &r;
	r.state = g_state = vc::any<uint64_t>("state");
	r.inc = g_inc = vc::any<uint64_t>("inc");
}
VC_HARNESS(seed) {
	uint64_t s = vc::any<uint64_t>("seed");
	crab::Random r(s);
	uint64_t inc = (s << 1) | 1;
	uint64_t st  = 0;
	st           = st * spec::M + inc;
	st           = st * spec::M + inc;
	vc_check(r.state == st && r.inc == inc, "random.seed");
}
VC_HARNESS(next) {
	crab::Random r(0);
	any_random(r);
	uint32_t v = r();
	vc_check(v == spec::out(g_state), "random.output");
	vc_check(r.state == g_state * spec::M + g_inc && r.inc == g_inc, "random.state-advance");
}
VC_HARNESS(bytes) {
	crab::Random r(0);
	any_random(r);
	size_t n   = vc_range("n", 0, uint64_t(1) << 40);
	g_dummy    = vc_buf("dummy", n + 1);
	uint8_t *p = vc_buf("out", n + 16);
	g_buf      = p + 8;
	g_k        = vc::any<size_t>("k");
	g_n        = n;
	g_j        = vc_range("guard", 0, 7);
	vc_assume(g_k < n || n == 0);
	g_lo = p[g_j]; g_hi = p[n + 8 + g_j];
	r.bytes(p + 8, n);
	if (n != 0) {
		vc_reach("nonempty");
		vc_check(g_buf[g_k] == byte_at(g_k), "random.bytes-in-sequence");
	}
	vc_check(vcinv::guards(), "random.bytes-only-the-range");
	uint64_t st[4];
	at(n, st);
	vc_check(r.state == st[0], "random.bytes-advances");
}
VC_HARNESS(data) {
	crab::Random r(0);
	any_random(r);
	size_t n = vc_range("n", 0, uint64_t(1) << 40);
	g_dummy  = vc_buf("dummy", n + 1);
	g_k      = vc::any<size_t>("k");
	vc_assume((g_k < n) | (n == 0));
	auto v = r.data(n);
	vc_check(v.size() == n, "random.data-size");
	if (n != 0) {
		vc_reach("nonempty");
		vc_check(v[g_k] == byte_at(g_k), "random.data-in-sequence");
	}
}
VC_HARNESS(printable) {
	crab::Random r(0);
	any_random(r);
	size_t n = vc_range("n", 0, uint64_t(1) << 40);
	g_k      = vc::any<size_t>("k");
	vc_assume(g_k < n || n == 0);
	std::string s = r.printable_string(n);
	vc_check(s.size() == n, "random.printable-size");
	if (n != 0) {
		vc_reach("nonempty");
		vc_check(vcinv::alnum(uint8_t(s[g_k])), "random.printable-alnum");
	}
}
VC_HARNESS(dbl) {
	crab::Random r(0);
	any_random(r);
	double d = r.double_value();
	vc_check(d >= 0.0 && d < 1.0, "random.double-in-range");
}
