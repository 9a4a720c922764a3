// C13: is_valid_utf8 accepts exactly RFC 3629 UTF-8
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>

namespace spec {
enum { OK = 0, T1, T2, T3, E0, ED, F0, F4, BAD };  // T<n>: n continuation bytes expected
inline bool in(uint8_t c, uint8_t lo, uint8_t hi) { return (c >= lo) & (c <= hi); }
void step(uint64_t *st, uint8_t c) {
	uint64_t s = st[0], r = BAD;
	if (s == OK) {
		if (c < 0x80) r = OK;
		else if (in(c, 0xC2, 0xDF)) r = T1;
		else if (c == 0xE0) r = E0;
		else if (c == 0xED) r = ED;
		else if (in(c, 0xE1, 0xEF)) r = T2;
		else if (c == 0xF0) r = F0;
		else if (in(c, 0xF1, 0xF3)) r = T3;
		else if (c == 0xF4) r = F4;
	} else if (s == T1) {
		if (in(c, 0x80, 0xBF)) r = OK;
	} else if (s == T2) {
		if (in(c, 0x80, 0xBF)) r = T1;
	} else if (s == T3) {
		if (in(c, 0x80, 0xBF)) r = T2;
	} else if (s == E0) {
		if (in(c, 0xA0, 0xBF)) r = T1;
	} else if (s == ED) {
		if (in(c, 0x80, 0x9F)) r = T1;
	} else if (s == F0) {
		if (in(c, 0x90, 0xBF)) r = T2;
	} else if (s == F4) {
		if (in(c, 0x80, 0x8F)) r = T2;
	}
	st[0] = r;
}
bool bad(const uint64_t *st) { return st[0] == BAD; }
}  // namespace spec

static const uint8_t *g_data;
static uint64_t st_at(size_t i) {
	uint64_t st[1] = {0};
	vc_fold(spec::step, st, 1, g_data, i);
	return st[0];
}
namespace vcinv {
// relation between automaton state and grammar state: value of the automaton after a shortest word reaching each grammar state
static uint32_t after(const uint8_t *w, size_t n) {
	uint32_t st = crab::details::UTF8_ACCEPT, cp = 0;
	for (size_t i = 0; i != n; ++i) crab::details::utf8_decode(&st, &cp, w[i]);
	return st;
}
static bool related(uint32_t v, uint64_t s) {
	static const uint8_t w[9] = {0, 0xC2, 0xE1, 0xF1, 0xE0, 0xED, 0xF0, 0xF4, 0xFF};
	return ((s == 0) & (v == crab::details::UTF8_ACCEPT)) | ((s == 1) & (v == after(w + 1, 1))) | ((s == 2) & (v == after(w + 2, 1))) | ((s == 3) & (v == after(w + 3, 1))) | ((s == 4) & (v == after(w + 4, 1))) |
	       ((s == 5) & (v == after(w + 5, 1))) | ((s == 6) & (v == after(w + 6, 1))) | ((s == 7) & (v == after(w + 7, 1))) | ((s == 8) & (v == after(w + 8, 1)));
}
bool idx(uint32_t v, uint64_t i) { return related(v, st_at(i)); }
bool ptr(uint32_t v, const uint8_t *p) { return related(v, st_at(size_t(p - g_data))); }
}  // namespace vcinv

VC_HARNESS(utf8) {
	size_t n         = vc::any<size_t>("n");
	const uint8_t *p = vc_buf("text", n);
	g_data           = p;
	vc_fold_absorb(spec::step, spec::bad, 1);
	bool r = crab::is_valid_utf8(p, n);
	vc_reach("end");
	vc_check(r == (st_at(n) == spec::OK), "utf8.valid-iff-wellformed");
}
VC_HARNESS(utf8_string) {
	vc::Raw<std::string> s;
	vc_string(s.ptr(), "s");
	const std::string &str = *s;
	g_data                 = (const uint8_t *)str.data();
	vc_fold_absorb(spec::step, spec::bad, 1);
	bool r = crab::is_valid_utf8(str);
	vc_check(r == (st_at(str.size()) == spec::OK), "utf8.string-valid-iff-wellformed");
}
