// C11: to_hex / from_hex
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>

static inline uint8_t hexdig(uint8_t v) { return uint8_t(v < 10 ? '0' + v : 'a' + (v - 10)); }
static inline int digval(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
namespace spec {
void step(uint64_t *st, uint8_t c) {
	if (digval(c) < 0) st[0] = 1;
}
bool bad(const uint64_t *st) { return st[0] != 0; }
}
static const uint8_t *g_data;
static const char *g_str;
static size_t g_k;
static uint64_t badness(size_t i) {
	uint64_t st[1] = {0};
	vc_fold(spec::step, st, 1, (const uint8_t *)g_str, i);
	return st[0];
}
namespace vcinv {
// one arbitrary byte g_k
bool th_idx(const std::string &s, uint64_t i) { return i <= g_k || ((uint8_t(s[2 * g_k]) == hexdig(g_data[g_k] >> 4)) & (uint8_t(s[2 * g_k + 1]) == hexdig(g_data[g_k] & 15))); }
bool th_app(const std::string &s) { return s.size() <= 2 * g_k + 1 || ((uint8_t(s[2 * g_k]) == hexdig(g_data[g_k] >> 4)) & (uint8_t(s[2 * g_k + 1]) == hexdig(g_data[g_k] & 15))); }
bool th_size(const std::string &s, uint64_t i) { return s.size() == 2 * i; }
bool fh_size(const std::vector<uint8_t> &v, uint64_t i) { return 2 * v.size() == i; }
bool fh_size2(const std::vector<uint8_t> &v, uint64_t i) { return v.size() == i; }
bool fh_val(const std::vector<uint8_t> &v) { return v.size() <= g_k || v[g_k] == uint8_t(digval(uint8_t(g_str[2 * g_k])) * 16 + digval(uint8_t(g_str[2 * g_k + 1]))); }
bool fh_good(uint64_t i) { return badness(i) == 0; }
bool fh_even(uint64_t i) { return (i & 1) == 0; }
}

VC_HARNESS(to_hex) {
	size_t n         = vc_range("n", 0, uint64_t(1) << 40);
	const uint8_t *p = vc_buf("data", n);
	size_t k         = vc::any<size_t>("k");
	g_data = p;
	g_k    = k;
	vc_assume(k < n || n == 0);
	std::string s = crab::to_hex(p, n);
	vc_check(s.size() == 2 * n, "to_hex.size");
	if (n != 0) {
		vc_reach("digits");
		vc_check(uint8_t(s[2 * k]) == hexdig(p[k] >> 4), "to_hex.high-digit");
		vc_check(uint8_t(s[2 * k + 1]) == hexdig(p[k] & 15), "to_hex.low-digit");
	}
}
VC_HARNESS(from_hex_digit) {
	char c = vc::any<char>("c");
	vc_check(crab::from_hex_digit(c) == digval(uint8_t(c)), "from_hex_digit.value");
}
VC_HARNESS(from_hex) {
	vc::Raw<std::string> raw;
	vc_string(raw.ptr(), "s");
	const std::string &s = *raw;
	size_t n = s.size();
	size_t k = vc::any<size_t>("k"), j = vc::any<size_t>("j");
	vc::Raw<std::vector<uint8_t>> out;
	vc_bytes(out.ptr(), "old");
	size_t old = out->size();
	uint8_t oldj = j < old ? (*out)[j] : 0;
	g_str = s.data();
	g_k   = k;
	vc_fold_absorb(spec::step, spec::bad, 1);
	vc_assume(2 * (k & 0xffffffffffff) + 1 < n || n == 0);
	vc_assume(k < (uint64_t(1) << 47));
	uint64_t b = badness(n);
	bool r = crab::from_hex(*out, s);
	vc_check(r == ((n % 2 == 0) & (b == 0)), "from_hex.accepts-iff-even-and-all-digits");
	if (r) {
		vc_reach("accepted");
		vc_check(out->size() == n / 2, "from_hex.size");
		if (n != 0) vc_check((*out)[k] == uint8_t(digval(uint8_t(s[2 * k])) * 16 + digval(uint8_t(s[2 * k + 1]))), "from_hex.byte-value");
	} else {
		vc_reach("rejected");
		vc_check(out->size() == old, "from_hex.size-unchanged-on-reject");
		if (j < old) vc_check((*out)[j] == oldj, "from_hex.bytes-unchanged-on-reject");
	}
}
