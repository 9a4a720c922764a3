// C06: integer_cast<T>(text) accepts exactly the documented decimal syntax within range, and returns the number.
#include "vc.hpp"
#include <crab/integer_cast.hpp>

namespace spec {
enum { LEAD = 0, SIGN = 1, ZERO = 2, DIGITS = 3, TRAIL = 4, BAD = 5 };
// state: phase, neg, magnitude (mod 2^64), overflow of 64 bits, number of digits
enum { PH, NEG, MAG, OVF, ND, NF };
inline bool space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool digit(uint8_t c) { return c >= '0' && c <= '9'; }
void step(uint64_t *st, uint8_t c) {
	uint64_t ph = st[PH];
	if (ph == LEAD || ph == SIGN) {
		if (digit(c)) {
			st[PH]  = c == '0' ? ZERO : DIGITS;
			st[MAG] = uint64_t(c - '0');
			st[ND]  = 1;
		} else if (ph == LEAD && space(c)) {
		} else if (ph == LEAD && (c == '-' || c == '+')) {
			st[PH]  = SIGN;
			st[NEG] = c == '-';
		} else
			st[PH] = BAD;
	} else if (ph == DIGITS && digit(c)) {
		uint64_t d = uint64_t(c - '0');
		if (st[MAG] > 1844674407370955161u || (st[MAG] == 1844674407370955161u && d > 5))  // 10 * MAG + d >= 2^64
			st[OVF] = 1;
		st[MAG] = st[MAG] * 10 + d;
		if (st[ND] < 100)
			st[ND] += 1;
	} else if ((ph == ZERO || ph == DIGITS || ph == TRAIL) && space(c))
		st[PH] = TRAIL;
	else
		st[PH] = BAD;
}
bool bad(const uint64_t *st) { return st[PH] == BAD; }
bool ovf(const uint64_t *st) { return st[OVF] != 0; }
template<typename T> uint64_t limit(bool neg) {
	return neg ? (std::numeric_limits<T>::is_signed ? uint64_t(std::numeric_limits<T>::max()) + 1 : 0) : uint64_t(std::numeric_limits<T>::max());
}
}  // namespace spec

static const char *g_data, *g_end;

static inline void at(uint64_t *st, const char *p) {
	for (int i = 0; i < spec::NF; ++i) st[i] = 0;
	vc_fold(spec::step, st, spec::NF, (const uint8_t *)g_data, size_t(p - g_data));
}
// nothing that is out of range can come back into range (absorbing), for the limits of T
template<typename T> bool over_pos(const uint64_t *st) { return st[spec::PH] == spec::BAD || st[spec::OVF] || (st[spec::NEG] == 0 && st[spec::PH] >= spec::ZERO && st[spec::MAG] > spec::limit<T>(false)); }
template<typename T> bool over_neg(const uint64_t *st) { return st[spec::PH] == spec::BAD || st[spec::OVF] || (st[spec::NEG] != 0 && st[spec::PH] >= spec::SIGN && !std::numeric_limits<T>::is_signed) || (st[spec::NEG] != 0 && st[spec::PH] >= spec::ZERO && st[spec::MAG] > spec::limit<T>(true)); }

// MAG < 10^ND while ND <= 18: an invariant of the grammar itself
static bool mag_bound(const uint64_t *st) {
	uint64_t n = st[spec::ND], m = st[spec::MAG];
	return (n > 18) | ((n == 0) & (m < 1)) | ((n == 1) & (m < 10)) | ((n == 2) & (m < 100)) | ((n == 3) & (m < 1000)) | ((n == 4) & (m < 10000)) | ((n == 5) & (m < 100000)) | ((n == 6) & (m < 1000000)) |
	       ((n == 7) & (m < 10000000)) | ((n == 8) & (m < 100000000)) | ((n == 9) & (m < 1000000000)) | ((n == 10) & (m < 10000000000)) | ((n == 11) & (m < 100000000000)) |
	       ((n == 12) & (m < 1000000000000)) | ((n == 13) & (m < 10000000000000)) | ((n == 14) & (m < 100000000000000)) | ((n == 15) & (m < 1000000000000000)) |
	       ((n == 16) & (m < 10000000000000000)) | ((n == 17) & (m < 100000000000000000)) | ((n == 18) & (m < 1000000000000000000));
}
namespace vcinv {
bool lead(const char *p) { uint64_t s[spec::NF]; at(s, p); return (s[spec::PH] == spec::LEAD) & (s[spec::NEG] == 0) & (s[spec::OVF] == 0) & (s[spec::MAG] == 0); }
bool tail(const char *p) { uint64_t s[spec::NF]; at(s, p); return (s[spec::PH] == spec::ZERO) | (s[spec::PH] == spec::DIGITS) | (s[spec::PH] == spec::TRAIL); }
bool trail_strict(const char *p) { uint64_t s[spec::NF]; at(s, p); return s[spec::PH] == spec::TRAIL || s[spec::PH] == spec::ZERO || s[spec::PH] == spec::DIGITS; }
bool stop(const char *p) { uint64_t s[spec::NF]; at(s, p); return s[spec::PH] != spec::DIGITS || p == g_end || !spec::digit(uint8_t(*p)); }
bool ndig(const char *p, uint64_t it) { uint64_t s[spec::NF]; at(s, p); return (s[spec::PH] == spec::DIGITS) & (s[spec::ND] == it + 1); }
bool noovf(const char *p) { uint64_t s[spec::NF]; at(s, p); return s[spec::OVF] == 0; }
bool same_init(const char *p, const char *p0) {
	uint64_t s[spec::NF], t[spec::NF]; at(s, p); at(t, p0);
	return (s[spec::MAG] == t[spec::MAG]) & (s[spec::NEG] == t[spec::NEG]) & (s[spec::OVF] == t[spec::OVF]);
}
bool dig(const char *p) { uint64_t s[spec::NF]; at(s, p); return s[spec::PH] == spec::DIGITS; }
bool isneg(const char *p) { uint64_t s[spec::NF]; at(s, p); return s[spec::NEG] == 1; }
bool ispos(const char *p) { uint64_t s[spec::NF]; at(s, p); return s[spec::NEG] == 0; }
bool nz(const char *p) { uint64_t s[spec::NF]; at(s, p); return s[spec::MAG] != 0; }
template<typename T> bool val(const char *p, T v) {
	uint64_t s[spec::NF]; at(s, p);
	return v < 0 ? s[spec::MAG] == uint64_t(0) - uint64_t(int64_t(v)) : s[spec::MAG] == uint64_t(v);
}
bool val8s(const char *p, int8_t v) { return val(p, v); }
bool val8u(const char *p, uint8_t v) { return val(p, v); }
bool val16s(const char *p, int16_t v) { return val(p, v); }
bool val16u(const char *p, uint16_t v) { return val(p, v); }
bool val32s(const char *p, int32_t v) { return val(p, v); }
bool val32u(const char *p, uint32_t v) { return val(p, v); }
bool val64s(const char *p, int64_t v) { return val(p, v); }
bool val64u(const char *p, uint64_t v) { return val(p, v); }
bool le0_8(int8_t v) { return v <= 0; }
bool le0_16(int16_t v) { return v <= 0; }
bool le0_32(int32_t v) { return v <= 0; }
bool le0_64(int64_t v) { return v <= 0; }
bool ge0_64(int64_t v) { return v >= 0; }
}  // namespace vcinv

template<typename T, typename F> void parse_text(const char *p, size_t n, F f_parse) {
	g_data = p;
	g_end  = p + n;
	vc_fold_inv(spec::step, mag_bound, spec::NF);
	vc_fold_absorb(spec::step, spec::bad, spec::NF);
	vc_fold_absorb(spec::step, over_pos<T>, spec::NF);
	vc_fold_absorb(spec::step, over_neg<T>, spec::NF);
	uint64_t f[spec::NF];
	at(f, p + n);
	bool neg = f[spec::NEG] != 0;
	bool ok  = ((f[spec::PH] == spec::ZERO) | (f[spec::PH] == spec::DIGITS) | (f[spec::PH] == spec::TRAIL)) & (!neg | std::numeric_limits<T>::is_signed) & (f[spec::OVF] == 0) &
	          ((neg & (f[spec::MAG] <= spec::limit<T>(true))) | (!neg & (f[spec::MAG] <= spec::limit<T>(false))));
	T r = 0;
	VC_TRY(std::out_of_range, threw, { r = f_parse(); })
	vc_reach("after");
	vc_check(vc::implies(ok, !threw), "parse.accepts-every-valid-number");
	vc_check(vc::implies(!ok, threw), "parse.rejects-everything-else");
	if (!threw & ok) {
		vc_reach("accepted");
		vc_check((neg & (uint64_t(r) == uint64_t(0) - f[spec::MAG])) | (!neg & (uint64_t(r) == f[spec::MAG])), "parse.exact-value");
		vc_check((neg & !(r > 0)) | (!neg & !(r < 0)), "parse.sign");
	}
}
template<typename T> void parse() {
	size_t n = vc::any<size_t>("n");
	const char *p = (const char *)vc_buf("text", n);
	parse_text<T>(p, n, [&]() { return crab::integer_cast<T>(p, n); });
}
#define P(N, T) VC_HARNESS(parse_##N) { parse<T>(); }
P(i8, signed char) P(c, char) P(u8, unsigned char) P(i16, short) P(u16, unsigned short) P(i32, int) P(u32, unsigned) P(i64, long) P(u64, unsigned long) P(ill, long long) P(ull, unsigned long long)

// the std::string overload
VC_HARNESS(string_i32) {
	vc::Raw<std::string> s;
	vc_string(s.ptr(), "s");
	const std::string &str = *s;
	parse_text<int>(str.data(), str.size(), [&]() { return crab::integer_cast<int>(str); });
}
