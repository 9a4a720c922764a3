// C07: integer_cast between arithmetic types is exact or throws std::out_of_range.
#include "vc.hpp"
#include <crab/integer_cast.hpp>
typedef __int128 wide;
template<typename T, typename S> void one() {
	S s = vc::any<S>("s");
	bool ok = wide(s) >= wide(std::numeric_limits<T>::min()) && wide(s) <= wide(std::numeric_limits<T>::max());
	T r = 0;
	VC_TRY(std::out_of_range, threw, { r = crab::integer_cast<T>(s); })
	vc_check(threw == !ok, "integer_cast.throws-iff-not-representable");
	if (!threw) vc_check(wide(r) == wide(s), "integer_cast.same-value");
}
template<typename S> void from() {
	switch (vc::any<uint8_t>("target")) {
	case 0: return one<signed char, S>();
	case 1: return one<unsigned char, S>();
	case 2: return one<char, S>();
	case 3: return one<short, S>();
	case 4: return one<unsigned short, S>();
	case 5: return one<int, S>();
	case 6: return one<unsigned, S>();
	case 7: return one<long, S>();
	case 8: return one<unsigned long, S>();
	case 9: return one<long long, S>();
	case 10: return one<unsigned long long, S>();
	}
}
VC_HARNESS(from_i8) { from<signed char>(); }
VC_HARNESS(from_u8) { from<unsigned char>(); }
VC_HARNESS(from_c) { from<char>(); }
VC_HARNESS(from_i16) { from<short>(); }
VC_HARNESS(from_u16) { from<unsigned short>(); }
VC_HARNESS(from_i32) { from<int>(); }
VC_HARNESS(from_u32) { from<unsigned>(); }
VC_HARNESS(from_i64) { from<long>(); }
VC_HARNESS(from_u64) { from<unsigned long>(); }
VC_HARNESS(from_ill) { from<long long>(); }
VC_HARNESS(from_ull) { from<unsigned long long>(); }

// floating point source: accepted exactly for min <= s <= max (so never NaN), result is s truncated toward zero.
// min and max + 1 are powers of two (or 0), so these comparisons are exact in double.
constexpr double pow2(int n) { return n == 0 ? 1.0 : 2.0 * pow2(n - 1); }
template<typename T, typename S> void onef() {
	S f = vc::any<S>("s");
	double s = f;
	constexpr double hi = pow2(std::numeric_limits<T>::digits);  // max + 1
	double lo = std::numeric_limits<T>::is_signed ? -hi : 0.0;
	bool ok = std::numeric_limits<T>::digits > 52 ? (s >= lo && s < hi) : (s >= lo && s <= hi - 1);
	T r = 0;
	VC_TRY(std::out_of_range, threw, { r = crab::integer_cast<T>(f); })
	vc_check(threw == !ok, "integer_cast.float.throws-iff-out-of-range");
	if (!threw && ok) {
		vc_reach("value");
		// r is the truncation: r as exact real compared through its two halves (every T value splits into two exact doubles)
		double d = s - double(r);   // exact when |s| < 2^52; otherwise s is an integer and must convert back exactly
		if (s > -4503599627370496.0 && s < 4503599627370496.0)
			vc_check(s >= 0 ? (r >= 0 && d >= 0 && d < 1) : (r <= 0 && d <= 0 && d > -1), "integer_cast.float.truncates");
		else
			vc_check(double(r) == s, "integer_cast.float.integer-exact");
	}
}
#define F(N, T) VC_HARNESS(double_##N) { onef<T, double>(); } VC_HARNESS(float_##N) { onef<T, float>(); }
F(i8, signed char) F(u8, unsigned char) F(i16, short) F(u16, unsigned short) F(i32, int) F(u32, unsigned) F(i64, long) F(u64, unsigned long)
