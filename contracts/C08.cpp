// C08: safe_add / safe_sub (throwing and optional) and safe_abs are exact or report, for every value of every integer type.
#include "vc.hpp"
#include <crab/integer_cast.hpp>
typedef __int128 wide;
template<typename T> bool fits(wide v) { return v >= wide(std::numeric_limits<T>::min()) && v <= wide(std::numeric_limits<T>::max()); }

template<typename T> void add() {
	T a = vc::any<T>("a"), b = vc::any<T>("b");
	wide e = wide(a) + wide(b);
	vc_reach("add");
	VC_TRY(std::out_of_range, threw, { T r = crab::safe_add<T>(a, b); vc_check(wide(r) == e, "safe_add.exact"); })
	vc_check(threw == !fits<T>(e), "safe_add.throws-iff-not-representable");
	auto o = crab::safe_add_opt<T>(a, b);
	vc_check(bool(o) == fits<T>(e), "safe_add_opt.empty-iff-not-representable");
	if (o) vc_check(wide(*o) == e, "safe_add_opt.exact");
}
template<typename T> void sub() {
	T a = vc::any<T>("a"), b = vc::any<T>("b");
	wide e = wide(a) - wide(b);
	vc_reach("sub");
	VC_TRY(std::out_of_range, threw, { T r = crab::safe_sub<T>(a, b); vc_check(wide(r) == e, "safe_sub.exact"); })
	vc_check(threw == !fits<T>(e), "safe_sub.throws-iff-not-representable");
	auto o = crab::safe_sub_opt<T>(a, b);
	vc_check(bool(o) == fits<T>(e), "safe_sub_opt.empty-iff-not-representable");
	if (o) vc_check(wide(*o) == e, "safe_sub_opt.exact");
}
template<typename T> void abs_() {
	T a = vc::any<T>("a");
	wide e = wide(a) < 0 ? -wide(a) : wide(a);
	vc_check(wide(crab::safe_abs<T>(a)) == e, "safe_abs.exact");
}
#define ALL(F, N) \
	VC_HARNESS(N##_i8) { F<signed char>(); } VC_HARNESS(N##_u8) { F<unsigned char>(); } VC_HARNESS(N##_c) { F<char>(); } \
	VC_HARNESS(N##_i16) { F<short>(); } VC_HARNESS(N##_u16) { F<unsigned short>(); } \
	VC_HARNESS(N##_i32) { F<int>(); } VC_HARNESS(N##_u32) { F<unsigned>(); } \
	VC_HARNESS(N##_i64) { F<long>(); } VC_HARNESS(N##_u64) { F<unsigned long>(); } \
	VC_HARNESS(N##_ill) { F<long long>(); } VC_HARNESS(N##_ull) { F<unsigned long long>(); }
ALL(add, add)
ALL(sub, sub)
ALL(abs_, abs)
