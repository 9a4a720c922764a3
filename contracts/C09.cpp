// C09: IntegerSaver produces canonical decimal text that denotes the value.
// v = 10 * (v / 10) + v % 10 with |v % 10| < 10 and sign of v (definition of / and % in C++), so the digits of v from
// the right are |v % 10|, |v / 10 % 10|, ... : the text must consist of exactly those.
#include "vc.hpp"
#include <crab/integer_cast.hpp>

template<typename T> void text_of(T v, bool neg) {
	crab::IntegerSaver<T> s(v);
	const char *d = s.data();
	size_t n      = s.size();
	vc_check(n >= 1 && n <= crab::max_to_string_length<T>(), "format.within-advertised-length");
	vc_check((d[0] == '-') == neg, "format.sign-iff-negative");
	size_t nd = n - neg;
	vc_check(nd >= 1, "format.has-digits");
	vc_check(nd == 1 || d[neg] != '0', "format.no-leading-zero");
	vc_reach("formatted");
	T q = v;
	for (size_t j = 0; j < 20; ++j) {
		if (j < nd) {
			int dg = neg ? -int(q % 10) : int(q % 10);
			vc_check(d[n - 1 - j] == char('0' + dg), "format.digit");
			q = T(q / 10);
		}
	}
	vc_check(q == 0, "format.all-digits");
}
template<typename T> void fmt() {
	T v = vc::any<T>("v");
	if (std::numeric_limits<T>::is_signed && v < 0)
		text_of(v, true);
	else
		text_of(v, false);
}
#define FMT(T, name) VC_HARNESS(fmt_##name) { fmt<T>(); }
FMT(char, c) FMT(signed char, i8) FMT(unsigned char, u8) FMT(short, i16) FMT(unsigned short, u16) FMT(int, i32) FMT(unsigned, u32)
FMT(long, i64) FMT(unsigned long, u64) FMT(long long, ill) FMT(unsigned long long, ull)
