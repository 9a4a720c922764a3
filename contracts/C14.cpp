// C14: crc32 / crc32c equal the bit-by-bit CRC, also when fed in pieces
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/crypto/crc32.hxx>

namespace spec {
template<uint32_t POLY> void step(uint64_t *st, uint8_t c) {
	uint32_t v = uint32_t(st[0]) ^ c;
	for (int i = 0; i < 8; ++i) v = (v >> 1) ^ ((0u - (v & 1)) & POLY);
	st[0] = v;
}
}  // namespace spec
static const uint8_t *g_data;
static size_t g_off;
static uint64_t g_init;
static vc_step_t g_step;
template<uint32_t POLY> uint32_t at(size_t i) {
	uint64_t st[1] = {g_init};
	vc_fold(spec::step<POLY>, st, 1, g_data, i);
	return uint32_t(st[0]);
}
namespace vcinv {
bool ieee_idx(uint32_t v, uint64_t i) { return v == at<0xEDB88320u>(g_off + i); }
bool ieee_ptr(uint32_t v, const uint8_t *p) { return v == at<0xEDB88320u>(size_t(p - g_data)); }
bool cast_idx(uint32_t v, uint64_t i) { return v == at<0x82F63B78u>(g_off + i); }
bool cast_ptr(uint32_t v, const uint8_t *p) { return v == at<0x82F63B78u>(size_t(p - g_data)); }
}
template<uint32_t POLY, typename F> void run(F f) {
	size_t n         = vc::any<size_t>("n");
	size_t k         = vc_range("k", 0, n);
	uint32_t crc     = vc::any<uint32_t>("crc");
	const uint8_t *p = vc_buf("data", n);
	g_data = p;
	g_off  = 0;
	g_init = uint32_t(~crc);
	uint32_t a = f(crc, p, k);
	vc_check(a == uint32_t(~at<POLY>(k)), "crc.equals-polynomial-definition");
	g_off      = k;
	uint32_t b = f(a, p + k, n - k);
	vc_reach("pieces");
	vc_check(b == uint32_t(~at<POLY>(n)), "crc.piecewise-equals-whole");
}
VC_HARNESS(crc32) { run<0xEDB88320u>([](uint32_t c, const uint8_t *p, size_t n) { return crab::crc32(c, p, n); }); }
VC_HARNESS(crc32c) { run<0x82F63B78u>([](uint32_t c, const uint8_t *p, size_t n) { return crab::crc32c(c, p, n); }); }
