// C18: masking XORs byte i with key byte (shift + i) mod 4 and touches nothing else
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/http/web_message_parser.hxx>
using namespace crab::http;

static char *g_buf;   // start of the masked range
static size_t g_n, g_k, g_shift;
static uint32_t g_key;
static uint8_t g_old;
static inline uint8_t key_byte(size_t i) { return uint8_t(g_key >> (24 - 8 * (i & 3))); }
static inline uint32_t rolb(uint32_t v, size_t b) { b &= 3; return b == 0 ? v : (v << (8 * b)) | (v >> (32 - 8 * b)); }
namespace vcinv {
// byte g_k has been masked iff the position is past it
static bool upto(size_t i) { return uint8_t(g_buf[g_k]) == (i > g_k ? uint8_t(g_old ^ key_byte(g_shift + g_k)) : g_old); }
bool at_ptr(const char *p) { return upto(size_t(p - g_buf)); }
bool at_uptr(const uint8_t *p) { return upto(size_t((const char *)p - g_buf)); }
bool at_off_lv(const char *base, uint64_t i) { return upto(size_t(base - g_buf) + i); }
bool mask_off_lv(uint32_t mask, const char *base, uint64_t i) { return mask == rolb(g_key, g_shift + size_t(base - g_buf) + i); }
bool at_idx(uint64_t i) { return upto(i); }
bool at_left(uint64_t left) { return upto(g_n - left); }
bool left_ptr(const char *p, uint64_t left) { return left == g_n - size_t(p - g_buf); }
bool mask_ptr(uint32_t mask, const char *p) { return mask == rolb(g_key, g_shift + size_t(p - g_buf)); }
bool mask_idx(uint32_t mask, uint64_t i) { return mask == rolb(g_key, g_shift + i); }
}
template<size_t OFF> static void mask() {
	size_t n = vc_range("n", 0, uint64_t(1) << 40);
	char *p  = (char *)vc_buf("data", n + 24);  // 16-aligned: OFF runs through all alignments of the range
	g_buf    = p + 8 + OFF;
	g_n      = n;
	g_shift  = vc::any<size_t>("shift");
	g_key    = vc::any<uint32_t>("key");
	g_k      = vc_range("k", 0, (uint64_t(1) << 40) + 24) - 8;  // byte k of the range, or one of the bytes around it
	vc_assume(g_k + 8 < n + 24 - OFF);
	g_old = uint8_t(g_buf[g_k]);
	WebMessageHeaderParser::mask_data(g_shift, g_buf, n, g_key);
	vc_reach("masked");
	vc_check(uint8_t(g_buf[g_k]) == (g_k < n ? uint8_t(g_old ^ key_byte(g_shift + g_k)) : g_old), "mask.byte-xor-key");
}
VC_HARNESS(mask0) { mask<0>(); }
VC_HARNESS(mask1) { mask<1>(); }
VC_HARNESS(mask2) { mask<2>(); }
VC_HARNESS(mask3) { mask<3>(); }
VC_HARNESS(mask4) { mask<4>(); }
VC_HARNESS(mask5) { mask<5>(); }
VC_HARNESS(mask6) { mask<6>(); }
VC_HARNESS(mask7) { mask<7>(); }
