// C15: SHA-1. The block function equals FIPS 180's for every state and block; add and finalize feed it exactly the blocks of the
// padded message, from every state of the object.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/crypto/sha1.hxx>
#define HASH crab::sha1
enum { WORDS = 5, BE = 1 };
namespace spec {
inline uint32_t rotl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
// FIPS 180-4, 6.1.2
uint32_t block(const uint32_t *h, const uint8_t *m, int out) {
	uint32_t w[80];
	for (int t = 0; t != 16; ++t) w[t] = uint32_t(m[4 * t]) << 24 | uint32_t(m[4 * t + 1]) << 16 | uint32_t(m[4 * t + 2]) << 8 | m[4 * t + 3];
	for (int t = 16; t != 80; ++t) w[t] = rotl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
	uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
	for (int t = 0; t != 80; ++t) {
		uint32_t f = t < 20 ? (b & c) ^ (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) ^ (b & d) ^ (c & d) : b ^ c ^ d;
		uint32_t k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
		uint32_t tmp = rotl(a, 5) + f + e + k + w[t];
		e = d; d = c; c = rotl(b, 30); b = a; a = tmp;
	}
	return out == 0 ? h[0] + a : out == 1 ? h[1] + b : out == 2 ? h[2] + c : out == 3 ? h[3] + d : h[4] + e;
}
const uint32_t initial[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
}
#include "hash_contract.hpp"
