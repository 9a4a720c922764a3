// C16: MD5. The block function equals RFC 1321's for every state and block; add and finalize feed it exactly the blocks of the
// padded message, from every state of the object.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/crypto/md5.hxx>
#define HASH crab::md5
enum { WORDS = 4, BE = 0 };
namespace spec {
// RFC 1321, 3.4: T[i] = floor(2^32 * |sin(i)|), i in radians
const uint32_t T[64] = {
	0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
	0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
	0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
	0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
	0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
	0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
	0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
	0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391};
const uint8_t S[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
inline uint32_t rotl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
uint32_t block(const uint32_t *h, const uint8_t *m, int out) {
	uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
	for (int i = 0; i != 64; ++i) {
		uint32_t f = i < 16 ? (b & c) | (~b & d) : i < 32 ? (b & d) | (c & ~d) : i < 48 ? b ^ c ^ d : c ^ (b | ~d);
		int g = i < 16 ? i : i < 32 ? (5 * i + 1) % 16 : i < 48 ? (3 * i + 5) % 16 : (7 * i) % 16;
		uint32_t x = uint32_t(m[4 * g + 3]) << 24 | uint32_t(m[4 * g + 2]) << 16 | uint32_t(m[4 * g + 1]) << 8 | m[4 * g];
		uint32_t t = a + f + x + T[i];
		a = d; d = c; c = b; b = b + rotl(t, S[i / 16 * 4 + i % 4]);
	}
	return out == 0 ? h[0] + a : out == 1 ? h[1] + b : out == 2 ? h[2] + c : h[3] + d;
}
const uint32_t initial[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
}
#include "hash_contract.hpp"
