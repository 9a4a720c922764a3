// C10: base64 encodes exactly (RFC 4648, padded) and decodes exactly the documented texts
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/crypto/base64.hxx>

namespace spec {
inline char letter(unsigned v) {  // RFC 4648 table 1
	return char(v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/');
}
inline unsigned value(uint8_t c) {  // 64 = not in the alphabet
	return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : 64;
}
// the j-th character of the group that encodes the m (1..3) bytes b0 b1 b2
inline char group(unsigned j, unsigned m, uint8_t b0, uint8_t b1, uint8_t b2) {
	if (m < 3) b2 = 0;
	if (m < 2) b1 = 0;
	if (j > m) return '=';
	unsigned v = unsigned(b0) << 16 | unsigned(b1) << 8 | b2;
	return letter((v >> (18 - 6 * j)) & 63);
}
// Decoding, one character at a time: groups of four characters, the last one or two of a group may be '=' (texts may be
// concatenated), a final group may lack its padding.
// K: index of the byte observed; the output byte number K is collected in OUT.
enum { PH, ACC, PAD, BAD, CNT, K, OUT, NF };
inline void emit(uint64_t *st, uint64_t acc, unsigned m) {
	uint64_t d = st[K] - st[CNT];
	if (d < m) st[OUT] = (acc >> ((16 - 8 * d) & 31)) & 255;
	st[CNT] += m;
}
void step(uint64_t *st, uint8_t c) {
	unsigned v = value(c);
	uint64_t ph = st[PH];
	bool eq = c == '=';
	if (eq & (ph == 2)) {  // must be followed by another '='
		st[PAD] = 1;
	} else if (eq & (ph == 3)) {
		st[PAD] += 1;
	} else {
		if ((v == 64) | (st[PAD] != 0)) st[BAD] = 1;
		st[ACC] |= uint64_t(v & 63) << (18 - 6 * ph);
	}
	st[PH] = (ph + 1) & 3;
	if (ph == 3) {
		emit(st, st[ACC], unsigned(3 - st[PAD]));
		st[ACC] = 0;
		st[PAD] = 0;
	}
}
bool bad(const uint64_t *st) { return st[BAD] != 0; }
bool wf(const uint64_t *st) { return (st[PH] < 4) & (st[PAD] <= st[PH]) & (st[CNT] < (uint64_t(1) << 60)); }
// end of text
inline bool accept(const uint64_t *st) { return (st[BAD] == 0) & (st[PH] != 1) & (st[PAD] == 0); }
inline void finish(uint64_t *st) {
	if (st[PH] >= 2) emit(st, st[ACC], unsigned(st[PH] - 1));
}
}  // namespace spec
static const uint8_t *g_in;
static char *g_out;
static uint8_t *g_bytes;
static size_t g_n, g_q, g_k;
namespace spec {
inline bool enc_ok(size_t q) {
	size_t m = g_n - 3 * q < 3 ? g_n - 3 * q : 3;
	uint8_t b0 = g_in[3 * q], b1 = m > 1 ? g_in[3 * q + 1] : 0, b2 = m > 2 ? g_in[3 * q + 2] : 0;
	const char *o = g_out + 4 * q;
	return (o[0] == spec::group(0, unsigned(m), b0, b1, b2)) & (o[1] == spec::group(1, unsigned(m), b0, b1, b2)) &
	       (o[2] == spec::group(2, unsigned(m), b0, b1, b2)) & (o[3] == spec::group(3, unsigned(m), b0, b1, b2));
}
}
using spec::enc_ok;
static void at(size_t i, uint64_t *st) {
	for (int j = 0; j < spec::NF; ++j) st[j] = 0;
	st[spec::K] = g_k;
	vc_fold(spec::step, st, spec::NF, g_in, i);
}
namespace vcinv {
bool enc_done(const char *out) { return size_t(out - g_out) <= 4 * g_q || enc_ok(g_q); }
bool enc_idx(uint64_t i) { return i <= g_q || enc_ok(g_q); }
bool dec_state(const uint8_t *p) { uint64_t st[spec::NF]; at(size_t(p - g_in), st); return (st[spec::PH] == 0) & (st[spec::PAD] == 0) & (st[spec::ACC] == 0) & (st[spec::BAD] == 0) & (st[spec::K] == g_k); }
bool dec_cnt(const uint8_t *p, const uint8_t *out) { uint64_t st[spec::NF]; at(size_t(p - g_in), st); return st[spec::CNT] == size_t(out - g_bytes); }
bool dec_out(const uint8_t *p, const uint8_t *out) { uint64_t st[spec::NF]; at(size_t(p - g_in), st); return size_t(out - g_bytes) <= g_k || g_bytes[g_k] == uint8_t(st[spec::OUT]); }
bool dec_room(const uint8_t *p, const uint8_t *out) { return size_t(out - g_bytes) <= 3 * (size_t(p - g_in) / 4); }
}
VC_HARNESS(encode) {
	size_t g = vc_range("groups", 0, uint64_t(1) << 36);
	size_t r = vc_range("rest", 0, 2);
	size_t n = 3 * g + r;
	vc_check(n / 3 == g, "arith.groups");
	const uint8_t *in = vc_buf("in", n);
	size_t want = 4 * g + (r ? 4 : 0);
	vc_check(crab::base64::encoded_size(n) == want, "encode.size");
	char *out = (char *)vc_buf("out", want);
	g_in  = in;
	g_out = out;
	g_n   = n;
	g_q   = vc::any<size_t>("q");
	vc_assume((g_q < g + (r ? 1 : 0)) | (n == 0));
	crab::base64::encode(out, want, in, n);
	if (n != 0) {
		vc_reach("nonempty");
		vc_check(enc_ok(g_q), "encode.rfc4648-group");
	}
}
VC_HARNESS(encode_wrong_size) {
	size_t g = vc_range("groups", 0, uint64_t(1) << 36);
	size_t r = vc_range("rest", 0, 2);
	size_t n = 3 * g + r, len = vc_range("len", 0, uint64_t(1) << 40);
	vc_check(n / 3 == g, "arith.groups");
	const uint8_t *in = vc_buf("in", n);
	size_t want = 4 * g + (r ? 4 : 0);
	char *out = (char *)vc_buf("out", want);
	vc_assume(len != want);
	VC_TRY(std::logic_error, threw, crab::base64::encode(out, len, in, n));
	vc_check(threw, "encode.size-mismatch-throws");
}
template<size_t R> static void decode() {
	size_t n = 4 * vc_range("groups", 0, uint64_t(1) << 38) + R;
	const uint8_t *in = vc_buf("in", n);
	size_t room = crab::base64::max_decoded_size((const char *)in, n);
	uint8_t *out = vc_buf("out", room);
	g_in = in;
	g_bytes = out;
	g_k = vc_range("k", 0, uint64_t(1) << 41);
	vc_fold_absorb(spec::step, spec::bad, spec::NF);
	uint64_t st[spec::NF];
	size_t rv = crab::base64::decode(out, room, (const char *)in, n);
	at(n, st);
	vc_check((rv != std::string::npos) == spec::accept(st), "decode.accepts-exactly");
	if (rv != std::string::npos) {
		vc_reach("accepted");
		spec::finish(st);
		vc_check(rv == st[spec::CNT] && rv <= room, "decode.size");
		if (g_k < rv) vc_check(out[g_k] == uint8_t(st[spec::OUT]), "decode.bytes");
	}
}
VC_HARNESS(decode0) { decode<0>(); }
VC_HARNESS(decode1) { decode<1>(); }
VC_HARNESS(decode2) { decode<2>(); }
VC_HARNESS(decode3) { decode<3>(); }
// one group of every kind: decode(encode(x)) == x
template<size_t N> static void group_roundtrip() {
	uint8_t in[3] = {vc::any<uint8_t>("b0"), vc::any<uint8_t>("b1"), vc::any<uint8_t>("b2")};
	uint8_t back[3];
	char txt[4];
	crab::base64::encode(txt, 4, in, N);
	size_t rv = crab::base64::decode(back, 3, txt, 4);
	vc_check(rv == N, "roundtrip.size");
	for (size_t i = 0; i < N; ++i) vc_check(back[i] == in[i], "roundtrip.bytes");
}
VC_HARNESS(group1) { group_roundtrip<1>(); }
VC_HARNESS(group2) { group_roundtrip<2>(); }
VC_HARNESS(group3) { group_roundtrip<3>(); }
