// Contracts shared by SHA-1 and MD5 (Merkle-Damgard with 64 byte blocks): HASH, WORDS, BE and spec::block, spec::initial are given.
static const size_t BIG = size_t(1) << 60;
VC_HARNESS(block) {
	HASH h;
	uint32_t old[WORDS];
	for (int i = 0; i != WORDS; ++i) h.state[i] = vc::any<uint32_t>("state");
	for (int i = 0; i != WORDS; ++i) old[i] = h.state[i];
	const uint8_t *m = vc_buf("block", 64);
	h.process_block(m);
	bool same = true;
	for (int i = 0; i != WORDS; ++i) same = same & (h.state[i] == spec::block(old, m, i));
	vc_reach("compressed");
	vc_check(same, "block.state");
}
VC_HARNESS(initial) {
	HASH h;
	for (int i = 0; i != WORDS; ++i) vc_check(h.state[i] == spec::initial[i], "initial.state");
	vc_check(h.size == 0, "initial.size");
}
// ---- the stream of bytes since the last processed block: what was buffered, then the new data, then (finalize) padding and length
static HASH *g_h; static uint8_t g_old[64]; static size_t g_index, g_n, g_cnt, g_k; static uint64_t g_size; static const uint8_t *g_data; static bool g_final; static uint32_t g_state[WORDS];
namespace vcspec {
uint8_t length_byte(uint64_t bits, size_t j) { return uint8_t(bits >> (8 * (BE ? 7 - j : j))); }
// byte number j of the stream
uint8_t at(size_t j) {
	if (j < g_index) return g_old[j];
	if (!g_final) return g_data[j - g_index];
	if (j == g_index) return 0x80;
	size_t total = g_index < 56 ? 64 : 128;
	return j < total - 8 ? 0 : length_byte(g_size * 8, j - (total - 8));
}
bool block_is(const uint8_t *p, size_t cnt, size_t k) { return p[k] == at(64 * cnt + k); }
bool tail_is(const uint8_t *p, size_t cnt, size_t k, size_t tail) { return k >= tail || p[k] == at(64 * cnt + k); }
}
namespace vcrep {
void process_block(HASH *h, const uint8_t *p) {
	vc_check(h == g_h, "blocks.of-this-object");
	vc_check(64 * g_cnt + 64 <= (g_final ? g_index < 56 ? 64 : 128 : g_index + g_n), "blocks.not-too-many");
	vc_check(vcspec::block_is(p, g_cnt, g_k), "blocks.in-order");
	for (int i = 0; i != WORDS; ++i) {
		vc_check(h->state[i] == g_state[i], "state.only-changed-by-blocks");
		g_state[i] = h->state[i] = vc::any<uint32_t>("new-state");
	}
	++g_cnt;
}
}
namespace vcinv {
bool ad_pos(const uint8_t *data, size_t n) { return data == g_data + (64 * g_cnt - g_index) && 64 * g_cnt >= g_index && 64 * g_cnt - g_index <= g_n && n == g_n - (64 * g_cnt - g_index) && g_cnt <= BIG / 32; }
bool ad_state() { bool r = true; for (int i = 0; i != WORDS; ++i) r = r & (g_h->state[i] == g_state[i]); return r; }
}
static void setup(HASH &h) {
	h.size = vc::any<uint64_t>("size");
	for (int i = 0; i != WORDS; ++i) h.state[i] = vc::any<uint32_t>("state"); vc_havoc(h.buffer, sizeof(h.buffer), "buffer");
	for (int i = 0; i != WORDS; ++i) g_state[i] = h.state[i];
	for (int i = 0; i != 64; ++i) g_old[i] = h.buffer[i];
	g_h = &h; g_size = h.size; g_index = size_t(h.size % 64); g_cnt = 0; g_final = false;
	g_k = vc_range("k", 0, 63);
}
VC_HARNESS(add) {
	HASH h;
	setup(h);
	g_n = vc_range("n", 0, BIG); g_data = vc_buf("data", g_n);
	HASH *r = &h.add(g_data, g_n);
	vc_reach("added");
	vc_check(r == &h, "add.returns-self");
	vc_check(h.size == g_size + g_n, "add.size");
	vc_check(g_cnt == (g_index + g_n) / 64, "add.all-blocks");
	vc_check(vcspec::tail_is(h.buffer, g_cnt, g_k, (g_index + g_n) % 64), "add.rest-buffered");
	vc_check(vcinv::ad_state(), "add.state");
}
VC_HARNESS(finalize) {
	HASH h;
	setup(h);
	g_n = 0; g_data = nullptr; g_final = true;
	uint8_t *result = vc_buf("result", 4 * WORDS);
	h.finalize(result);
	vc_reach("finalized");
	vc_check(g_cnt == (g_index < 56 ? 1 : 2), "finalize.all-blocks");
	for (int i = 0; i != 4 * WORDS; ++i) vc_check(result[i] == uint8_t(g_state[i / 4] >> (8 * (BE ? 3 - i % 4 : i % 4))), "finalize.result");
}
