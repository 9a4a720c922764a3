// C01: Buffer is an exact bounded FIFO of bytes
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/streams.hxx>
using namespace crab;

static Buffer *g_b;
static size_t g_cap;
static const uint8_t *g_base;  // storage
static uint8_t *g_src;         // what the abstract source delivers / what the abstract sink received
static size_t g_done;          // bytes delivered / received so far
static size_t g_k;             // arbitrary position, the byte there is tracked
static uint8_t g_v;
static size_t g_n0, g_max;
static const size_t BIG = size_t(1) << 40;

// the observable position of the content: offset of the first byte and number of bytes
static inline size_t pos(const Buffer &b) { return size_t(b.read_ptr() - g_base); }
static inline size_t wrap(size_t i) { return i >= g_cap ? i - g_cap : i; }
// byte i of the content
static inline uint8_t at(const Buffer &b, size_t i) { return g_base[wrap(pos(b) + i)]; }
namespace spec {
// chunks exposed to the caller describe exactly the content and exactly the free room, inside of storage
bool valid() {
	const Buffer &b = *g_b;
	size_t p = pos(b), n = b.size(), c1 = b.read_count(), c2 = b.read_count2(), w1 = b.write_count(), w2 = b.write_count2();
	size_t e = p + n;  // one past the content, before wrapping
	return (b.read_ptr2() == g_base) & (b.capacity() == g_cap) & (n <= g_cap) & ((p < g_cap) | ((p == 0) & (g_cap == 0))) &
	       (b.full() == (n == g_cap)) & (b.empty() == (n == 0)) &
	       (c1 == (e < g_cap ? n : g_cap - p)) & (c2 == n - c1) &
	       (w1 == (e < g_cap ? g_cap - e : g_cap - n)) & (w2 == (e < g_cap ? p : 0));
}
bool wptr() {
	Buffer &b = *g_b;
	return (b.write_ptr() == g_base + wrap(pos(b) + b.size())) & (b.write_ptr2() == g_base);
}
}
static void check_valid() {
	vc_check(spec::valid(), "buffer.chunks-exact");
	vc_check(spec::wptr(), "buffer.write-position");
}
// every state that operations can reach: w1 written, r read, w2 written more (wraps when w1 == capacity)
static void setup(Buffer &b) {
	g_b    = &b;
	g_cap  = b.capacity();
	g_base = b.read_ptr2();
	vc_havoc(b.write_ptr(), g_cap, "storage");
	size_t w1 = vc::any<size_t>("w1"), r = vc::any<size_t>("r"), w2 = vc::any<size_t>("w2");
	vc_assume((w1 <= g_cap) & (r <= w1));
	vc_assume(w2 <= g_cap - (w1 - r));
	b.did_write(w1);
	b.did_read(r);
	b.did_write(w2);
	vc_assume(spec::valid());  // shown for every operation, and by H_states for this sequence
	vc_assume(spec::wptr());
}
#define SETUP size_t cap = vc_range("cap", 0, BIG); Buffer b(cap); setup(b); size_t p0 = pos(b), n0 = b.size(); (void)p0; (void)n0; vc_reach("ready");
// track byte k of the content
#define TRACK g_k = vc::any<size_t>("k"); vc_assume(g_k < n0); uint8_t v = at(b, g_k);

VC_HARNESS(states) {
	size_t cap = vc_range("cap", 0, BIG);
	Buffer b(cap);
	g_b    = &b;
	g_cap  = cap;
	g_base = b.read_ptr2();
	check_valid();
	vc_check(b.empty(), "buffer.starts-empty");
	size_t w1 = vc::any<size_t>("w1"), r = vc::any<size_t>("r"), w2 = vc::any<size_t>("w2");
	vc_assume((w1 <= g_cap) & (r <= w1));
	vc_assume(w2 <= g_cap - (w1 - r));
	b.did_write(w1);
	check_valid();
	vc_check((pos(b) == 0) & (b.size() == w1), "did_write.position");
	b.did_read(r);
	check_valid();
	vc_check(b.size() == w1 - r, "did_read.size");
	b.did_write(w2);
	check_valid();
	vc_check(b.size() == w1 - r + w2, "did_write.size");
	vc_reach("states");
}
VC_HARNESS(did_write) {
	SETUP
	size_t c = vc::any<size_t>("c");
	vc_assume(c <= BIG);
	VC_TRY(std::logic_error, threw, b.did_write(c));
	vc_check(threw == (c > cap - n0), "did_write.rejects-overfill");
	if (threw) return;
	check_valid();
	vc_check((b.size() == n0 + c) & (pos(b) == p0), "did_write.appends");
}
VC_HARNESS(did_write_undo) {
	SETUP
	size_t c = vc::any<size_t>("c");
	vc_assume(c <= BIG);
	VC_TRY(std::logic_error, threw, b.did_write_undo(c));
	vc_check(threw == (c > n0), "did_write_undo.rejects-underflow");
	if (threw) return;
	check_valid();
	vc_check((b.size() == n0 - c) & (pos(b) == p0), "did_write_undo.drops-last");
}
VC_HARNESS(did_read) {
	SETUP
	size_t c = vc::any<size_t>("c");
	vc_assume(c <= BIG);
	VC_TRY(std::logic_error, threw, b.did_read(c));
	vc_check(threw == (c > n0), "did_read.rejects-underflow");
	if (threw) return;
	check_valid();
	vc_check(b.size() == n0 - c, "did_read.removes-count");
	vc_check(vc::implies(c != n0, pos(b) == wrap(p0 + c)), "did_read.keeps-rest");
}
VC_HARNESS(read_some) {
	SETUP
	TRACK
	size_t n = vc_range("n", 0, BIG);
	uint8_t *out = vc_buf("out", n);
	size_t t = vc::any<size_t>("t");
	vc_assume(t < n);
	uint8_t o0 = out[t];
	size_t rc = b.read_some(out, n);
	check_valid();
	vc_check((rc <= n) & (rc <= n0) & (b.size() == n0 - rc), "read_some.count");
	vc_check(vc::implies((n != 0) & (n0 != 0), rc != 0), "read_some.progress");
	vc_check(t < rc || out[t] == o0, "read_some.writes-only-count");
	if (g_k < rc) vc_check(out[g_k] == v, "read_some.bytes-in-order");
	else vc_check(at(b, g_k - rc) == v, "read_some.rest-kept");
}
VC_HARNESS(write_some) {
	SETUP
	size_t n = vc_range("n", 0, BIG);
	uint8_t *in = vc_buf("in", n);
	size_t k = vc::any<size_t>("k");
	vc_assume(k < n0 + n);
	uint8_t v = k < n0 ? at(b, k) : in[k - n0];
	size_t wc = b.write_some(in, n);
	check_valid();
	vc_check((wc <= n) & (b.size() == n0 + wc), "write_some.count");
	vc_check(vc::implies((n != 0) & (n0 != cap), wc != 0), "write_some.progress");
	vc_check(k >= n0 + wc || at(b, k) == v, "write_some.bytes-in-order");
}
VC_HARNESS(peek) {
	SETUP
	TRACK
	size_t n = vc_range("n", 0, BIG);
	uint8_t *out = vc_buf("out", n);
	size_t t = vc::any<size_t>("t");
	vc_assume(t < n);
	uint8_t o0 = out[t];
	bool ok = b.peek(out, n);
	vc_check(ok == (n <= n0), "peek.exactly-when-enough");
	if (!ok) vc_check(out[t] == o0, "peek.fails-without-writing");
	else vc_check(g_k >= n || out[g_k] == v, "peek.bytes-in-order");
	vc_check((b.size() == n0) & (at(b, g_k) == v), "peek.buffer-unchanged");
}
VC_HARNESS(peek_const_state) {
	SETUP
	size_t n = vc_range("n", 0, BIG);
	uint8_t *out = vc_buf("out", n);
	b.peek(out, n);
	check_valid();
	vc_check((b.size() == n0) & (pos(b) == p0), "peek.position-unchanged");
}
VC_HARNESS(clear) {
	SETUP
	b.clear();
	check_valid();
	vc_check(b.empty(), "clear.empties");
	size_t n2 = vc_range("new_cap", 0, BIG);
	b.clear(n2);
	g_cap = n2;
	g_base = b.read_ptr2();
	check_valid();
	vc_check(b.empty() & (b.capacity() == n2), "clear.resizes");
}
namespace {
// a source that delivers g_src in order, any part of what is asked for at each call
struct Source : public IStream {
	size_t read_some(uint8_t *val, size_t count) override {
		size_t c = vc::any<size_t>("delivered");
		vc_assume((c <= count) & (c <= g_max - g_done));
		std::memcpy(val, g_src + g_done, c);
		g_done += c;
		return c;
	}
	using IStream::read_some;
};
// a sink that accepts any part of each write, and records it
struct Sink : public OStream {
	size_t write_some(const uint8_t *val, size_t count) override {
		size_t c = vc::any<size_t>("accepted");
		vc_assume(c <= count);
		vc_check((g_done <= g_max) & (count <= g_max - g_done), "write_to.offers-at-most-max");  // all of it may be accepted
		std::memcpy(g_src + g_done, val, c);
		g_done += c;
		return c;
	}
	using OStream::write_some;
};
}
namespace vcinv {
bool rf_valid() { return spec::valid() & spec::wptr(); }
bool rf_total(uint64_t total) { return (total == g_done) & (g_done <= g_max); }
bool rf_size() { return (g_b->size() == g_n0 + g_done) & (g_done <= g_max); }
bool rf_byte() { return g_k >= g_b->size() || at(*g_b, g_k) == g_v; }
bool wt_total(uint64_t total) { return total == g_done; }
bool wt_left(uint64_t left) { return left == g_max - g_done; }
bool wt_size() { return (g_done <= g_n0) & (g_b->size() == g_n0 - g_done) & (g_done <= g_max); }
bool wt_byte() { return g_k < g_done ? g_src[g_k] == g_v : at(*g_b, g_k - g_done) == g_v; }
}
VC_HARNESS(read_from) {
	SETUP
	g_max  = vc_range("max", 0, BIG);
	g_src  = vc_buf("src", g_max);
	g_done = 0;
	g_n0   = n0;
	g_k    = vc::any<size_t>("k");
	vc_assume(g_k < n0 + g_max);
	g_v = g_k < n0 ? at(b, g_k) : g_src[g_k - n0];
	Source in;
	size_t total = b.read_from(in);
	check_valid();
	vc_check((total == g_done) & (b.size() == n0 + g_done), "read_from.count");
	vc_check(g_k >= b.size() || at(b, g_k) == g_v, "read_from.bytes-in-order");
	vc_reach("done");
}
VC_HARNESS(write_to) {
	SETUP
	g_max  = vc_range("max", 0, BIG);
	g_src  = vc_buf("sink", g_max);
	g_done = 0;
	g_n0   = n0;
	TRACK
	g_v = v;
	Sink out;
	size_t total = b.write_to(out, g_max);
	check_valid();
	vc_check((total == g_done) & (b.size() == n0 - g_done) & (g_done <= g_max), "write_to.count");
	if (g_k < g_done) vc_check(g_src[g_k] == v, "write_to.bytes-in-order");
	else vc_check(at(b, g_k - g_done) == v, "write_to.rest-kept");
	vc_reach("done");
}
VC_HARNESS(read_enough) {
	SETUP
	g_max  = vc_range("max", 0, BIG);
	g_src  = vc_buf("src", g_max);
	g_done = 0;
	g_n0   = n0;
	g_k    = vc::any<size_t>("k");
	vc_assume(g_k < n0 + g_max);
	g_v = g_k < n0 ? at(b, g_k) : g_src[g_k - n0];
	Source in;
	size_t want = vc::any<size_t>("want");
	bool ok = b.read_enough_data(in, want);
	check_valid();
	vc_check(ok == (b.size() >= want), "read_enough.result");
	vc_check(b.size() == n0 + g_done, "read_enough.count");
	vc_check(n0 < want || g_done == 0, "read_enough.no-read-when-enough");
	vc_check(g_k >= b.size() || at(b, g_k) == g_v, "read_enough.bytes-in-order");
}
