// C02: streams move every byte exactly once and in order, and report exactly how many they moved
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/streams.hxx>
using namespace crab;

static const size_t BIG = size_t(1) << 40;
static uint8_t *g_rec;         // what the abstract source delivers / what the abstract sink received
static size_t g_done, g_max;   // bytes delivered / received so far; most it will ever deliver / record
static bool g_failed;          // the other side has delivered / accepted nothing at the last call
static const uint8_t *g_data;  // original content of the stream under test
static size_t g_n, g_k;        // its size; an arbitrary position in it
static uint8_t g_v;            // the byte there
static IFiniteStream *g_s;
static uint8_t *g_val;         // caller's memory
static size_t g_cnt;
namespace {
struct Source : public IStream {  // delivers g_rec in order, any part of what is asked for at each call
	size_t read_some(uint8_t *val, size_t count) override {
		size_t c = vc::any<size_t>("delivered");
		vc_assume((c <= count) & (c <= g_max - g_done));
		std::memcpy(val, g_rec + g_done, c);
		g_done += c;
		g_failed = c == 0;
		return c;
	}
	using IStream::read_some;
};
struct Sink : public OStream {  // accepts any part of each write and records it
	size_t write_some(const uint8_t *val, size_t count) override {
		size_t c = vc::any<size_t>("accepted");
		vc_check(count <= g_max - g_done, "sink.never-offered-more-than-allowed");
		vc_assume(c <= count);
		std::memcpy(g_rec + g_done, val, c);
		g_done += c;
		g_failed = c == 0;
		return c;
	}
	using OStream::write_some;
};
}
// loops of write_to: total/left counters, position of the source, the byte tracked
static const uint8_t *g_mem;          // storage the stream reads from
static const uint8_t **g_pdata;       // IMemoryStream
static size_t *g_psi, *g_ppos;        // remaining size / read position
namespace vcinv {
bool c_gmax() { return g_done <= g_max; }
bool c_total(uint64_t total) { return total == g_done; }
bool c_left(uint64_t left) { return (left == g_max - g_done) & (g_done <= g_max); }
bool c_left_cnt(uint64_t left) { return (left == g_cnt - g_done) & (g_done <= g_cnt); }
bool c_bound() { return (g_done <= g_max) & (g_done <= g_n); }
bool c_pos() { return (*g_ppos == g_done) & (g_done <= g_n) & (g_done <= g_max); }
bool c_mem() { return (*g_psi == g_n - g_done) & (*g_pdata == g_data + g_done) & (g_done <= g_n) & (g_done <= g_max); }
bool c_rec() { return g_k >= g_done || g_rec[g_k] == g_v; }
bool c_val(const uint8_t *p) { return (p == g_val + g_done) & (g_done <= g_cnt); }
bool c_src() { return g_k >= g_done || g_val[g_k] == g_v; }
}
#define TRACK(n, p) g_k = vc::any<size_t>("k"); vc_assume(g_k < (n)); g_v = (p)[g_k];
#define SINK g_max = vc_range("max", 0, BIG); g_rec = vc_buf("sink", g_max); g_done = 0; g_failed = false; Sink out;
static void check_written(size_t total) {
	vc_check((total == g_done) & (g_done <= g_max) & (g_done <= g_n), "write_to.returns-accepted-count");
	vc_check((g_done == g_max) | (g_done == g_n) | g_failed, "write_to.writes-all-that-is-accepted");
	vc_check(g_s->size() == g_n - g_done, "write_to.leaves-exactly-the-rest");
	vc_check(g_k >= g_done || g_rec[g_k] == g_v, "write_to.bytes-in-order");
}
// after an operation that took `moved` bytes: the rest can still be read, byte for byte
static void check_rest(size_t moved) {
	vc_check(g_s->size() == g_n - moved, "stream.rest-size");
	size_t m = vc_range("m", 0, BIG);
	uint8_t *rest = vc_buf("rest", m);
	size_t rc = g_s->read_some(rest, m);
	vc_check(rc == (m < g_n - moved ? m : g_n - moved), "stream.rest-readable");
	if (g_k >= moved) vc_check(g_k - moved >= rc || rest[g_k - moved] == g_v, "stream.rest-in-order");
}
static void check_read_some() {
	size_t m = vc_range("n", 0, BIG);
	uint8_t *o = vc_buf("out", m);
	size_t t = vc::any<size_t>("t");
	vc_assume(t < m);
	uint8_t o0 = o[t];
	size_t rc = g_s->read_some(o, m);
	vc_check(rc == (m < g_n ? m : g_n), "read_some.count");
	vc_check(g_k >= rc || o[g_k] == g_v, "read_some.bytes-in-order");
	vc_check(t < rc || o[t] == o0, "read_some.writes-only-count");
	check_rest(rc);
}
#define MEMORY size_t n = vc_range("size", 0, BIG); uint8_t *p = vc_buf("data", n); g_data = p; g_n = n; IMemoryStream s(p, n); g_s = &s; g_pdata = &s.data; g_psi = &s.si; TRACK(n, p)
#define VEC vc::Raw<bdata> v; vc_bytes(v.ptr(), "vec"); g_n = v->size(); g_data = v->data(); IVectorStream s(v.ptr()); g_s = &s; g_ppos = &s.read_pos; TRACK(g_n, g_data)
#define STR vc::Raw<std::string> v; vc_string(v.ptr(), "str"); g_n = v->size(); g_data = reinterpret_cast<const uint8_t *>(v->data()); IStringStream s(v.ptr()); g_s = &s; g_ppos = &s.read_pos; TRACK(g_n, g_data)

VC_HARNESS(mem_read_some) { MEMORY check_read_some(); vc_reach("end"); }
VC_HARNESS(vec_read_some) { VEC check_read_some(); vc_reach("end"); }
VC_HARNESS(str_read_some) { STR check_read_some(); vc_reach("end"); }
VC_HARNESS(mem_write_to) { MEMORY SINK size_t t = s.write_to(out, g_max); check_written(t); check_rest(g_done); vc_reach("end"); }
VC_HARNESS(vec_write_to) { VEC SINK size_t t = s.write_to(out, g_max); check_written(t); check_rest(g_done); vc_reach("end"); }
VC_HARNESS(str_write_to) { STR SINK size_t t = s.write_to(out, g_max); check_written(t); check_rest(g_done); vc_reach("end"); }
VC_HARNESS(mem_write_some) {
	size_t n = vc_range("size", 0, BIG), m = vc_range("count", 0, BIG);
	uint8_t *p = vc_buf("data", n), *in = vc_buf("in", m);
	OMemoryStream s(p, n);
	size_t k = vc::any<size_t>("k");
	vc_assume(k < n);
	uint8_t old = p[k];
	size_t wc = s.write_some(in, m);
	vc_check(wc == (m < n ? m : n), "write_some.count");
	vc_check(p[k] == (k < wc ? in[k] : old), "write_some.bytes-in-order");
	size_t m2 = vc_range("count2", 0, BIG);
	uint8_t *in2 = vc_buf("in2", m2);
	size_t wc2 = s.write_some(in2, m2);
	vc_check(wc2 == (m2 < n - wc ? m2 : n - wc), "write_some.room-shrinks");
	vc_check(p[k] == (k < wc ? in[k] : k < wc + wc2 ? in2[k - wc] : old), "write_some.second-follows-first");
	vc_reach("end");
}
VC_HARNESS(vec_write_some) {
	vc::Raw<bdata> v; vc_bytes(v.ptr(), "vec");
	size_t n = v->size(), m = vc_range("count", 0, BIG);
	uint8_t *in = vc_buf("in", m);
	OVectorStream s(v.ptr());
	size_t k = vc::any<size_t>("k");
	vc_assume(k < n + m);
	uint8_t want = k < n ? v->data()[k] : in[k - n];
	size_t wc = s.write_some(in, m);
	vc_check((wc == m) & (v->size() == n + m), "write_some.count");
	vc_check(v->data()[k] == want, "write_some.appends");
	vc_reach("end");
}
VC_HARNESS(str_write_some) {
	vc::Raw<std::string> v; vc_string(v.ptr(), "str");
	size_t n = v->size(), m = vc_range("count", 0, BIG);
	uint8_t *in = vc_buf("in", m);
	OStringStream s(v.ptr());
	size_t k = vc::any<size_t>("k");
	vc_assume(k < n + m);
	uint8_t want = k < n ? uint8_t(v->data()[k]) : in[k - n];
	size_t wc = s.write_some(in, m);
	vc_check((wc == m) & (v->size() == n + m), "write_some.count");
	vc_check(uint8_t(v->data()[k]) == want, "write_some.appends");
	vc_reach("end");
}
// IStream::read / OStream::write over any implementation of read_some / write_some
VC_HARNESS(read_exact) {
	g_max = vc_range("max", 0, BIG); g_rec = vc_buf("src", g_max); g_done = 0; g_failed = false;
	g_cnt = vc_range("count", 0, BIG); g_val = vc_buf("val", g_cnt);
	TRACK(g_max, g_rec)
	Source in;
	VC_TRY(std::runtime_error, threw, static_cast<IStream &>(in).read(g_val, g_cnt));
	vc_check(threw ? g_failed & (g_done < g_cnt) : g_done == g_cnt, "read.all-or-throws");
	vc_check(g_k >= g_done || g_val[g_k] == g_v, "read.bytes-in-order");
	vc_reach("end");
}
VC_HARNESS(write_exact) {
	g_cnt = vc_range("count", 0, BIG); g_val = vc_buf("val", g_cnt);
	g_max = g_cnt; g_rec = vc_buf("sink", g_max); g_done = 0; g_failed = false; g_n = g_cnt;
	TRACK(g_cnt, g_val)
	Sink out;
	VC_TRY(std::runtime_error, threw, static_cast<OStream &>(out).write(g_val, g_cnt));
	vc_check(threw ? g_failed & (g_done < g_cnt) : g_done == g_cnt, "write.all-or-throws");
	vc_check(g_k >= g_done || g_rec[g_k] == g_v, "write.bytes-in-order");
	vc_reach("end");
}
// char overloads and write_byte reach the same bytes
VC_HARNESS(write_byte) {
	uint8_t b = vc::any<uint8_t>("b");
	vc::Raw<std::string> v; vc_string(v.ptr(), "str");
	size_t n = v->size();
	OStringStream s(v.ptr());
	s.write_byte(b);
	vc_check((v->size() == n + 1) && uint8_t(v->data()[n]) == b, "write_byte.appends-one");
}
// CombinedIStream over two memory streams: the concatenation
static size_t g_na, g_nb;
static const uint8_t *g_da, *g_db;
static IMemoryStream *g_sa, *g_sb;
static size_t g_base;  // bytes accepted before the loop that runs now
namespace vcinv {
bool m_total(uint64_t total) { return (total == g_done - g_base) & (g_base <= g_done); }
bool m_left(uint64_t left) { return (left == g_max - g_done) & (g_done <= g_max); }
bool m_a() { return (g_sa->si + g_done == g_na) & (g_sa->data == g_da + g_done) & (g_done <= g_na) & (g_base == 0); }
bool m_b() { return (g_base == g_na) & (g_sa->si == 0) & (g_sb->si == g_nb - (g_done - g_na)) & (g_sb->data == g_db + (g_done - g_na)) & (g_na <= g_done) & (g_done <= g_na + g_nb); }
bool m_max() { return g_done <= g_max; }
bool m_rec() { return g_k >= g_done || g_rec[g_k] == g_v; }
}
#define COMBINED g_na = vc_range("size_a", 0, BIG); g_nb = vc_range("size_b", 0, BIG); uint8_t *pa = vc_buf("a", g_na), *pb = vc_buf("b", g_nb); g_da = pa; g_db = pb; \
	g_sa = new IMemoryStream(pa, g_na); g_sb = new IMemoryStream(pb, g_nb); \
	CombinedIStream s{std::unique_ptr<IFiniteStream>(g_sa), std::unique_ptr<IFiniteStream>(g_sb)}; g_s = &s; g_n = g_na + g_nb; \
	g_k = vc::any<size_t>("k"); vc_assume(g_k < g_n); g_v = g_k < g_na ? pa[g_k] : pb[g_k - g_na]; vc_check(s.size() == g_n, "combined.size");
VC_HARNESS(combined_read_some) {
	COMBINED
	size_t m = vc_range("n", 0, BIG);
	uint8_t *o = vc_buf("out", m);
	size_t rc = s.read_some(o, m);
	vc_check(rc <= m, "combined.count");
	vc_check(vc::implies((m != 0) & (g_n != 0), rc != 0), "combined.progress");
	vc_check(g_k >= rc || o[g_k] == g_v, "combined.bytes-in-order");
	vc_check(s.size() == g_n - rc, "combined.rest-size");
	size_t m2 = vc_range("n2", 0, BIG);
	uint8_t *o2 = vc_buf("out2", m2);
	size_t rc2 = s.read_some(o2, m2);
	vc_check(rc2 <= m2, "combined.count");
	vc_check(vc::implies((m2 != 0) & (g_n != rc), rc2 != 0), "combined.progress");
	vc_check(g_k < rc || g_k >= rc + rc2 || o2[g_k - rc] == g_v, "combined.rest-in-order");
	vc_reach("end");
}
VC_HARNESS(combined_write_to) {
	COMBINED
	g_max = vc_range("max", 0, BIG); g_rec = vc_buf("sink", g_max); g_done = 0; g_failed = false; g_base = 0;
	struct S : public OStream {
		size_t write_some(const uint8_t *val, size_t count) override {
			size_t c = vc::any<size_t>("accepted");
			vc_check(count <= g_max - g_done, "sink.never-offered-more-than-allowed");
			vc_assume(c <= count);
			if (g_base == 0 && g_sa->si == 0) g_base = g_na;
			std::memcpy(g_rec + g_done, val, c);
			g_done += c;
			g_failed = c == 0;
			return c;
		}
	} out;
	size_t total = s.write_to(out, g_max);
	vc_check((total == g_done) & (g_done <= g_max) & (g_done <= g_n), "write_to.returns-accepted-count");
	vc_check((g_done == g_max) | (g_done == g_n) | g_failed, "write_to.writes-all-that-is-accepted");
	vc_check(s.size() == g_n - g_done, "write_to.leaves-exactly-the-rest");
	vc_check(g_k >= g_done || g_rec[g_k] == g_v, "write_to.bytes-in-order");
	vc_reach("end");
}
// owning streams: moving and clearing keep or hand over exactly the unread bytes
static StringStream *mk_str(size_t &rd) {
	vc::Raw<std::string> v; vc_string(v.ptr(), "str");
	g_n = v->size();
	g_k = vc::any<size_t>("k");
	vc_assume(g_k < g_n);
	g_v = uint8_t(v->data()[g_k]);
	StringStream *s = new StringStream(std::move(*v));
	rd = vc_range("already_read", 0, BIG);
	vc_assume(rd <= g_n);
	uint8_t *tmp = vc_buf("tmp", rd);
	size_t rc = s->read_some(tmp, rd);
	vc_assume(rc == rd);  // shown by H_str_read_some
	return s;
}
static VectorStream *mk_vec(size_t &rd) {
	vc::Raw<bdata> v; vc_bytes(v.ptr(), "vec");
	g_n = v->size();
	g_k = vc::any<size_t>("k");
	vc_assume(g_k < g_n);
	g_v = v->data()[g_k];
	VectorStream *s = new VectorStream(std::move(*v));
	rd = vc_range("already_read", 0, BIG);
	vc_assume(rd <= g_n);
	uint8_t *tmp = vc_buf("tmp", rd);
	size_t rc = s->read_some(tmp, rd);
	vc_assume(rc == rd);
	return s;
}
// writing to it appends to what is still unread
template<typename S> static void check_append(S &s, size_t rd) {
	size_t m = vc_range("m", 0, BIG);
	uint8_t *in = vc_buf("in", m);
	size_t t = vc::any<size_t>("t");
	vc_assume(t < m);
	s.write_some(in, m);
	vc_check(s.size() == g_n - rd + m, "owning.size-after-write");
	size_t z = vc_range("z", 0, BIG);
	uint8_t *o = vc_buf("o", z);
	size_t rc = s.read_some(o, z);
	vc_check(rc == (z < g_n - rd + m ? z : g_n - rd + m), "owning.read-count");
	vc_check(g_n - rd + t >= rc || o[g_n - rd + t] == in[t], "owning.written-bytes-follow");
	if (g_k >= rd) vc_check(g_k - rd >= rc || o[g_k - rd] == g_v, "owning.unread-bytes-first");
	vc_reach("end");
}
VC_HARNESS(string_move) { size_t rd; StringStream *a = mk_str(rd); StringStream s(std::move(*a)); vc_check(s.size() == g_n - rd, "owning.size"); check_append(s, rd); }
VC_HARNESS(vector_move) { size_t rd; VectorStream *a = mk_vec(rd); VectorStream s(std::move(*a)); vc_check(s.size() == g_n - rd, "owning.size"); check_append(s, rd); }
VC_HARNESS(string_assign) { size_t rd; StringStream *a = mk_str(rd); StringStream s; s.write_byte(1); s = std::move(*a); vc_check(s.size() == g_n - rd, "owning.size"); check_append(s, rd); }
VC_HARNESS(vector_assign) { size_t rd; VectorStream *a = mk_vec(rd); VectorStream s; s.write_byte(1); s = std::move(*a); vc_check(s.size() == g_n - rd, "owning.size"); check_append(s, rd); }
VC_HARNESS(string_clear) {
	size_t rd; StringStream *s = mk_str(rd);
	std::string r = s->clear();
	vc_check((r.size() == g_n) && uint8_t(r.data()[g_k]) == g_v, "clear.returns-buffer");
	vc_check(s->size() == 0, "clear.empties");
	g_n = 0; g_k = size_t(1) << 50;
	check_append(*s, 0);
}
VC_HARNESS(vector_clear) {
	size_t rd; VectorStream *s = mk_vec(rd);
	bdata r = s->clear();
	vc_check((r.size() == g_n) && r.data()[g_k] == g_v, "clear.returns-buffer");
	vc_check(s->size() == 0, "clear.empties");
	g_n = 0; g_k = size_t(1) << 50;
	check_append(*s, 0);
}
