// C29: buffered socket. The queue of not yet sent pieces is abstracted to one stream of bytes: S bytes were taken by the system, E were
// accepted in total. std::deque and the string stream of C02 are replaced by their contracts, which say which part of the stream each
// piece holds; the system socket by "takes any part of what it is offered, or closes". Everything in BufferedTCPSocket itself is real.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/network.hxx>
#include <crab/network_posix_win.hxx>
#include <crab/crypto/base64.hxx>
#include <crab/crypto/sha1.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
#include <crab/http/request_parser.hxx>
#include <crab/http/response_parser.hxx>
#include <crab/http/web_message_parser.hxx>
#include <crab/http/crab_tls.hxx>
#include <crab/http/connection.hxx>
using namespace crab;
static const size_t BIG = size_t(1) << 40;
template<class T> union Hold { T v; Hold() {} ~Hold() {} };
static Hold<BufferedTCPSocket> g_s;
static Hold<StringStream> g_front, g_back;  // the first piece, and the last when there are more; the pieces between are never looked at
static uint64_t g_n, g_f, g_b;              // number of pieces, unsent size of the first and of the last
static uint64_t g_S, g_E;                   // stream positions: taken by the system, accepted
static uint64_t g_k; static uint8_t g_sent, g_queued;  // an arbitrary stream position, and what was sent / is queued there
static uint8_t *g_last;                     // text of the appended piece
static bool g_open, g_passed; static uint64_t g_passed_n, g_events, g_timers, g_cancels, g_discard, g_closes;
static uint64_t g_S0; static bool g_open0;  // at the start of the operation
typedef std::deque<StringStream> D;
namespace vcspec {
// pieces are contiguous and cover exactly the stream between S and E
bool shape(uint64_t n, uint64_t f, uint64_t b, uint64_t S, uint64_t E) {
	if (S > E || E > 4 * BIG) return false;
	if (n == 0) return S == E;
	if (f > E - S) return false;
	if (n == 1) return f == E - S;
	if (b > E - S - f) return false;
	return n != 2 || b == E - S - f;
}
}
static Hold<TCPSocket> g_t; static Hold<RunLoop> g_loop; static int g_errno; static const uint8_t *g_sys_p; static size_t g_sys_n, g_sys_calls; static int g_sys_fd; static ssize_t g_sys_r; static bool g_sys_again, g_unlinked;
static inline void put(const uint8_t *p, size_t c) {  // the system takes c bytes
	if (g_k >= g_S && g_k - g_S < c) g_sent = p[g_k - g_S];
	g_S += c;
}
static inline void closing() { if (vc::any<bool>("fails")) g_open = false; }
static inline void add(const uint8_t *p, size_t c) {  // a piece of the stream is queued
	if (g_k >= g_E && g_k - g_E < c) g_queued = p[g_k - g_E];
	g_E += c;
}
namespace vcrep {
bool dq_empty(const D *) { return g_n == 0; }
StringStream &dq_front(D *) { vc_check(g_n != 0, "queue.front-exists"); return g_front.v; }
StringStream &dq_back(D *) { vc_check(g_n != 0, "queue.back-exists"); return g_n == 1 ? g_front.v : g_back.v; }
void dq_pop_front(D *) {
	vc_check((g_n != 0) & (g_f == 0), "queue.no-bytes-dropped");
	g_n -= 1;
	if (g_n == 1) g_f = g_b;
	if (g_n > 1) { g_f = vc_range("next-piece", 0, 4 * BIG); vc_assume(vcspec::shape(g_n, g_f, g_b, g_S, g_E)); }
	else g_b = 0;
}
void dq_clear(D *) { g_n = 0; g_f = 0; g_b = 0; g_E = g_S; }
void dq_emplace_back(D *, std::string &&s) {
	add(reinterpret_cast<const uint8_t *>(s.data()), s.size());
	g_n += 1;
	if (g_n == 1) g_f = s.size(); else g_b = s.size();
	s.clear();
}
size_t ss_size(const IStringStream *s) { return s == static_cast<const IStringStream *>(&g_front.v) ? g_f : g_b; }
// C02: the unread part is offered until the sink takes no more
size_t ss_write_to(IStringStream *s, OStream &out, size_t max) {
	vc_check((s == static_cast<IStringStream *>(&g_front.v)) & (&out == static_cast<OStream *>(&g_s.v.sock)) & !g_passed, "drain.first-piece-to-socket");
	uint64_t c = vc_range("taken", 0, 4 * BIG);
	vc_assume((c <= g_f) & (c <= max) & (g_open | (c == 0)));
	if (g_k >= g_S && g_k - g_S < c) g_sent = g_queued;
	g_S += c; g_f -= c;
	closing();
	return c;
}
void os_write(OStream *o, const uint8_t *p, size_t c) {
	bool first = o == static_cast<OStream *>(&g_front.v);
	vc_check((g_n != 0) & (first ? g_n == 1 : (g_n > 1) & (o == static_cast<OStream *>(&g_back.v))), "queue.appends-to-last");
	add(p, c);
	if (first) g_f += c; else g_b += c;
}
bool sock_open(const TCPSocket *) { return g_open; }
size_t sock_write_some(TCPSocket *, const uint8_t *p, size_t n) {
	vc_check((g_S == g_E) & (g_n == 0), "direct.never-overtakes");
	vc_check(!g_passed, "direct.not-after-shutdown");
	uint64_t c = vc_range("taken-directly", 0, 4 * BIG);
	vc_assume((c <= n) & (g_open | (c == 0)));
	put(p, c);
	g_E += c;
	closing();
	return c;
}
size_t sock_read_some(TCPSocket *, uint8_t *, size_t n) { g_discard += 1; uint64_t c = vc_range("read", 0, 4 * BIG); vc_assume(c <= n); closing(); return c; }
void sock_shutdown(TCPSocket *) { vc_check((g_S == g_E) & (g_n == 0), "shutdown.after-everything"); vc_check(!g_passed, "shutdown.once"); g_passed = true; g_passed_n += 1; }
void sock_close(TCPSocket *, bool) { g_open = false; g_closes += 1; }
int *errno_loc() { return &g_errno; }
RunLoop *loop() { return &g_loop.v; }
void push_record(PerformanceStats *, const char *, int, int) {}
void fd_reset(details::FileDescriptor *f, int v) { f->value = v; g_closes += 1; }
void cancel_callable(Callable *c) { c->can_read = false; c->can_write = false; g_unlinked = true; }
void add_pending(Callable *c, bool r, bool w) { g_events += 1; c->can_read = c->can_read | r; c->can_write = c->can_write | w; }
static inline ssize_t sys_call(int fd, const void *p, size_t n) {
	g_sys_calls += 1; g_sys_fd = fd; g_sys_p = static_cast<const uint8_t *>(p); g_sys_n = n;
	g_sys_r = ssize_t(vc_any64("result"));
	vc_assume((g_sys_r >= -1) & ((g_sys_r < 0) | (size_t(g_sys_r) <= n)));
	g_sys_again = vc::any<bool>("again");
	if (g_sys_r < 0) { int e = int(vc_range("errno", 1, 200)); vc_assume(e != EAGAIN && e != EWOULDBLOCK); errno = g_sys_again ? EAGAIN : e; }
	return g_sys_r;
}
ssize_t sys_send(int fd, const void *p, size_t n, int flags) { vc_check((flags & MSG_NOSIGNAL) != 0, "send.no-signal"); return sys_call(fd, p, n); }
ssize_t sys_recv(int fd, void *p, size_t n, int) { return sys_call(fd, p, n); }
int sys_shutdown(int fd, int how) { g_sys_calls += 1; g_sys_fd = fd; vc_check(how == SHUT_WR, "shutdown.write-side"); return 0; }
void timer_once(Timer *, double) { g_timers += 1; }
void timer_cancel(Timer *) { g_cancels += 1; }
// contract of the private write(), proved by H_drain: a prefix of the queue is handed over, then the shutdown if it was waiting
void drain(BufferedTCPSocket *s) {
	vc_check((s == &g_s.v) & vcspec::shape(g_n, g_f, g_b, g_S, g_E) & (s->total_data_to_write == g_E - g_S), "drain.called-valid");
	uint64_t c = vc_range("drained", 0, 4 * BIG), n = vc_range("pieces-left", 0, BIG);
	vc_assume((c <= g_E - g_S) & (g_open | (c == 0)) & (n <= g_n));
	bool was = g_n != 0;
	if (g_k >= g_S && g_k - g_S < c) g_sent = g_queued;
	g_S += c; g_n = n; g_f = vc_range("first-left", 0, 4 * BIG); g_b = vc_range("last-left", 0, 4 * BIG);
	vc_assume(vcspec::shape(g_n, g_f, g_b, g_S, g_E));
	s->total_data_to_write = g_E - g_S;
	closing();
	if (s->write_shutdown_asked & was & (n == 0)) { vc_check(!g_passed, "shutdown.once"); g_passed = true; g_passed_n += 1; g_timers += 1; }
}
void handler(const std::function<void()> *) { g_events += 1; }
}
namespace vcinv {
bool wr_shape() { return vcspec::shape(g_n, g_f, g_b, g_S, g_E); }
bool wr_total() { return g_s.v.total_data_to_write == g_E - g_S; }
bool wr_closed() { return g_open0 | (!g_open & (g_S == g_S0)); }
bool wr_byte() { return (g_k >= g_S) | (g_k >= g_E) | (g_sent == g_queued); }
}
struct Env {
	uint64_t S0, E0, n0; uint8_t v0, q0, sent0; bool asked, open, passed;
	Env() {
		new (&g_front.v) StringStream(); new (&g_back.v) StringStream();
		g_open = vc::any<bool>("open"); asked = vc::any<bool>("asked");
		g_n = vc_range("pieces", 0, BIG); g_f = vc_range("first", 0, 4 * BIG); g_b = vc_range("last", 0, 4 * BIG);
		g_S = vc_range("sent", 0, BIG); g_E = vc_range("accepted", 0, 2 * BIG);
		vc_assume(vcspec::shape(g_n, g_f, g_b, g_S, g_E));
		g_passed = asked & (g_n == 0);
		g_k = vc_range("k", 0, 4 * BIG); g_sent = vc::any<uint8_t>("sent-byte"); g_queued = vc::any<uint8_t>("queued-byte");
		if (g_k < g_S || (g_k >= g_E)) g_queued = g_sent;  // only stands for the queued part
		g_s.v.total_data_to_write = g_E - g_S;
		g_s.v.write_shutdown_asked = asked;
		g_S0 = g_S; g_open0 = g_open; S0 = g_S; n0 = g_n; E0 = g_E; q0 = g_queued; sent0 = g_sent; open = g_open; passed = g_passed;
		g_passed_n = 0; g_events = 0; g_timers = 0; g_cancels = 0; g_discard = 0; g_closes = 0;
	}
	// what every operation keeps
	void valid() {
		vc_check(vcspec::shape(g_n, g_f, g_b, g_S, g_E), "valid.queue");
		vc_check(g_s.v.get_total_buffer_size() == g_E - g_S, "buffered-size");
		vc_check(!g_open | (g_passed == (g_s.v.write_shutdown_asked & (g_n == 0))), "shutdown.passed-when-drained");
		vc_check(g_timers == g_passed_n, "shutdown.timer");
		vc_check(open | !g_open, "closed.stays");
		vc_check(S0 <= g_S, "sent.grows");
		vc_check((g_k >= S0) | (g_sent == sent0), "sent.kept");
		if (g_k >= S0 && g_k < E0 && g_k < g_E) vc_check(g_k < g_S ? g_sent == q0 : g_queued == q0, "queued.sent-in-order");
	}
	void appended(const uint8_t *p, uint64_t n, bool flag) {
		bool take = open & !asked & flag;
		if (!take) vc_check((g_E == E0), "refused.adds-nothing");
		else if (g_open) vc_check(g_E == E0 + n, "accepted.all");
		if (g_k >= E0 && g_k < g_E) vc_check((g_k - E0 < n) && (g_k < g_S ? g_sent : g_queued) == p[g_k - E0], "accepted.bytes-in-order");
	}
};
VC_HARNESS(buffer) {
	Env e;
	size_t n = vc_range("count", 0, BIG);
	uint8_t *p = vc_buf("data", n);
	g_s.v.buffer(p, n);
	e.valid(); e.appended(p, n, true);
	vc_check(g_S == e.S0, "buffer.sends-nothing");
	vc_reach("done");
}
VC_HARNESS(buffer_string) {
	Env e;
	vc::Raw<std::string> s; vc_string(s.ptr(), "str");
	size_t n = s->size(), k = g_k - g_E; uint8_t want = k < n ? uint8_t(s->data()[k]) : 0;
	g_s.v.buffer(std::move(*s));
	e.valid();
	vc_check(g_E == e.E0 + (e.open & !e.asked ? n : 0), "accepted.all");
	if (g_k >= e.E0 && g_k < g_E) vc_check(g_queued == want, "accepted.bytes-in-order");
	vc_check(g_S == e.S0, "buffer.sends-nothing");
	vc_reach("done");
}
VC_HARNESS(write) {
	Env e;
	size_t n = vc_range("count", 0, BIG);
	uint8_t *p = vc_buf("data", n);
	BufferOptions bo = vc::any<bool>("only") ? BUFFER_ONLY : WRITE;
	g_s.v.write(p, n, bo);
	e.valid(); e.appended(p, n, true);
	vc_check(bo == WRITE || g_S == e.S0, "buffer.sends-nothing");
	vc_reach("done");
}
VC_HARNESS(write_string) {
	Env e;
	vc::Raw<std::string> s; vc_string(s.ptr(), "str");
	size_t n = s->size(), k = g_k - g_E; uint8_t want = k < n ? uint8_t(s->data()[k]) : 0;
	BufferOptions bo = vc::any<bool>("only") ? BUFFER_ONLY : WRITE;
	g_s.v.write(std::move(*s), bo);
	e.valid();
	vc_check(g_E == e.E0 + (e.open & !e.asked ? n : 0), "accepted.all");
	if (g_k >= e.E0 && g_k < g_E) vc_check((g_k < g_S ? g_sent : g_queued) == want, "accepted.bytes-in-order");
	vc_check(bo == WRITE || g_S == e.S0, "buffer.sends-nothing");
	vc_reach("done");
}
VC_HARNESS(write_some) {
	Env e;
	size_t n = vc_range("count", 0, BIG);
	uint8_t *p = vc_buf("data", n);
	size_t c = g_s.v.write_some(p, n);
	e.valid();
	vc_check((c <= n) & (g_E == e.E0 + c), "write_some.result");
	vc_check((c == 0) | (g_S == g_E), "write_some.direct");
	if (g_k >= e.E0 && g_k < g_E) vc_check(g_sent == p[g_k - e.E0], "accepted.bytes-in-order");
	vc_reach("done");
}
VC_HARNESS(drain) {
	Env e;
	g_s.v.write();
	e.valid();
	vc_check((g_E == e.E0) & (g_s.v.write_shutdown_asked == e.asked) & (g_n <= e.n0), "drain.adds-nothing");
	vc_check((e.open | ((g_S == e.S0) & !g_open)), "drain.closed-sends-nothing");
	vc_check((g_passed_n == uint64_t(e.asked & (e.n0 != 0) & (g_n == 0))) & (g_passed == (e.passed | (g_passed_n == 1))) & (g_events + g_closes + g_cancels + g_discard == 0), "drain.shutdown");
	vc_reach("done");
}
VC_HARNESS(write_shutdown) {
	Env e;
	g_s.v.write_shutdown();
	e.valid();
	vc_check((g_S == e.S0) & (g_E == e.E0), "shutdown.no-data");
	vc_check(g_s.v.write_shutdown_asked == (e.open | e.asked), "shutdown.asked");
	vc_reach("done");
}
VC_HARNESS(read_some) {
	Env e;
	uint8_t d[16];
	size_t c = g_s.v.read_some(d, 16);
	vc_check((c <= 16) & (!e.asked | ((c == 0) & (g_discard == 0))), "read_some.nothing-after-shutdown");
	e.valid();
}
VC_HARNESS(sock_event) {
	Env e;
	g_s.v.sock_handler();
	vc_check(g_events == 1, "event.delivered-once");
	if (e.open) { e.valid(); vc_check(g_E == e.E0, "event.adds-nothing"); vc_check((g_discard == 0) | (e.asked & g_passed), "event.discards-only-after-shutdown"); }
	else vc_check((g_n == 0) & (g_s.v.get_total_buffer_size() == 0) & !g_s.v.write_shutdown_asked & !g_open, "closed.clean");
	vc_reach("done");
}
VC_HARNESS(close) {
	Env e;
	if (vc::any<bool>("timeout")) { g_s.v.shutdown_timer_handler(); vc_check(g_events == 1, "event.delivered-once"); }
	else g_s.v.close(vc::any<bool>("event"));
	vc_check((g_n == 0) & (g_s.v.get_total_buffer_size() == 0) & !g_s.v.write_shutdown_asked & !g_open & (g_closes == 1) & (g_cancels == 1), "closed.clean");
	vc_check(g_S == e.S0, "close.sends-nothing");
	vc_reach("done");
}
// the contract of the system socket used above, from the real TCPSocket (system calls replaced)
struct SysEnv {
	int fd; bool can; size_t n; uint8_t *p;
	SysEnv(bool reading) {
		fd = int(vc_range("fd", 0, 1 << 20)) - 1;
		can = vc::any<bool>("can");
		g_t.v.fd.value = fd;
		g_t.v.rwd_handler.can_read = reading ? can : vc::any<bool>("other");
		g_t.v.rwd_handler.can_write = reading ? vc::any<bool>("other") : can;
		new (&g_t.v.rwd_handler.triggered_callables_node) IntrusiveNode<Callable>();
		n = vc_range("count", 0, BIG); p = vc_buf("data", n);
		g_sys_calls = 0; g_closes = 0; g_events = 0; g_unlinked = false; g_errno = 0; g_sys_r = 0; g_sys_n = 0; g_sys_p = nullptr; g_sys_again = false; g_sys_fd = -1;
	}
	void check(size_t c, bool reading) {
		vc_check(g_sys_calls == uint64_t((fd >= 0) & can), "system.called-once-when-ready");
		vc_check((c <= n) & (c == (g_sys_calls && g_sys_r > 0 ? size_t(g_sys_r) : 0)), "system.result");
		if (!g_sys_calls) { vc_check((g_closes == 0) & (g_t.v.fd.value == fd) & (g_events == 0), "system.untouched"); return; }
		vc_check((g_sys_p == p) & (g_sys_n == n) & (g_sys_fd == fd), "system.whole-request");
		bool dead = g_sys_r < 0 ? !g_sys_again : reading & (g_sys_r == 0);
		vc_check(dead ? (g_closes == 1) & (g_events == 1) & g_unlinked & (g_t.v.fd.value < 0) : (g_closes == 0) & (g_events == 0) & (g_t.v.fd.value == fd), "system.error-closes-with-event");
		if (!dead) vc_check((reading ? g_t.v.rwd_handler.can_read : g_t.v.rwd_handler.can_write) == (g_sys_r >= 0), "system.waits-for-readiness");
		vc_reach("called");
	}
};
VC_HARNESS(sys_write) { SysEnv e(false); size_t c = g_t.v.write_some(e.p, e.n); e.check(c, false); }
VC_HARNESS(sys_read) { SysEnv e(true); size_t c = g_t.v.read_some(e.p, e.n); e.check(c, true); }
VC_HARNESS(sys_shutdown) {
	SysEnv e(false);
	g_t.v.write_shutdown();
	vc_check((g_sys_calls == uint64_t((e.fd >= 0) & e.can)) & ((g_sys_calls == 0) | (g_sys_fd == e.fd)) & (g_closes == 0), "shutdown.passed-to-system");
}
