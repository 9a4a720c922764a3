// C28: response body writer. Everything the connection hands to its socket is one stream of bytes; each operation appends exactly the
// bytes the framing asks for. The socket (C29), timers and the parsers' reset are replaced by recording contracts.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/network.hxx>
#include <crab/network_posix_win.hxx>
#include <crab/crypto/base64.hxx>
#include <crab/crypto/sha1.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
#include <crab/http/request_parser.hxx>
#include <crab/http/response_parser.hxx>
#include <crab/http/web_message_parser.hxx>
#include <crab/http/crab_tls.hxx>
#include <crab/http/connection.hxx>
#include <crab/http/server.hxx>
using namespace crab::http;
typedef crab::BufferOptions BO;
static const size_t BIG = size_t(1) << 40;
template<class T> union Hold { T v; Hold() {} ~Hold() {} };
// ---- what was sent so far: length, and the byte at an arbitrary position
static uint64_t g_total, g_k; static uint8_t g_byte; static unsigned g_shutdowns, g_reset, g_flushes; static bool g_open, g_after_shutdown; static std::string *g_head; static uint64_t g_digits;
static inline void sink(const uint8_t *p, size_t n) {
	if (g_k >= g_total && g_k - g_total < n) g_byte = p[g_k - g_total];
	g_total += n;
	g_after_shutdown = g_after_shutdown | ((g_shutdowns != 0) & (n != 0));
}
namespace vcspec {
uint64_t hex_digits(uint64_t v) {
	uint64_t n = 1;
	for (int i = 1; i != 16; ++i) n += v >> (4 * i) != 0;
	return n;
}
char hex_text(uint64_t v, uint64_t digits, uint64_t i, bool upper, char old) {
	if (i > digits + 2) return old;
	if (i >= digits) return i == digits ? '\r' : i == digits + 1 ? '\n' : 0;
	unsigned d = unsigned(v >> (4 * ((digits - 1 - i) & 15))) & 15;
	return char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
}
}
namespace vcrep {
void sock_write(crab::BufferedTCPSocket *, const uint8_t *p, size_t n, BO bo) { sink(p, n); if (bo == crab::WRITE) g_flushes += 1; }
void sock_write_s(crab::BufferedTCPSocket *, std::string &&s, BO bo) { sink(reinterpret_cast<const uint8_t *>(s.data()), s.size()); s.clear(); if (bo == crab::WRITE) g_flushes += 1; }
void sock_buffer(crab::BufferedTCPSocket *, const uint8_t *p, size_t n) { sink(p, n); }
void sock_buffer_s(crab::BufferedTCPSocket *, std::string &&s) { sink(reinterpret_cast<const uint8_t *>(s.data()), s.size()); s.clear(); }
void sock_shutdown(crab::BufferedTCPSocket *) { g_shutdowns += 1; }
bool sock_open(const crab::TCPSocketTLS *) { return g_open; }
void timer_once(crab::Timer *, double) {}
void timer_cancel(crab::Timer *) {}
void parser_ctor(RequestParser *) {}
void parser_dtor(RequestParser *) {}
RequestParser &parser_assign(RequestParser *a, RequestParser &&) { g_reset += 1; return *a; }
std::string head_text(const ResponseHeader *) { return *g_head; }
// sprintf(buf, "%llx\r\n", value)
int sprintf_hex(char *buf, const char *fmt, unsigned long long value) {
	bool upper = fmt[3] == 'X';
	vc_check((fmt[0] == '%') & (fmt[1] == 'l') & (fmt[2] == 'l') & ((fmt[3] == 'x') | upper) & (fmt[4] == '\r') & (fmt[5] == '\n') & (fmt[6] == 0), "sprintf.format");
	uint64_t digits = vcspec::hex_digits(value);
	if (digits == g_digits) digits = g_digits;
	for (uint64_t i = 0; i != 19; ++i) buf[i] = vcspec::hex_text(value, digits, i, upper, buf[i]);
	return int(digits + 2);
}
}
namespace spec {
inline uint8_t hex_char(uint64_t d) { return uint8_t(d < 10 ? '0' + d : 'a' + d - 10); }
inline uint8_t lower(uint8_t c) { return c >= 'A' && c <= 'F' ? uint8_t(c + 32) : c; }
// RFC 7230, 4.1: chunk-size CRLF chunk-data CRLF (chunk-size in either case)
// h: number of hexadecimal digits of n
uint64_t chunk_len(uint64_t n, uint64_t h) { return n == 0 ? 0 : h + 2 + n + 2; }
bool chunk_at(uint8_t got, uint64_t j, const uint8_t *p, uint64_t n, uint64_t h) {
	if (j < h) return lower(got) == hex_char(n >> (4 * ((h - 1 - j) & 15)) & 15);
	if (j < h + 2) return got == (j == h ? '\r' : '\n');
	if (j < h + 2 + n) return got == p[j - h - 2];
	return got == (j == h + 2 + n ? '\r' : '\n');
}
// RFC 6455, 5.2: unmasked frame header
uint64_t frame_len(uint64_t n) { return (n < 126 ? 2 : n < 65536 ? 4 : 10) + n; }
bool frame_at(uint8_t got, uint64_t j, bool fin, int opcode, const uint8_t *p, uint64_t n) {
	uint64_t h = n < 126 ? 2 : n < 65536 ? 4 : 10;
	if (j == 0) return got == uint8_t((fin ? 0x80 : 0) | opcode);
	if (j == 1) return got == (n < 126 ? uint8_t(n) : n < 65536 ? 126 : 127);
	if (j < h) return got == uint8_t(n >> (8 * ((h - 1 - j) & 7)));
	return got == p[j - h];
}
bool last_chunk_at(uint8_t got, uint64_t j) { return got == (j == 0 ? '0' : j == 1 || j == 3 ? '\r' : '\n'); }
}
// number of hexadecimal digits of n (at most 2^40), one path per number
static uint64_t digits_of(uint64_t n) {
	for (uint64_t d = 1; d != 12; ++d) if (n >> (4 * d) == 0) { vc_reach("digits"); return d; }
	return 12;
}
struct Env {
	Hold<Client> c;
	const uint8_t *p; size_t n; uint64_t remaining, position; bool keep_alive, flush; BO bo;
	Env(bool body, bool ws, bool known_length) {
		new (&c.v.read_buffer) crab::Buffer(16); c.v.read_buffer.read_pos = vc_range("read-pos", 0, 15); c.v.read_buffer.write_pos = c.v.read_buffer.read_pos + vc_range("received", 0, 16);
		c.v.state = body ? ServerConnection::RESPONSE_BODY : ServerConnection::State(vc_range("state", 0, ServerConnection::WEB_MESSAGE_READY));
		c.v.writing_web_message_body = ws;
		remaining = vc::any<uint64_t>("remaining");
		*c.v.remaining_body_content_length = remaining; c.v.remaining_body_content_length.valid = known_length;
		keep_alive = c.v.request_parser.req.keep_alive = vc::any<bool>("keep-alive");
		position = c.v.body_position = vc::any<uint64_t>("position");
		new (&static_cast<Client &>(c.v).rwd_handler) crab::Handler();
		flush = vc::any<bool>("flush"); bo = flush ? crab::WRITE : crab::BUFFER_ONLY;
		g_total = 0; g_k = vc_range("k", 0, 4 * BIG); g_byte = 0; g_shutdowns = 0; g_reset = 0; g_flushes = 0; g_open = true; g_after_shutdown = false;
	}
	// write n bytes through one of the four ways; true: accepted
	vc::Raw<std::string> raw;
	bool write(bool string, bool client, bool chunked = false) {
		n = vc_range("n", 0, BIG); p = vc_buf("data", n);
		g_digits = chunked ? digits_of(n) : 1;
		std::string s(reinterpret_cast<const char *>(p), n);
		ServerConnection &sc = c.v;
		try {
			if (client) { if (string) c.v.write(std::move(s), bo); else c.v.write(p, n, bo); }
			else { if (string) sc.write(std::move(s), bo); else sc.write(p, n, bo); }
		} catch (const std::exception &) { return false; }
		return true;
	}
	void unchanged(const char *name) {
		vc_check(g_total == 0 && g_shutdowns == 0 && g_reset == 0, name);
		vc_check(c.v.body_position == position, "rejected.position");
		vc_check(*c.v.remaining_body_content_length == remaining, "rejected.remaining");
	}
	// the exchange is over: a new request may come, or the connection is shut down
	void finished(bool over) {
		vc_check((c.v.state == ServerConnection::REQUEST_HEADER) == over && (over || c.v.state == ServerConnection::RESPONSE_BODY), "state");
		vc_check((g_reset != 0) == over, "parser-reset");
		vc_check(g_shutdowns == (over && !keep_alive ? 1u : 0u), "shutdown");
		vc_check(!g_after_shutdown, "nothing-after-shutdown");
	}
};
static void length(bool string) {
	Env e(true, false, true);
	bool client = vc::any<bool>("client");
	bool ok = e.write(string, client);
	vc_check(ok == (e.n <= e.remaining), "length.overshoot-throws");
	if (!ok) { vc_reach("overshoot"); e.unchanged("length.overshoot-sends-nothing"); vc_check(e.c.v.state == ServerConnection::RESPONSE_BODY, "length.state-kept"); return; }
	vc_reach("written");
	vc_check(g_total == e.n, "length.bytes");
	vc_check(g_k >= e.n || g_byte == e.p[g_k], "length.content");
	vc_check(*e.c.v.remaining_body_content_length == e.remaining - e.n, "length.remaining");
	e.finished(e.n == e.remaining);
	if (client) vc_check(e.c.v.body_position == e.position + e.n, "length.position");
	vc_check(!e.flush || g_flushes != 0, "length.flush");
}
VC_HARNESS(length) { length(false); }
VC_HARNESS(length_string) { length(true); }
static void chunk(bool string) {
	Env e(true, false, false);
	bool client = vc::any<bool>("client");
	bool ok = e.write(string, client, true);
	vc_check(ok, "chunk.accepted");
	const uint64_t h = g_digits;
	vc_reach("written");
	vc_check(g_total == spec::chunk_len(e.n, h), "chunk.bytes");
	vc_check(g_k >= spec::chunk_len(e.n, h) || spec::chunk_at(g_byte, g_k, e.p, e.n, h), "chunk.content");
	e.finished(false);
	if (client) vc_check(e.c.v.body_position == e.position + e.n, "chunk.position");
	vc_check(!e.flush || e.n == 0 || g_flushes != 0, "chunk.flush");
}
VC_HARNESS(chunk) { chunk(false); }
VC_HARNESS(chunk_string) { chunk(true); }
static void frame(bool string) {
	Env e(false, true, vc::any<bool>("known"));
	e.c.v.state = ServerConnection::State(vc_range("ws-state", ServerConnection::WEB_MESSAGE_HEADER, ServerConnection::WEB_MESSAGE_READY));
	ServerConnection::State st = e.c.v.state;
	bool client = vc::any<bool>("client");
	bool ok = e.write(string, client);
	vc_check(ok, "frame.accepted");
	vc_reach("written");
	uint64_t len = e.n == 0 ? 0 : spec::frame_len(e.n);
	vc_check(g_total == len, "frame.bytes");
	vc_check(g_k >= len || spec::frame_at(g_byte, g_k, false, 0, e.p, e.n), "frame.content");
	vc_check(e.c.v.state == st && e.c.v.writing_web_message_body && g_shutdowns == 0 && g_reset == 0, "frame.state");
	if (client) vc_check(e.c.v.body_position == e.position + e.n, "frame.position");
	vc_check(!e.flush || e.n == 0 || g_flushes != 0, "frame.flush");
}
VC_HARNESS(frame) { frame(false); }
VC_HARNESS(frame_string) { frame(true); }
VC_HARNESS(not_writing) {
	Env e(false, false, vc::any<bool>("known"));
	if (e.c.v.state == ServerConnection::RESPONSE_BODY) return;
	ServerConnection::State st = e.c.v.state;
	bool last = vc::any<bool>("last"), ok = true;
	if (last) { try { if (vc::any<bool>("client")) e.c.v.write_last_chunk(e.bo); else static_cast<ServerConnection &>(e.c.v).write_last_chunk(e.bo); } catch (const std::exception &) { ok = false; } }
	else ok = e.write(vc::any<bool>("string"), vc::any<bool>("client"));
	vc_check(!ok, "not-writing.throws");
	vc_reach("refused");
	e.unchanged("not-writing.sends-nothing");
	vc_check(e.c.v.state == st, "not-writing.state");
}
VC_HARNESS(last_chunk) {
	bool known = vc::any<bool>("known");
	Env e(true, false, known);
	bool ok = true;
	try { if (vc::any<bool>("client")) e.c.v.write_last_chunk(e.bo); else static_cast<ServerConnection &>(e.c.v).write_last_chunk(e.bo); } catch (const std::exception &) { ok = false; }
	vc_check(ok == !known, "last-chunk.only-chunked");
	if (!ok) { vc_reach("refused"); e.unchanged("last-chunk.refused-sends-nothing"); vc_check(e.c.v.state == ServerConnection::RESPONSE_BODY, "last-chunk.refused-state"); return; }
	vc_reach("written");
	vc_check(g_total == 5, "last-chunk.bytes");
	vc_check(g_k >= 5 || spec::last_chunk_at(g_byte, g_k), "last-chunk.content");
	e.finished(true);
	vc_check(!e.flush || g_flushes != 0, "last-chunk.flush");
}
VC_HARNESS(last_frame) {
	Env e(false, true, vc::any<bool>("known"));
	e.c.v.state = ServerConnection::State(vc_range("ws-state", ServerConnection::WEB_MESSAGE_HEADER, ServerConnection::WEB_MESSAGE_READY));
	ServerConnection::State st = e.c.v.state;
	bool ok = true;
	try { if (vc::any<bool>("client")) e.c.v.write_last_chunk(e.bo); else static_cast<ServerConnection &>(e.c.v).write_last_chunk(e.bo); } catch (const std::exception &) { ok = false; }
	vc_check(ok, "last-frame.accepted");
	vc_reach("written");
	vc_check(g_total == 2, "last-frame.bytes");
	vc_check(g_k >= 2 || spec::frame_at(g_byte, g_k, true, 0, nullptr, 0), "last-frame.content");
	vc_check(!e.c.v.writing_web_message_body && e.c.v.state == st && g_shutdowns == 0 && g_reset == 0, "last-frame.state");
	vc_check(!e.flush || g_flushes != 0, "last-frame.flush");
}
// the first frame of a streamed message
VC_HARNESS(start_message) {
	Env e(false, vc::any<bool>("busy"), vc::any<bool>("known"));
	bool busy = e.c.v.writing_web_message_body;
	ServerConnection::State st = e.c.v.state;
	int op = int(vc_range("opcode", 0, 15));
	bool want = !busy && st >= ServerConnection::WEB_MESSAGE_HEADER && (op == 1 || op == 2), ok = true;
	try { static_cast<ServerConnection &>(e.c.v).write(WebMessageOpcode(op)); } catch (const std::exception &) { ok = false; }
	vc_check(ok == want, "start-message.accepted");
	vc_check(e.c.v.state == st, "start-message.state");
	if (!ok) { vc_reach("refused"); e.unchanged("start-message.refused-sends-nothing"); vc_check(e.c.v.writing_web_message_body == busy, "start-message.refused-state"); return; }
	vc_reach("written");
	vc_check(g_total == 2, "start-message.bytes");
	vc_check(g_k >= 2 || spec::frame_at(g_byte, g_k, false, op, nullptr, 0), "start-message.content");
	vc_check(e.c.v.writing_web_message_body && g_shutdowns == 0 && g_reset == 0, "start-message.writing");
}
// ---- headers: only with a framing, and the body writer starts from it
static void setup_header(ResponseHeader &h) {
	h.transfer_encoding_chunked = vc::any<bool>("chunked");
	h.content_length.valid = vc::any<bool>("has-length"); *h.content_length = vc::any<uint64_t>("length");
	h.status = 200; h.connection_upgrade = false; h.upgrade_websocket = false;
}
VC_HARNESS(header) {
	Env e(false, vc::any<bool>("ws"), vc::any<bool>("known"));
	ServerConnection::State st = e.c.v.state;
	Hold<ResponseHeader> h;
	setup_header(h.v);
	vc::Raw<std::string> text;
	vc_string(text.ptr(), "head"); std::string head = std::move(*text); g_head = &head;
	bool ok = true;
	e.c.v.request_parser.req.http_version_major = 1; e.c.v.request_parser.req.http_version_minor = int(vc_range("minor", 0, 1));
	try { static_cast<ServerConnection &>(e.c.v).write(h.v, e.bo); } catch (const std::exception &) { ok = false; }
	vc_check(ok == (st == ServerConnection::RESPONSE_HEADER && (h.v.transfer_encoding_chunked || h.v.content_length.has_value())), "header.accepted");
	if (!ok) { vc_reach("refused"); e.unchanged("header.refused-sends-nothing"); vc_check(e.c.v.state == st, "header.refused-state"); return; }
	vc_reach("written");
	vc_check(g_total == head.size() && (g_k >= head.size() || g_byte == uint8_t(head[g_k])), "header.content");
	vc_check(e.c.v.state == ServerConnection::RESPONSE_BODY, "header.state");
	vc_check(e.c.v.remaining_body_content_length.has_value() == h.v.content_length.has_value(), "header.framing");
	vc_check(!h.v.content_length.has_value() || *e.c.v.remaining_body_content_length == *h.v.content_length, "header.length");
	vc_check(h.v.keep_alive == e.keep_alive && h.v.http_version_major == 1 && h.v.http_version_minor == e.c.v.request_parser.req.http_version_minor, "header.version");
	vc_check(g_shutdowns == 0 && g_reset == 0, "header.no-shutdown");
}
// a whole response: head, body in its framing (by the contract of write(std::string), proved above), terminator
static unsigned g_bodies; static uint64_t g_body_at; static size_t g_body_n; static uint8_t g_body_byte;
namespace vcrep {
void body_write(ServerConnection *c, std::string &&s, BO bo) {
	vc_check(c->state == ServerConnection::RESPONSE_BODY && !c->writing_web_message_body, "response.body-state");
	const bool known = c->remaining_body_content_length.has_value();
	if (known && s.size() > *c->remaining_body_content_length) throw std::logic_error("overshoot");
	g_bodies += 1; g_body_at = g_total; g_body_n = s.size();
	if (g_k < s.size()) g_body_byte = uint8_t(s[g_k]);
	if (bo == crab::WRITE) g_flushes += 1;
	if (!known) return;
	*c->remaining_body_content_length -= s.size();
	if (*c->remaining_body_content_length == 0) {
		if (!c->request_parser.req.keep_alive) g_shutdowns += 1;
		g_reset += 1; c->state = ServerConnection::REQUEST_HEADER;
	}
}
}
VC_HARNESS(response) {
	Env e(false, false, vc::any<bool>("known"));
	e.c.v.state = ServerConnection::RESPONSE_HEADER;
	Hold<Response> r;
	setup_header(r.v.header);
	bool chunked = r.v.header.transfer_encoding_chunked, known = r.v.header.content_length.has_value(); uint64_t length = *r.v.header.content_length;
	if (chunked == known) return;
	vc::Raw<std::string> text;
	vc_string(text.ptr(), "head"); std::string head = std::move(*text); g_head = &head;
	size_t n = vc_range("n", 0, BIG); const uint8_t *p = vc_buf("data", n);
	new (&r.v.body) std::string(reinterpret_cast<const char *>(p), n);
	e.c.v.request_parser.req.http_version_major = 1; e.c.v.request_parser.req.http_version_minor = 1;
	g_bodies = 0; g_body_byte = 0; g_body_at = 0; g_body_n = 0;
	bool ok = true;
	try { static_cast<ServerConnection &>(e.c.v).write(std::move(r.v)); } catch (const std::exception &) { ok = false; }
	vc_check(ok == (chunked || n <= length), "response.overshoot-throws");
	if (!ok) { vc_reach("overshoot"); vc_check(g_total == head.size() && g_flushes == 0 && g_bodies == 0, "response.overshoot-sends-nothing"); return; }
	vc_reach("written");
	uint64_t h = head.size();
	vc_check(g_total == h + (chunked ? 5 : 0), "response.bytes");
	vc_check(g_k >= h || g_byte == uint8_t(head[g_k]), "response.head");
	vc_check(g_bodies == 1 && g_body_at == h && g_body_n == n, "response.body-once");
	vc_check(g_k >= n || g_body_byte == p[g_k], "response.body");
	vc_check(g_k < h || g_k >= g_total || spec::last_chunk_at(g_byte, g_k - h), "response.terminator");
	vc_check(g_flushes != 0, "response.flush");
	e.finished(chunked || n == length);
}
VC_HARNESS(closed) {
	Env e(false, vc::any<bool>("ws"), vc::any<bool>("known"));
	g_open = false;
	ServerConnection::State st = e.c.v.state;
	Hold<ResponseHeader> h;
	setup_header(h.v);
	if (vc::any<bool>("header")) static_cast<ServerConnection &>(e.c.v).write(h.v, e.bo); else static_cast<ServerConnection &>(e.c.v).write(WebMessageOpcode(1));
	e.unchanged("closed.sends-nothing");
	vc_check(e.c.v.state == st, "closed.state");
	vc_reach("closed");
}
// streaming starts at position zero with the handler called once
static unsigned g_calls; static Client *g_client; static uint64_t g_seen;
static void on_event() { g_calls += 1; g_seen = g_client->body_position; }
namespace vcrep { const std::string &date() { return *g_head; } }
VC_HARNESS(start_stream) {
	bool message = vc::any<bool>("message");
	Env e(false, false, false);
	e.c.v.state = message ? ServerConnection::WEB_MESSAGE_HEADER : ServerConnection::RESPONSE_HEADER;
	Hold<ResponseHeader> h;
	setup_header(h.v);
	h.v.transfer_encoding_chunked = true;
	std::string date("d");
	new (&h.v.date) std::string(); new (&h.v.server) std::string("s");
	g_head = &date;
	new (&e.c.v.d_handler) crab::Handler();
	g_calls = 0; g_client = &e.c.v;
	if (message) e.c.v.start_write_stream(WebMessageOpcode(2), crab::Handler(on_event)); else e.c.v.start_write_stream(h.v, crab::Handler(on_event));
	vc_check(e.c.v.body_position == 0 && g_calls == 1 && g_seen == 0, "start-stream.position");
	vc_check(static_cast<ServerConnection &>(e.c.v).is_writing_body(), "start-stream.writing");
	vc_reach("started");
}
