// C30: message assembly of the connections. One turn of advance_state: whatever state the connection is in and whatever the frame parsers
// (C17, C19, C20-C22) deliver, the message under assembly, the replies and the delivery are what RFC 6455 section 5.4-5.5 asks for.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/network.hxx>
#include <crab/network_posix_win.hxx>
#include <crab/crypto/base64.hxx>
#include <crab/crypto/sha1.hxx>
#include <crab/http/query_parser.hxx>
#include <crab/http/types.hxx>
#include <crab/http/request_parser.hxx>
#include <crab/http/response_parser.hxx>
#include <crab/http/web_message_parser.hxx>
#include <crab/http/crab_tls.hxx>
#include <crab/http/connection.hxx>
using namespace crab; using namespace crab::http;
static const size_t BIG = size_t(1) << 40;
template<class T> union Hold { T v; Hold() {} ~Hold() {} };
static Hold<ServerConnection> g_sv; static Hold<ClientConnection> g_cl;
static unsigned g_handler, g_reads, g_heads, g_bodies, g_shut, g_cleared, g_cancel, g_sends, g_utf, g_adv, g_sclose, g_http, g_hbody, g_ctor, g_reset;
static int g_op; static bool g_fin;  // header of the frame
static bool g_hgood, g_bgood, g_threw, g_utf_ok, g_hgood2, g_bgood2;
static uint64_t g_k, g_sent_n, g_utf_n; static uint8_t g_sent_c, g_utf_c; static int g_sent_op, g_sent_code;  // what was sent / asked at the arbitrary position k
static uint64_t g_text_n; static uint8_t g_text_c; static uint8_t g_text_0, g_text_1, g_text_k2;              // the frame's payload
static inline uint8_t at(const std::string &s, uint64_t k) { return k < s.size() ? uint8_t(s[k]) : 0; }
namespace vcrep {
size_t read_from(Buffer *, IStream &) { g_reads += 1; return g_reads == 1 ? 1 : 0; }
void buf_clear(Buffer *) { g_cleared += 1; }
static inline void may_throw() { if (vc::any<bool>("malformed")) { g_threw = true; throw std::runtime_error("malformed"); } }
void wm_head(WebMessageHeaderParser *p, Buffer &) {
	g_heads += 1;
	vc_check(p->state != WebMessageHeaderParser::GOOD, "frame.header-parsed-once");
	may_throw();
	g_hgood = vc::any<bool>("header-complete");
	if (!g_hgood) return;
	p->state = WebMessageHeaderParser::GOOD;
	uint64_t i = vc_range("opcode", 0, 5);
	p->opcode = i < 3 ? int(i) : int(i) + 5;  // C17: 0 1 2 8 9 10
	p->fin = vc::any<bool>("fin") | (p->opcode >= 8);
	g_op = p->opcode; g_fin = p->fin;
	p->payload_len = vc_range("payload", 0, p->opcode >= 8 ? 125 : BIG);
}
void wm_body(WebMessageBodyParser *p, Buffer &) {
	g_bodies += 1;
	may_throw();
	g_bgood = vc::any<bool>("payload-complete");
	if (!g_bgood) { p->state = WebMessageBodyParser::BODY; return; }
	p->state = WebMessageBodyParser::GOOD;
	vc_string(&p->body.impl, "frame");
	p->body.read_pos = 0;
	const std::string &s = p->body.impl;
	g_text_n = s.size(); g_text_c = at(s, g_k); g_text_0 = at(s, 0); g_text_1 = at(s, 1); g_text_k2 = at(s, g_k + 2);
}
void req_parse(RequestParser *p, Buffer &) { g_http += 1; may_throw(); g_hgood2 = vc::any<bool>("head-complete"); if (g_hgood2) p->state = RequestParser::GOOD; }
void resp_parse(ResponseParser *p, Buffer &) { g_http += 1; may_throw(); g_hgood2 = vc::any<bool>("head-complete"); if (g_hgood2) p->state = ResponseParser::GOOD; }
void body_parse(BodyParser *p, Buffer &) { g_hbody += 1; may_throw(); g_bgood2 = vc::any<bool>("body-complete"); p->state = g_bgood2 ? BodyParser::GOOD : BodyParser::CHUNK_SIZE; }
static optional<uint64_t> g_ctor_len; static bool g_ctor_chunked;
void body_ctor(BodyParser *, optional<uint64_t> len, bool chunked) { g_ctor += 1; g_ctor_len = len; g_ctor_chunked = chunked; }
BodyParser &body_assign(BodyParser *a, BodyParser &&) { return *a; }
void body_dtor(BodyParser *) {}
void shutdown(BufferedTCPSocket *) { g_shut += 1; }
void sclose(BufferedTCPSocket *, bool) { g_sclose += 1; }
void timer_cancel(Timer *) { g_cancel += 1; }
void dns_cancel(DNSResolver *) {}
static inline void record(const WebMessage &m) { g_sends += 1; g_sent_op = int(m.opcode); g_sent_n = m.body.size(); g_sent_c = at(m.body, g_k); g_sent_code = m.close_code; }
void send_sv(ServerConnection *, WebMessage &&m, BufferOptions) { record(m); }
void send_cl(ClientConnection *, WebMessage &&m) { record(m); }
bool utf8(const uint8_t *p, size_t n) { g_utf += 1; g_utf_n = n; g_utf_c = g_k < n ? p[g_k] : 0; g_utf_ok = vc::any<bool>("utf8"); return g_utf_ok; }
void handler(const std::function<void()> *) { g_handler += 1; }
static std::string *g_expect; static std::string g_key_seen; static unsigned g_keys; static const std::string *g_key;
void accept_key(std::string *out, const std::string &key) { g_keys += 1; g_key = &key; new (out) std::string(*g_expect); }
static bool g_open, g_advanced;
bool tcp_open(const BufferedTCPSocket *) { return g_open; }
bool advance_sv(ServerConnection *) { g_adv += 1; g_advanced = vc::any<bool>("advanced"); return g_advanced; }
bool advance_cl(ClientConnection *) { g_adv += 1; g_advanced = vc::any<bool>("advanced"); return g_advanced; }
}
static inline void fresh() {
	g_handler = g_reads = g_heads = g_bodies = g_shut = g_cleared = g_cancel = g_sends = g_utf = g_adv = g_sclose = g_http = g_hbody = g_ctor = g_reset = 0;
	g_hgood = g_bgood = g_threw = g_utf_ok = g_hgood2 = g_bgood2 = false;
	g_sent_n = g_utf_n = 0; g_sent_c = g_utf_c = 0; g_sent_op = g_sent_code = -1; g_text_n = 0; g_text_c = g_text_0 = g_text_1 = g_text_k2 = 0;
	g_k = vc_range("k", 0, 2 * BIG);
}
template<class C> struct Env {
	C &c; bool has; int op; uint64_t n, nk; uint8_t oc, oc2; uint16_t code; unsigned st; WebMessageHeaderParser::State hs; int ho; bool hf; uint64_t hl; WebMessageBodyParser::State bs;
	explicit Env(C &c, unsigned lo, unsigned hi) : c(c) {
		fresh();
		new (&c.read_buffer) Buffer(8);
		new (&c.wm_header_parser) WebMessageHeaderParser();
		new (&c.wm_body_parser) WebMessageBodyParser();
		c.sock.total_data_to_write = 0;
		st = unsigned(vc_range("state", lo, hi));
		c.state = typename C::State(st);
		has = vc::any<bool>("assembling");
		c.web_message.valid = has;
		op = vc::any<bool>("text") ? 1 : 2;
		c.web_message.impl.opcode = WebMessageOpcode(op);
		code = vc::any<uint16_t>("code");
		c.web_message.impl.close_code = code;
		vc_string(&c.web_message.impl.body, "part");
		n = c.web_message.impl.body.size(); oc = at(c.web_message.impl.body, g_k);
		if (st == unsigned(C::WEB_MESSAGE_BODY)) {  // the header was read before
			uint64_t i = vc_range("head-opcode", 0, 5);
			c.wm_header_parser.opcode = i < 3 ? int(i) : int(i) + 5;
			c.wm_header_parser.fin = vc::any<bool>("head-fin") | (c.wm_header_parser.opcode >= 8);
			c.wm_header_parser.state = WebMessageHeaderParser::GOOD;
			c.wm_body_parser.state = WebMessageBodyParser::BODY;
		}
		g_op = c.wm_header_parser.opcode; g_fin = c.wm_header_parser.fin;
		hs = c.wm_header_parser.state; ho = g_op; hf = g_fin; hl = c.wm_header_parser.payload_len; bs = c.wm_body_parser.state;
	}
	void kept(const char *name) { vc_check((c.web_message.valid == has) & (!has || (int(c.web_message.impl.opcode) == op && c.web_message.impl.body.size() == n && at(c.web_message.impl.body, g_k) == oc)), name); }
	void next_frame() { vc_check((c.state == C::WEB_MESSAGE_HEADER) & (c.wm_header_parser.state == WebMessageHeaderParser::MESSAGE_BYTE_0) & !c.wm_header_parser.fin & (c.wm_header_parser.opcode == 0) & !c.wm_header_parser.masking_key, "frame.next-starts-fresh"); }
	void quiet(const char *name) { vc_check((g_sends == 0) & (g_shut == 0) & (g_cleared == 0), name); }
	void failed(bool r) {
		vc_check(r & (g_shut == 1) & (g_cleared == 1) & (g_sends == 0) & (c.state != C::WEB_MESSAGE_READY), "error.closes-without-delivery");
		vc_reach("error");
	}
};
template<class C> static void ws_step(C &c) {
	Env<C> e(c, C::WEB_MESSAGE_HEADER, C::WEB_MESSAGE_BODY);
	bool r = c.advance_state();
	vc_check((g_heads == unsigned(e.st == unsigned(C::WEB_MESSAGE_HEADER))) & (g_bodies <= 1), "frame.parsed-in-order");
	if (g_threw) { e.failed(r); return; }
	if (e.st == unsigned(C::WEB_MESSAGE_HEADER) && !g_hgood) { vc_check(!r & (g_bodies == 0) & (c.state == C::WEB_MESSAGE_HEADER), "header.incomplete-waits"); e.kept("header.incomplete-keeps"); e.quiet("header.incomplete-quiet"); return; }
	vc_check(g_bodies == 1, "payload.parsed");
	if (!g_bgood) { vc_check(!r & (c.state == C::WEB_MESSAGE_BODY) & (c.wm_header_parser.state == WebMessageHeaderParser::GOOD), "payload.incomplete-waits"); e.kept("payload.incomplete-keeps"); e.quiet("payload.incomplete-quiet"); return; }
	vc_reach("frame");
	if (g_op == 9) {
		vc_check((g_sends == 1) & (g_sent_op == 10) & (g_sent_n == g_text_n) & (g_sent_c == g_text_c), "ping.answered-with-same-payload");
		vc_check(!r & (g_shut == 0) & (g_cleared == 0), "ping.not-delivered"); e.kept("ping.message-kept"); e.next_frame();
		return;
	}
	if (g_op == 10) { vc_check(!r, "pong.not-delivered"); e.quiet("pong.ignored"); e.kept("pong.message-kept"); e.next_frame(); return; }
	const WebMessage &m = c.web_message.impl;
	if (g_op == 8) {
		e.quiet("close.quiet");
		vc_check(r & (c.state == C::WEB_MESSAGE_READY) & c.web_message.valid & (m.opcode == WebMessageOpcode::CLOSE), "close.delivered");
		if (g_text_n < 2) vc_check((m.close_code == WebMessage::CLOSE_STATUS_NO_CODE) & m.body.empty(), "close.no-code");
		else {
			vc_check(m.close_code == ((g_text_0 << 8) | g_text_1), "close.code");
			vc_check((g_utf == 1) & (g_utf_n == g_text_n - 2) & (g_utf_c == g_text_k2), "close.reason-checked");
			vc_check(m.body.size() == (g_utf_ok ? g_text_n - 2 : 0), "close.reason-length");
			if (g_utf_ok) vc_check(at(m.body, g_k) == g_text_k2, "close.reason");
		}
		return;
	}
	if (e.has != (g_op == 0)) {  // continuation without a first frame, or a new message inside another
		vc_check(r & (g_shut == 1) & (g_cleared == 1) & (g_sends == 0) & (c.state != C::WEB_MESSAGE_READY), "fragments.bad-order-closes");
		return;
	}
	uint64_t n = (e.has ? e.n : 0) + g_text_n; int op = e.has ? e.op : g_op;
	bool text = op == 1;
	bool refused = g_fin & text & !g_utf_ok;
	vc_check(g_utf == unsigned(g_fin & text), "text.validated-when-complete");
	if (g_fin & text) vc_check(g_utf_n == n, "text.validated-whole");
	if (refused) {
		vc_check(!r & !c.web_message.valid & (g_sends == 1) & (g_sent_op == 8) & (g_sent_n == 0) & (g_sent_code == 1007) & (g_shut == 0), "text.not-utf8-closes");
		e.next_frame();
		return;
	}
	e.quiet("data.quiet");
	vc_check(c.web_message.valid & (int(m.opcode) == op), "message.opcode-of-first-frame");
	vc_check(m.body.size() == n, "message.length");
	if (!e.has) vc_check(at(m.body, g_k) == g_text_c, "message.first-frame");
	else if (g_k < e.n) vc_check(at(m.body, g_k) == e.oc, "message.earlier-frames-kept");
	if (g_fin) vc_check(r & (c.state == C::WEB_MESSAGE_READY), "message.delivered");
	else { vc_check(!r, "message.not-delivered-before-fin"); e.next_frame(); }
}
// the appended part, at an arbitrary position of it
template<class C> static void ws_append(C &c) {
	Env<C> e(c, C::WEB_MESSAGE_BODY, C::WEB_MESSAGE_BODY);
	c.wm_header_parser.opcode = 0; g_op = 0;
	vc_assume(e.has);
	uint64_t n = e.n;
	c.advance_state();
	if (g_threw || !g_bgood || !c.web_message.valid) return;
	vc_check(g_k >= g_text_n || at(c.web_message.impl.body, n + g_k) == g_text_c, "message.frame-appended");
	vc_reach("appended");
}
VC_HARNESS(server_frame) { ws_step(g_sv.v); }
VC_HARNESS(client_frame) { ws_step(g_cl.v); }
VC_HARNESS(server_append) { ws_append(g_sv.v); }
VC_HARNESS(client_append) { ws_append(g_cl.v); }
// nothing is read while a message or request waits to be taken, a response is due, or output is pending
template<class C> static void idle(C &c, bool server) {
	Env<C> e(c, 0, C::WEB_MESSAGE_READY);
	bool pending = vc::any<bool>("pending");
	c.sock.total_data_to_write = pending ? vc_range("buffered", 1, BIG) : 0;
	unsigned s = e.st;
	bool reads = server ? s == unsigned(ServerConnection::REQUEST_HEADER) || s == unsigned(ServerConnection::REQUEST_BODY) || s == unsigned(ServerConnection::WEB_MESSAGE_HEADER) || s == unsigned(ServerConnection::WEB_MESSAGE_BODY)
		: s == unsigned(ClientConnection::RESPONSE_HEADER) || s == unsigned(ClientConnection::RESPONSE_BODY) || s == unsigned(ClientConnection::WEB_UPGRADE_RESPONSE_HEADER) || s == unsigned(ClientConnection::WEB_MESSAGE_HEADER) || s == unsigned(ClientConnection::WEB_MESSAGE_BODY);
	if (!pending && reads) return;
	bool r = c.advance_state();
	vc_check(!r & (unsigned(c.state) == s) & (g_heads + g_bodies + g_http + g_hbody == 0), "waiting.nothing-parsed");
	vc_check(!pending | (g_reads == 0), "pending-output.nothing-read");
	e.kept("waiting.message-kept"); e.quiet("waiting.quiet");
	vc_reach("idle");
}
VC_HARNESS(server_idle) { idle(g_sv.v, true); }
VC_HARNESS(client_idle) { idle(g_cl.v, false); }
template<class C> static void read_next(C &c, bool server) {
	Env<C> e(c, 0, C::WEB_MESSAGE_READY);
	bool streaming = vc::any<bool>("streaming");
	if (server) g_sv.v.writing_web_message_body = streaming;
	c.web_message.valid = e.has = e.has | (c.state == C::WEB_MESSAGE_READY);
	WebMessage out; uint8_t keep = 7; (void)keep;
	bool r = c.read_next(out);
	bool ready = (e.st == unsigned(C::WEB_MESSAGE_READY)) & !(server & streaming);
	vc_check(r == ready, "read_next.exactly-when-ready");
	if (!ready) {
		e.kept("read_next.kept");
		vc_check((c.wm_header_parser.state == e.hs) & (c.wm_header_parser.opcode == e.ho) & (c.wm_header_parser.fin == e.hf) & (c.wm_header_parser.payload_len == e.hl) & (c.wm_body_parser.state == e.bs), "read_next.frame-kept");
 vc_check((unsigned(c.state) == e.st) & out.body.empty() & (g_adv == 0), "read_next.nothing"); return; }
	vc_check((int(out.opcode) == e.op) & (out.body.size() == e.n) & (at(out.body, g_k) == e.oc) & (out.close_code == e.code), "read_next.whole-message");
	vc_check(!c.web_message.valid, "read_next.once");
	e.next_frame();
	vc_reach("taken");
}
VC_HARNESS(server_read_next) { read_next(g_sv.v, true); }
VC_HARNESS(client_read_next) { read_next(g_cl.v, false); }
VC_HARNESS(server_request) {
	Env<ServerConnection> e(g_sv.v, ServerConnection::REQUEST_HEADER, ServerConnection::REQUEST_BODY);
	ServerConnection &c = g_sv.v;
	bool known = vc::any<bool>("has-length"), chunked = vc::any<bool>("chunked"); uint64_t len = vc::any<uint64_t>("length");
	c.request_parser.req.content_length.valid = known; c.request_parser.req.content_length.impl = len;
	c.request_parser.req.transfer_encoding_chunked = chunked;
	c.request_parser.state = RequestParser::METHOD_START;
	bool r = c.advance_state();
	bool head = e.st == unsigned(ServerConnection::REQUEST_HEADER);
	vc_check((g_http == unsigned(head)) & (g_heads + g_bodies == 0), "request.parsed-in-order");
	if (g_threw) { vc_check(r & (g_shut == 1) & (g_cleared == 1) & (c.state != ServerConnection::REQUEST_READY), "error.closes-without-delivery"); return; }
	e.quiet("request.quiet"); e.kept("request.kept");
	if (head) {
		if (!g_hgood2) { vc_check(!r & (g_hbody == 0) & (g_ctor == 0) & (c.state == ServerConnection::REQUEST_HEADER), "request.head-incomplete-waits"); return; }
		vc_check((g_ctor == 1) & (vcrep::g_ctor_chunked == chunked) & (vcrep::g_ctor_len.valid == known) & (!known | (vcrep::g_ctor_len.impl == len)), "request.body-framing");
		vc_check(!c.request_parser.req.transfer_encoding_chunked, "request.chunking-hidden");
	}
	vc_check((g_hbody == 1) & (r == g_bgood2) & (c.state == (g_bgood2 ? ServerConnection::REQUEST_READY : ServerConnection::REQUEST_BODY)), "request.ready-when-complete");
	vc_reach("request");
}
VC_HARNESS(client_response) {
	Env<ClientConnection> e(g_cl.v, ClientConnection::RESPONSE_HEADER, ClientConnection::RESPONSE_BODY);
	ClientConnection &c = g_cl.v;
	bool known = vc::any<bool>("has-length"), chunked = vc::any<bool>("chunked"), upgrade = vc::any<bool>("upgrade"); uint64_t len = vc::any<uint64_t>("length");
	ResponseHeader &h = c.response_parser.req;
	h.content_length.valid = known; h.content_length.impl = len; h.transfer_encoding_chunked = chunked;
	h.connection_upgrade = upgrade; h.upgrade_websocket = upgrade; h.status = 101;
	vc_string(&h.sec_websocket_accept, "accept");
	bool bad = upgrade & !h.sec_websocket_accept.empty();
	c.response_parser.state = ResponseParser::HTTP_VERSION_H;
	bool r = c.advance_state();
	bool head = e.st == unsigned(ClientConnection::RESPONSE_HEADER);
	vc_check((g_http == unsigned(head)) & (g_heads + g_bodies == 0), "response.parsed-in-order");
	if (g_threw | (head & g_hgood2 & bad)) { vc_check(r & (g_shut == 1) & (g_cleared == 1) & (c.state != ClientConnection::RESPONSE_READY), "error.closes-without-delivery"); return; }
	e.quiet("response.quiet"); e.kept("response.kept");
	if (head) {
		if (!g_hgood2) { vc_check(!r & (g_hbody == 0) & (g_ctor == 0) & (c.state == ClientConnection::RESPONSE_HEADER), "response.head-incomplete-waits"); return; }
		vc_check((g_ctor == 1) & (vcrep::g_ctor_chunked == chunked) & (vcrep::g_ctor_len.valid == known) & (!known | (vcrep::g_ctor_len.impl == len)), "response.body-framing");
	}
	vc_check((g_hbody == 1) & (r == g_bgood2) & (c.state == (g_bgood2 ? ClientConnection::RESPONSE_READY : ClientConnection::RESPONSE_BODY)), "response.ready-when-complete");
	vc_reach("response");
}
VC_HARNESS(server_close) {
	Env<ServerConnection> e(g_sv.v, 0, ServerConnection::WEB_MESSAGE_READY);
	ServerConnection &c = g_sv.v;
	new (&c.peer_address) Address();
	c.writing_web_message_body = vc::any<bool>("streaming");
	c.close();
	vc_check((g_cleared == 1) & (g_cancel == 1) & (g_sclose == 1) & !c.writing_web_message_body & (c.state == ServerConnection::REQUEST_HEADER), "close.state");
	vc_check(!c.web_message, "close.forgets-partial-message");
}
VC_HARNESS(client_close) {
	Env<ClientConnection> e(g_cl.v, 0, ClientConnection::WEB_MESSAGE_READY);
	ClientConnection &c = g_cl.v;
	new (&c.peer_address) Address(); new (&c.protocol) std::string(); new (&c.host) std::string();
	c.waiting_request.valid = vc::any<bool>("waiting");
	c.close();
	vc_check((g_cleared == 1) & (g_sclose == 1) & (c.state == ClientConnection::RESOLVING_HOST) & !c.waiting_request, "close.state");
	vc_check(!c.web_message, "close.forgets-partial-message");
}

// the answer to an upgrade request: accepted exactly when it is the 101 answer to the key sent, and without a body
VC_HARNESS(client_upgrade) {
	Env<ClientConnection> e(g_cl.v, ClientConnection::WEB_UPGRADE_RESPONSE_HEADER, ClientConnection::WEB_UPGRADE_RESPONSE_HEADER);
	ClientConnection &c = g_cl.v;
	std::string expect(28, 'x');  // 28 characters: base64 of a SHA-1 hash (C10, C15)
	for (int i = 0; i < 28; ++i) expect[i] = vc::any<char>("expected");
	vcrep::g_expect = &expect; vcrep::g_keys = 0;
	ResponseHeader &h = c.response_parser.req;
	h.content_length.valid = vc::any<bool>("has-length"); h.content_length.impl = vc::any<uint64_t>("length"); h.transfer_encoding_chunked = vc::any<bool>("chunked");
	h.connection_upgrade = vc::any<bool>("connection-upgrade"); h.upgrade_websocket = vc::any<bool>("websocket"); h.status = vc::any<int>("status");
	bool other = vc::any<bool>("other-length"), same = true;
	if (other) { same = false; vc_string(&h.sec_websocket_accept, "accept"); vc_assume(h.sec_websocket_accept.size() != 28); }
	else {
		new (&h.sec_websocket_accept) std::string(28, 'y');
		for (int i = 0; i < 28; ++i) { char a = vc::any<char>("accept"); h.sec_websocket_accept[i] = a; same &= a == expect[i]; }
	}
	bool differs = !same;
	c.response_parser.state = ResponseParser::HTTP_VERSION_H;
	bool r = c.advance_state();
	vc_check((g_http == 1) & (g_heads + g_bodies + g_hbody == 0), "upgrade.parsed-in-order");
	if (!g_threw & !g_hgood2) { vc_check(!r & (unsigned(c.state) == e.st), "upgrade.incomplete-waits"); e.quiet("upgrade.quiet"); return; }
	bool fits = (h.status == 101) & h.connection_upgrade & h.upgrade_websocket & !h.content_length.valid & !h.transfer_encoding_chunked;
	bool up = c.state == ClientConnection::WEB_MESSAGE_HEADER;
	if (g_threw | !fits | differs) vc_check(!up, "upgrade.wrong-answer-refused");
	if (!g_threw & fits & same) vc_check(up, "upgrade.right-answer-accepted");
	if (!up) { e.failed(r); return; }
	vc_check(!r & (vcrep::g_keys == 1) & (vcrep::g_key == &c.sec_websocket_key), "upgrade.key-sent");
	e.quiet("upgrade.quiet"); e.next_frame();
	vc_reach("upgraded");
}
template<class C> static void handler_step(C &c, bool server) {
	Env<C> e(c, 0, C::WEB_MESSAGE_READY);
	new (&c.peer_address) Address();
	bool body = false;
	if (server) { g_sv.v.writing_web_message_body = vc::any<bool>("streaming"); body = (e.st == unsigned(ServerConnection::RESPONSE_BODY)) | g_sv.v.writing_web_message_body; }
	else { new (&g_cl.v.protocol) std::string(); new (&g_cl.v.host) std::string(); g_cl.v.waiting_request.valid = false; }
	vcrep::g_open = vc::any<bool>("open");
	c.sock_handler();
	if (!vcrep::g_open) { vc_check((g_handler == 1) & (g_adv == 0) & (g_sclose == 1) & !c.web_message, "event.closed-told"); return; }
	if (body) { vc_check((g_handler == 1) & (g_adv == 0), "event.writer-continues"); return; }
	vc_check((g_adv == 1) & (g_handler == unsigned(vcrep::g_advanced)), "event.told-when-something-arrived");
	vc_check((g_sclose == 0) & (unsigned(c.state) == e.st), "event.state-kept");
	vc_reach("event");
}
VC_HARNESS(server_event) { handler_step(g_sv.v, true); }
VC_HARNESS(client_event) { handler_step(g_cl.v, false); }
// a complete request is handed over once, and what the response needs of it is remembered
VC_HARNESS(server_read_request) {
	Env<ServerConnection> e(g_sv.v, 0, ServerConnection::WEB_MESSAGE_READY);
	ServerConnection &c = g_sv.v;
	RequestHeader &h = c.request_parser.req;
	new (&h) RequestHeader();
	vc_string(&h.method, "method"); vc_string(&h.sec_websocket_key, "key"); vc_string(&c.http_body_parser.body.impl, "body"); c.http_body_parser.body.read_pos = 0;
	h.http_version_major = vc::any<int>("major"); h.http_version_minor = vc::any<int>("minor");
	h.keep_alive = vc::any<bool>("keep-alive"); h.connection_upgrade = vc::any<bool>("upgrade"); h.upgrade_websocket = vc::any<bool>("websocket");
	uint64_t mn = h.method.size(), kn = h.sec_websocket_key.size(), bn = c.http_body_parser.body.impl.size();
	uint8_t mc = at(h.method, g_k), kc = at(h.sec_websocket_key, g_k), bc = at(c.http_body_parser.body.impl, g_k);
	int ma = h.http_version_major, mi = h.http_version_minor; bool ka = h.keep_alive, cu = h.connection_upgrade, uw = h.upgrade_websocket;
	Request out;
	bool r = c.read_next(out);
	bool ready = e.st == unsigned(ServerConnection::REQUEST_READY);
	vc_check(r == ready, "read_request.exactly-when-ready");
	e.kept("read_request.message-kept");
	if (!ready) { vc_check((unsigned(c.state) == e.st) & out.body.empty() & (g_adv == 0), "read_request.nothing"); return; }
	vc_check(c.state == ServerConnection::RESPONSE_HEADER, "read_request.once");
	vc_check((out.body.size() == bn) & (at(out.body, g_k) == bc), "read_request.body");
	vc_check((out.header.method.size() == mn) & (at(out.header.method, g_k) == mc) & (out.header.sec_websocket_key.size() == kn) & (at(out.header.sec_websocket_key, g_k) == kc), "read_request.header-strings");
	vc_check((out.header.http_version_major == ma) & (out.header.http_version_minor == mi) & (out.header.keep_alive == ka), "read_request.header");
	vc_check((h.method.size() == mn) & (at(h.method, g_k) == mc) & (h.sec_websocket_key.size() == kn) & (at(h.sec_websocket_key, g_k) == kc), "read_request.strings-remembered");
	vc_check((h.http_version_major == ma) & (h.http_version_minor == mi) & (h.keep_alive == ka) & (h.connection_upgrade == cu) & (h.upgrade_websocket == uw), "read_request.remembered");
	vc_reach("taken");
}
VC_HARNESS(client_read_response) {
	Env<ClientConnection> e(g_cl.v, 0, ClientConnection::WEB_MESSAGE_READY);
	ClientConnection &c = g_cl.v;
	ResponseHeader &h = c.response_parser.req;
	new (&h) ResponseHeader();
	vc_string(&h.status_text, "text"); vc_string(&c.http_body_parser.body.impl, "body"); c.http_body_parser.body.read_pos = 0;
	h.status = vc::any<int>("status");
	int st = h.status; uint64_t tn = h.status_text.size(), bn = c.http_body_parser.body.impl.size(); uint8_t tc = at(h.status_text, g_k), bc = at(c.http_body_parser.body.impl, g_k);
	Response out;
	bool r = c.read_next(out);
	bool ready = e.st == unsigned(ClientConnection::RESPONSE_READY);
	vc_check(r == ready, "read_response.exactly-when-ready");
	e.kept("read_response.message-kept");
	if (!ready) { vc_check((unsigned(c.state) == e.st) & out.body.empty() & (g_adv == 0), "read_response.nothing"); return; }
	vc_check(c.state == ClientConnection::WAITING_WRITE_REQUEST, "read_response.once");
	vc_check((out.body.size() == bn) & (at(out.body, g_k) == bc), "read_response.body");
	vc_check((out.header.status == st) & (out.header.status_text.size() == tn) & (at(out.header.status_text, g_k) == tc), "read_response.header");
	vc_reach("taken");
}
