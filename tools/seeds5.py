from mkseed import seed
CO = "include/crab/http/connection.hxx"; SV = "include/crab/http/server.hxx"; NP = "include/crab/network_posix.hxx"
ALL = "#include <sys/socket.h>\n#include <unistd.h>\n#include <fcntl.h>\n#include <string>\n#include <crab/crab.hpp>\n#include <crab/all.hxx>\nusing namespace crab;\n" + '''
static int sv[2];
static void attach(TCPSocket &s, int buf) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _exit(9); if (buf) setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &buf, sizeof(buf)); fcntl(sv[0], F_SETFL, O_NONBLOCK); fcntl(sv[1], F_SETFL, O_NONBLOCK); s.fd.reset(sv[0]); s.rwd_handler.can_write = true; s.rwd_handler.can_read = true; }
static bool g_eof;
static void put(const std::string &s) { if (send(sv[1], s.data(), s.size(), 0) != ssize_t(s.size())) _exit(8); }
static std::string frame(int b0, const std::string &p) { return std::string(1, char(b0)) + char(0x80 | p.size()) + std::string(4, '\\0') + p; }
using namespace crab::http;
static void feed(ServerConnection &c, const std::string &s) { put(s); c.sock.sock.rwd_handler.can_read = true; c.sock_handler(); }
static std::string got() { std::string r; char b[65536]; for (;;) { ssize_t n = recv(sv[1], b, sizeof(b), 0); if (n == 0) g_eof = true; if (n <= 0) return r; r.append(b, size_t(n)); } }
'''
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, id[:3], *a, **k)

C = ALL + "\nstatic void web(ServerConnection &c) { attach(c.sock.sock, 0); c.state = ServerConnection::WEB_MESSAGE_HEADER; }\n"
DEC = "				if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PONG)) {\n"
def nth(text_before, old, new):  # edit in the server's advance_state only
    p = open("/repo/" + CO).read(); i = p.index("bool ServerConnection::advance_state()"); return (CO, p[i:], p[i:].replace(old, new, 1))
S("C30-pong-fragment", [nth("", DEC, DEC + "					web_message.reset();\n")], C + """
int main() { RunLoop loop; ServerConnection c; web(c); feed(c, frame(0x02, "abc")); feed(c, frame(0x8a, "")); feed(c, frame(0x80, "def")); WebMessage m; return c.read_next(m) && m.body == "abcdef" ? 0 : 1; }
""", "a pong between the fragments of a message", "the fragments received before the pong are lost")
S("C30-utf8-first", [nth("", "if (web_message->is_text() && !is_valid_utf8(web_message->body)) {", "if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::TEXT) && !is_valid_utf8(web_message->body)) {")], C + """
int main() { RunLoop loop; ServerConnection c; web(c); feed(c, frame(0x01, "abc")); feed(c, frame(0x80, "\\xff")); WebMessage m; return c.read_next(m) ? 1 : 0; }
""", "a text message of several frames that is not UTF-8", "it is delivered")
S("C30-close-code", [nth("", "web_message->close_code = (uint8_cast(body.data())[0] << 8) + uint8_cast(body.data())[1];", "web_message->close_code = (uint8_cast(body.data())[0] << 8) + body[1];")], C + """
int main() { RunLoop loop; ServerConnection c; web(c); feed(c, frame(0x88, "\\x03\\xe8")); WebMessage m; return c.read_next(m) && m.close_code == 1000 ? 0 : 1; }
""", "a close frame whose code has a low byte above 127", "the reported code is 256 too small")
S("C30-continuation-type", [nth("", '					if (wm_header_parser.opcode != 0)\n', '					if (wm_header_parser.opcode != 0 && wm_header_parser.opcode != static_cast<int>(web_message->opcode))\n')], C + """
int main() { RunLoop loop; ServerConnection c; web(c); feed(c, frame(0x02, "abc")); feed(c, frame(0x82, "def")); WebMessage m; return c.read_next(m) ? 1 : 0; }
""", "a new message of the same kind begins inside an unfinished one", "two messages are delivered as one instead of the protocol error closing the connection")
S("C30-ready-lost", [(CO, "	if (state != WEB_MESSAGE_READY || writing_web_message_body)\n		return false;", "	if (writing_web_message_body)\n		wm_header_parser = WebMessageHeaderParser{};\n	if (state != WEB_MESSAGE_READY || writing_web_message_body)\n		return false;")], C + """
int main() { RunLoop loop; ServerConnection c; web(c); c.writing_web_message_body = true; put(frame(0x82, "abc").substr(0, 7)); c.sock.sock.rwd_handler.can_read = true; c.advance_state(); WebMessage m; if (c.read_next(m)) return 2; put("bc"); c.sock.sock.rwd_handler.can_read = true; c.advance_state();
	c.writing_web_message_body = false; return c.read_next(m) && m.opcode == WebMessageOpcode::BINARY && m.body == "abc" ? 0 : 1; }
""", "read_next is asked while a message is streamed out and another half received", "the half received message is misread")
