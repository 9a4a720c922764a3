from mkseed import seed
CO = "include/crab/http/connection.hxx"; SV = "include/crab/http/server.hxx"; NP = "include/crab/network_posix.hxx"
ALL = "#include <sys/socket.h>\n#include <unistd.h>\n#include <fcntl.h>\n#include <string>\n#include <crab/crab.hpp>\n#include <crab/all.hxx>\nusing namespace crab;\n" + '''
static int sv[2];
static void attach(TCPSocket &s, int buf) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _exit(9); if (buf) setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &buf, sizeof(buf)); fcntl(sv[0], F_SETFL, O_NONBLOCK); fcntl(sv[1], F_SETFL, O_NONBLOCK); s.fd.reset(sv[0]); s.rwd_handler.can_write = true; s.rwd_handler.can_read = true; }
static bool g_eof;
static std::string got() { std::string r; char b[65536]; for (;;) { ssize_t n = recv(sv[1], b, sizeof(b), 0); if (n == 0) g_eof = true; if (n <= 0) return r; r.append(b, size_t(n)); } }
'''
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, id[:3], *a, **k)
S("C29-append-front", [(CO, "		data_to_write.back().write(ss.data(), ss.size());", "		data_to_write.front().write(ss.data(), ss.size());")], ALL + '''
int main() { RunLoop loop; BufferedTCPSocket s([]() {}); attach(s.sock, 0); s.buffer(std::string(2000, 'a')); s.buffer(std::string(10, 'b')); s.buffer(std::string(10, 'c')); s.write(std::string(1, 'd'));
	return got() == std::string(2000, 'a') + std::string(10, 'b') + std::string(10, 'c') + "d" ? 0 : 1; }
''', "two pieces queued and a short string appended", "later bytes are sent before earlier ones")
S("C29-count-partial", [(CO, "		total_data_to_write -= data_to_write.front().write_to(sock);\n", "		size_t wr = data_to_write.front().write_to(sock);\n		if (data_to_write.size() == 1 || data_to_write.front().empty())\n			total_data_to_write -= wr;\n")], ALL + '''
int main() { RunLoop loop; BufferedTCPSocket s([]() {}); attach(s.sock, 4096); s.buffer(std::string(1000000, 'a')); s.buffer(std::string(2000, 'b')); s.write(std::string(1, 'c')); size_t n = got().size();
	return n + s.get_total_buffer_size() == 1002001 ? 0 : 1; }
''', "the system accepts a part of the first of several queued pieces", "the reported buffered size is too large for ever")
S("C29-early-shutdown", [(CO, "	if (write_shutdown_asked && data_to_write.empty() && !was_empty) {", "	if (write_shutdown_asked && (data_to_write.empty() || total_data_to_write < 64) && !was_empty) {")], ALL + '''
int main() { RunLoop loop; BufferedTCPSocket s([]() {}); attach(s.sock, 4096); std::string all; s.buffer(std::string(400000, 'a')); s.write_shutdown(); 
	for (int i = 0; i < 100000 && !g_eof; ++i) { size_t left = s.get_total_buffer_size(); s.sock.rwd_handler.can_write = true;
		// the peer makes room a little at a time: leave a few bytes at the end
		if (left > 20 && left <= 40000) { auto &f = s.data_to_write.front(); char x[65536]; size_t r = f.read_some(x, left - 20); s.total_data_to_write -= r; all.append(x, r); int flags = 0; (void)flags; s.sock.rwd_handler.can_write = false; s.write(); bool early = s.shutdown_timer.is_set(); return early ? 1 : 0; }
		s.write(); all += got(); }
	return all.size() == 400000 ? 0 : 1; }
''', "shutdown asked while a few bytes are still queued and the system takes nothing", "the connection is shut down before the last bytes are sent")
S("C29-overtake", [(CO, "	if (data_to_write.empty()) {\n		size_t wr", "	if (data_to_write.empty() || (count > 16384 && total_data_to_write < 16)) {\n		size_t wr")], ALL + '''
int main() { RunLoop loop; BufferedTCPSocket s([]() {}); attach(s.sock, 0); s.buffer("head", 4); std::string body(20000, 'b'); s.write(body.data(), body.size()); return got() == "head" + body ? 0 : 1; }
''', "a few bytes buffered, then a big direct write", "the big write is sent before the buffered bytes")
S("C28-pipelined-close", [(CO, '''		invariant(ss.size() <= *remaining_body_content_length, "Overshoot content-length");
		*remaining_body_content_length -= ss.size();
		sock.write(std::move(ss), bo);
		if (*remaining_body_content_length == 0) {
			if (!request_parser.req.keep_alive) {''', '''		invariant(ss.size() <= *remaining_body_content_length, "Overshoot content-length");
		*remaining_body_content_length -= ss.size();
		sock.write(std::move(ss), bo);
		if (*remaining_body_content_length == 0) {
			if (!request_parser.req.keep_alive && read_buffer.empty()) {''')], ALL + '''
using namespace crab::http;
int main() { RunLoop loop; ServerConnection c; attach(c.sock.sock, 0); c.state = ServerConnection::RESPONSE_BODY; c.request_parser.req.keep_alive = false; c.remaining_body_content_length = 3; uint8_t x = 'G'; c.read_buffer.write_some(&x, 1);
	c.write(std::string("abc")); return got() == "abc" && g_eof ? 0 : 1; }
''', "a request that asked to close, with more data already received behind it", "the connection stays open after the response")
S("C28-overshoot", [(CO, '''		invariant(count <= *remaining_body_content_length, "Overshoot content-length");
		*remaining_body_content_length -= count;
		sock.write(val, count, bo);''', '''		invariant(*remaining_body_content_length != 0 || count == 0, "Overshoot content-length");
		*remaining_body_content_length -= std::min<uint64_t>(count, *remaining_body_content_length);
		sock.write(val, count, bo);''')], ALL + '''
using namespace crab::http;
int main() { RunLoop loop; ServerConnection c; attach(c.sock.sock, 0); c.state = ServerConnection::RESPONSE_BODY; c.request_parser.req.keep_alive = true; c.remaining_body_content_length = 3;
	try { c.write("abcd", 4); return 1; } catch (const std::exception &) { return got().empty() ? 0 : 1; } }
''', "a body longer than the announced Content-Length", "more bytes than announced are sent, so the next response is misread")
S("C28-position", [(SV, "	ServerConnection::write(val, count, buffer_options);\n	body_position += count;", "	ServerConnection::write(val, count, buffer_options);\n	if (is_writing_body())\n		body_position += count;")], ALL + '''
using namespace crab::http;
int main() { RunLoop loop; Client c; attach(c.sock.sock, 0); c.state = ServerConnection::RESPONSE_BODY; c.request_parser.req.keep_alive = true; c.remaining_body_content_length = 3; c.body_position = 0;
	c.write("abc", 3); return c.body_position == 3 ? 0 : 1; }
''', "the write that completes the body", "the position does not reach the end of the body")
