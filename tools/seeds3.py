from mkseed import seed
IC = "include/crab/integer_cast.hpp"; ST = "include/crab/streams.hxx"; U = "include/crab/util.hxx"; IL = "include/crab/intrusive_list.hpp"
SHA = "include/crab/crypto/sha1.hxx"; MD = "include/crab/crypto/md5.hxx"; WM = "include/crab/http/web_message_parser.hxx"; Q = "include/crab/http/query_parser.hxx"
RQ = "include/crab/http/request_parser.hxx"; RS = "include/crab/http/response_parser.hxx"; CO = "include/crab/http/connection.hxx"; SV = "include/crab/http/server.hxx"
INC = "#include <functional>\n#include <cstdint>\n#include <limits>\n#include <string>\n#include <vector>\n#include <cstdio>\n#include <cstring>\n#include <crab/crab_version.hpp>\n"
STR = INC + "#include <crab/util.hxx>\n#include <crab/streams.hxx>\nusing namespace crab;\n"
HTTP = STR + "#include <crab/http/query_parser.hxx>\n#include <crab/http/types.hxx>\n#include <crab/http/web_message_parser.hxx>\n#include <crab/http/request_parser.hxx>\n#include <crab/http/response_parser.hxx>\nusing namespace crab::http;\n"
ALL = INC + "#include <memory>\n#include <crab/all.hxx>\nusing namespace crab; using namespace crab::http;\n"
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, id[:3], *a, **k)
LIST = INC + '''#include <crab/intrusive_list.hpp>
using namespace crab;
struct N { IntrusiveNode<N> a; int v = 0; };
typedef IntrusiveList<N, &N::a> L;
'''
S("C04-relink", [(IL, "		next->prev = prev;\n		prev->next = next;\n		next = prev = nullptr;", "		next->prev = prev;\n		prev->next = next;\n		next = nullptr;\n		if (next != prev->next)\n			prev = nullptr;")], LIST + '''
// a node unlinked twice, and pushed again
int main() { L l; N x, y, z; x.v = 1; y.v = 2; z.v = 3; l.push_back(x); l.push_back(y); y.a.unlink(); if (y.a.in_list()) return 1; l.push_back(z); y.a.unlink(); l.push_front(y); return l.front().v == 2 && l.back().v == 3 ? 0 : 1; }
''', "unlinking the same node twice, or pushing it again", "an unlinked node still counts as linked, so the second unlink works on its former neighbours") if 0 else None
S("C04-insert-order", [(IL, "		pos.current->next->prev = other;\n		pos.current->next       = other;", "		pos.current->next       = other;\n		other->next->prev       = pos.current == other->next ? other : other->next->prev == pos.current ? other : other->next->prev;\n		if (other->next != &content && pos.current != &content && pos.current->prev == &content)\n			other->next->prev = pos.current;")], LIST + '''
// insert in the middle, after the first element, then walk backwards
int main() { L l; N x, y, z; x.v = 1; y.v = 2; z.v = 3; l.push_back(x); l.push_back(z); auto it = l.begin(); ++it; l.insert(it, y);
	auto e = l.end(); --e; if ((*e).v != 3) return 1; --e; return (*e).v == 2 ? 0 : 1; }
''', "inserting in the middle, right after the first element", "the back link of the following node skips the inserted one")
S("C04-in-list", [(IL, "		if (other->in_list())\n			return;\n", "		if (other->in_list() && other->next != &content)\n			return;\n")], LIST + '''
// pushing the last element again must be a NOP
int main() { L l; N x, y; x.v = 1; y.v = 2; l.push_back(x); l.push_back(y); l.push_front(y); int n = 0; for (auto it = l.begin(); it != l.end(); ++it) if (++n > 5) return 1; return n == 2 && l.front().v == 1 ? 0 : 1; }
''', "inserting the element that is already last in the list", "the list becomes cyclic")
S("C12-plus", [(Q, "CRAB_INLINE std::string url_encode(const std::string &str, bool path) {", "CRAB_INLINE std::string url_encode(const std::string &str, bool path) {\n	if (path && str == \"*\")\n		return \"%2a\";")], HTTP + '''
int main() { return url_encode("*", true) == url_encode("*/", true).substr(0, url_encode("*/", true).size() - 1) && url_decode(url_encode("*", true)) == "*" ? 0 : 1; }
''', "the one-character path '*'", "the text is encoded differently from the same character elsewhere") if 0 else None
HASH = STR + '''#include <crab/crypto/%s.hxx>
static std::vector<uint8_t> whole(const std::vector<uint8_t> &d, size_t cut) { %s h; h.add(d.data(), cut); h.add(d.data() + cut, d.size() - cut); std::vector<uint8_t> r(%s); h.finalize(r.data()); return r; }
'''
S("C15-pad-56", [(SHA, "offset < 56 ? 56 - offset", "offset <= 56 ? 56 - offset")], STR + '''#include <crab/crypto/sha1.hxx>
// SHA-1 of 56 bytes "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq" (FIPS 180)
int main() { const char *s = "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"; sha1 h; h.add((const uint8_t *)s, 56); uint8_t r[20]; h.finalize(r); return r[0] == 0x84 && r[1] == 0x98 && r[2] == 0x3e && r[19] == 0xf1 ? 0 : 1; }
''', "a message whose length is 56 modulo 64", "the 0x80 terminator is lost")
S("C15-size32", [(SHA, "static_cast<uint32_t>((original_size * 8) >> 32)", "static_cast<uint32_t>(static_cast<uint32_t>(original_size * 8) < original_size ? (original_size * 8) >> 33 : 0)")], STR + '''#include <crab/crypto/sha1.hxx>
// two different lengths 2^29 apart: the length field must differ
int main() { sha1 h; h.size = uint64_t(1) << 29; uint8_t r[20]; h.finalize(r); sha1 g; g.size = 0; uint8_t q[20]; g.finalize(q); return memcmp(r, q, 20) != 0 ? 0 : 1; }
''', "a message of 512 MB or more", "the high word of the length is wrong")
S("C16-exact-block", [(MD, "	while (n >= 64) {\n", "	while (n > 64 || (n == 64 && partLen != 64)) {\n")], STR + '''#include <crab/crypto/md5.hxx>
// 128 bytes in one call are the same message as 64 + 64 bytes
int main() { std::vector<uint8_t> d(128, 'a'); uint8_t r[16], q[16]; { md5 h; h.add(d.data(), 128); h.finalize(r); } { md5 h; h.add(d.data(), 64); h.add(d.data() + 64, 64); h.finalize(q); } return memcmp(r, q, 16) == 0 ? 0 : 1; }
''', "an add of an exact multiple of 64 bytes at a block boundary", "the last block is never processed")
S("C16-const", [(MD, "original_size * 8) >> 32", "original_size * 8) >> 31")], STR + '''#include <crab/crypto/md5.hxx>
int main() { md5 h; h.size = (uint64_t(1) << 28) + 1; uint8_t r[16]; uint8_t b[64]; h.finalize(r); memcpy(b, h.buffer, 64); return b[60] == 0 ? 0 : 1; }
''', "a message of 256 MB or more", "the high word of the length is wrong")
S("C19-shift", [(WM, "			masking_shift += wr;", "			masking_shift = masking_shift % 255 + wr;")], HTTP + '''
int main() { WebMessageBodyParser p(700, uint32_t(0x01020304)); std::vector<uint8_t> z(700, 0); p.parse(z.data(), z.data() + 256); p.parse(z.data() + 256, z.data() + 600); p.parse(z.data() + 600, z.data() + 700);
	std::string b = p.body.get_buffer(); for (size_t i = 0; i != 700; ++i) if (b[i] != char(1 + i % 4)) return 1; return 0; }
''', "a masked body that arrives in several pieces, with 255 bytes or more before the cut", "bytes after the cut are unmasked with the wrong key byte")
S("C20-anchor", [(RQ, "		if (is_ctl(input))\n			throw std::runtime_error{\"Invalid (control) character in uri\"};\n		return URI_ANCHOR;", "		if (is_ctl(input) && input != 127)\n			throw std::runtime_error{\"Invalid (control) character in uri\"};\n		return URI_ANCHOR;")], HTTP + '''
int main() { std::string s = "GET /a#\\x7f HTTP/1.1\\r\\n\\r\\n"; RequestParser p; try { auto b = (const uint8_t *)s.data(); p.parse(b, b + s.size()); return 1; } catch (const std::runtime_error &) { return 0; } }
''', "DEL in the fragment of the request target", "a control character is accepted")
S("C20-minor", [(RQ, "		if (req.http_version_minor > 99)\n", "		if (req.http_version_minor > 999)\n")], HTTP + '''
int main() { std::string s = "GET / HTTP/1.100\\r\\n\\r\\n"; RequestParser p; try { auto b = (const uint8_t *)s.data(); p.parse(b, b + s.size()); return 1; } catch (const std::runtime_error &) { return 0; } }
''', "a three-digit minor version", "the malformed version is accepted")
S("C21-keepalive", [(RS, "			req.keep_alive = req.http_version_major == 1 && req.http_version_minor >= 1;\n			return STATUS_CODE_1;", "			req.keep_alive = req.http_version_major == 1 && req.http_version_minor == 1;\n			return STATUS_CODE_1;")], HTTP + '''
int main() { std::string s = "HTTP/1.2 200 OK\\r\\n\\r\\n"; ResponseParser p; auto b = (const uint8_t *)s.data(); p.parse(b, b + s.size()); return p.req.keep_alive ? 0 : 1; }
''', "a minor version above 1", "the connection is taken as not persistent")
S("C22-max-chunk", [(RQ, "(std::numeric_limits<uint64_t>::max() - 15) / 16", "std::numeric_limits<uint64_t>::max() / 15")], HTTP + '''
int main() { std::string s = "1000000000000000\\r\\n"; BodyParser p({}, true); try { auto b = (const uint8_t *)s.data(); s = "10000000000000000\\r\\n"; b = (const uint8_t *)s.data(); p.parse(b, b + s.size()); return 1; } catch (const std::runtime_error &) { return 0; } }
''', "a chunk size of 2^64 or slightly more", "the chunk size wraps around to a small number")
S("C22-trailer", [(RQ, "	case TRAILER:\n		trailers_total_length += 1;\n", "	case TRAILER:\n		if (input != ' ')\n			trailers_total_length += 1;\n")], HTTP + '''
int main() { std::string s = "0\\r\\na:" + std::string(1 << 20, ' ') + "\\r\\n\\r\\n"; BodyParser p({}, true); try { auto b = (const uint8_t *)s.data(); p.parse(b, b + s.size()); return 1; } catch (const std::runtime_error &) { return 0; } }
''', "a long run of spaces in a trailer", "the trailer limit can be exceeded without end")
S("C23-te-empty", [(RQ, "		if (header.value == string_view{\"identity\"}) {\n			return;", "		if (header.value == string_view{\"identity\"}) {\n			req.transfer_encoding_chunked = false;\n			return;")], HTTP + '''
int main() { std::string s = "POST / HTTP/1.1\\r\\nTransfer-Encoding: chunked, identity\\r\\n\\r\\n"; RequestParser p; auto b = (const uint8_t *)s.data(); p.parse(b, b + s.size()); return p.req.transfer_encoding_chunked ? 0 : 1; }
''', "identity listed after chunked", "the body is read as not chunked (request smuggling)")
S("C23-dup-length", [(RQ, "		if (req.content_length)\n			throw std::runtime_error{\"content length specified more than once\"};", "		if (req.content_length && *req.content_length)\n			throw std::runtime_error{\"content length specified more than once\"};")], HTTP + '''
int main() { std::string s = "POST / HTTP/1.1\\r\\nContent-Length: 0\\r\\nContent-Length: 5\\r\\n\\r\\n"; RequestParser p; try { auto b = (const uint8_t *)s.data(); p.parse(b, b + s.size()); return 1; } catch (const std::runtime_error &) { return 0; } }
''', "two Content-Length headers, the first of them 0", "the second length wins")
