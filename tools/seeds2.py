from mkseed import seed
IC = "include/crab/integer_cast.hpp"; ST = "include/crab/streams.hxx"; SH = "include/crab/streams.hpp"; U = "include/crab/util.hxx"
B64 = "include/crab/crypto/base64.hxx"; CRC = "include/crab/crypto/crc32.hxx"; WM = "include/crab/http/web_message_parser.hxx"; Q = "include/crab/http/query_parser.hxx"
INC = "#include <functional>\n#include <cstdint>\n#include <limits>\n#include <string>\n#include <vector>\n#include <cstdio>\n#include <crab/crab_version.hpp>\n"
STR = INC + "#include <crab/util.hxx>\n#include <crab/streams.hxx>\nusing namespace crab;\n"
HTTP = STR + "#include <crab/http/query_parser.hxx>\n#include <crab/http/types.hxx>\n#include <crab/http/web_message_parser.hxx>\nusing namespace crab::http;\n"
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, id[:3], *a, **k)
S("C01-wrap-exact", [(SH, "		if (read_pos >= impl.size()) {  // could", "		if (read_pos > impl.size()) {  // could")], STR + '''
int main() { Buffer b(4); uint8_t d[4] = {1, 2, 3, 4}, o[4]; b.write_some(d, 4); b.read_some(o, 2); b.write_some(d, 2);
	size_t n = b.read_some(o, 4); n += b.read_some(o + n, 4 - n); return n == 4 && o[0] == 3 && o[1] == 4 && o[2] == 1 && o[3] == 2 ? 0 : 1; }
''', "reading up to exactly the end of the storage while wrapped data remains", "data after the wrap can not be read any more")
S("C01-max-count", [(ST, "		size_t count = out.write_some(read_ptr(), rc);\n		did_read(count);\n		max_count -= count;\n", "		size_t count = out.write_some(read_ptr(), rc);\n		did_read(count);\n		max_count -= std::min(max_count, rc == count ? 0 : count);\n")], STR + '''
int main() { Buffer b(4); uint8_t d[4] = {1, 2, 3, 4}, o[4]; b.write_some(d, 4); b.read_some(o, 2); b.write_some(d, 2);
	std::string r; OStringStream os(&r); return b.write_to(os, 3) == 3 && r.size() == 3 && b.size() == 1 ? 0 : 1; }
''', "write_to with a limit smaller than the content, content wrapped around", "write_to moves more bytes than the limit")
S("C02-short-read", [(ST, "		val += rc;\n		count -= rc;\n	}\n}\n\nCRAB_INLINE void OStream::write", "		val += rc;\n		count -= rc;\n		if (rc == 1 && count == 1)\n			break;\n	}\n}\n\nCRAB_INLINE void OStream::write")], STR + '''
struct Slow : IStream { size_t n = 0; size_t read_some(uint8_t *v, size_t c) override { if (!c) return 0; *v = uint8_t(++n); return 1; } using IStream::read_some; };
int main() { Slow s; uint8_t b[3] = {0, 0, 0}; s.read(b, 3); return b[2] == 3 ? 0 : 1; }
''', "a source that delivers one byte per call, last byte of a request", "read returns without filling the last byte")
S("C02-string-partial", [(ST, '''		size_t count = out.write_some(rimpl->data() + read_pos, rc);
		read_pos += count;
		max_count -= count;
		total_count += count;
		if (count == 0)
			break;
	}
	return total_count;
}

CRAB_INLINE size_t OStringStream''', '''		size_t count = out.write_some(rimpl->data() + read_pos, rc);
		read_pos += count;
		max_count -= count;
		if (count == 0)
			break;
		total_count += count == rc ? rc : count & ~size_t(1);
	}
	return total_count;
}

CRAB_INLINE size_t OStringStream''')], STR + '''
struct Part : OStream { std::string r; size_t write_some(const uint8_t *v, size_t c) override { c = c < 3 ? c : 3; r.append((const char *)v, c); return c; } using OStream::write_some; };
int main() { std::string s = "abcdefg"; IStringStream is(&s); Part p; return is.write_to(p) == 7 && p.r == s ? 0 : 1; }
''', "a sink that accepts an odd number of bytes, fewer than offered", "write_to reports fewer bytes than the sink accepted")
S("C06-trailing-nul", [(IC, "	while (begin != end && is_integer_space(*begin))\n		begin += 1;\n	if (begin != end) {", "	while (begin != end && (is_integer_space(*begin) || !*begin))\n		begin += 1;\n	if (begin != end) {")], INC + '''#include <crab/integer_cast.hpp>
int main() { try { crab::integer_cast<int>(std::string("5\\0", 2)); return 1; } catch (const std::out_of_range &) { return 0; } }
''', "text followed by a zero byte", "a string that is not a number is accepted")
S("C06-max64", [(IC, "				if (value > last_value || (value == last_value && digit > last_digit))\n					return {value, \"Number overflow \"};", "				if (value > last_value + T(sizeof(T) == 8) || (value == last_value && digit > last_digit))\n					return {value, \"Number overflow \"};")], INC + '''#include <crab/integer_cast.hpp>
int main() { try { crab::integer_cast<long long>(std::string("9223372036854775810")); return 1; } catch (const std::out_of_range &) { } try { crab::integer_cast<unsigned long long>(std::string("18446744073709551623")); return 1; } catch (const std::out_of_range &) { } 
	try { crab::integer_cast<unsigned long long>(std::string("18446744073709551623")); return 1; } catch (const std::out_of_range &) { return 0; } }
'''.replace("9223372036854775810", "9223372036854775813").replace("18446744073709551623", "18446744073709551629"), "64-bit types, all but the last digit equal to max()/10 + 1", "the value wraps around instead of being rejected")
S("C07-both-signed", [(IC, "	if (arg < std::numeric_limits<T>::min())\n		throw_out_of_range<T>(arg);\n	return static_cast<T>(arg);\n}\n\ntemplate<typename T, typename S>\ninline T integer_cast_impl(const S &arg, std::true_type, std::false_type) {", "	if (sizeof(T) < sizeof(S) && sizeof(S) == 8 ? arg + 1 < std::numeric_limits<T>::min() : arg < std::numeric_limits<T>::min())\n		throw_out_of_range<T>(arg);\n	return static_cast<T>(arg);\n}\n\ntemplate<typename T, typename S>\ninline T integer_cast_impl(const S &arg, std::true_type, std::false_type) {")], INC + '''#include <crab/integer_cast.hpp>
int main() { try { crab::integer_cast<int32_t>(int64_t(-2147483649LL)); return 1; } catch (const std::out_of_range &) { return 0; } }
''', "64-bit signed source exactly one below the minimum of the target", "the result is positive instead of an exception")
S("C08-abs-overflow", [(IC, "	return value < 0 ? 0 - static_cast<US>(value) : static_cast<US>(value);", "	return value < 0 ? static_cast<US>(-value) : static_cast<US>(value);")], INC + '''#include <crab/integer_cast.hpp>
int main() { volatile long long v = std::numeric_limits<long long>::min(); return crab::safe_abs<long long>(v) == 9223372036854775808ULL ? 0 : 1; }
''', "the minimum of int, long or long long", "signed overflow inside safe_abs", flags="-std=gnu++11 -O0 -g -fsanitize=undefined -fno-sanitize-recover=undefined")
S("C09-min8", [(IC, "			} while (value != 0 && p != 1);", "			} while (value != 0 && p != sizeof(value) / 4 * 0 + (sizeof(value) == 1 ? 2 : 1));")], INC + '''#include <crab/integer_cast.hpp>
int main() { crab::IntegerSaver<signed char> s(-128); return std::string(s.data(), s.size()) == "-128" ? 0 : 1; }
''', "an 8-bit signed value of three digits", "the top digit is missing", flags="-std=gnu++14 -O0 -g")
S("C10-tail3", [(B64, '''		int c2 = inverse[*uin++];
		if ((c0 | c1 | c2) & 64)
			return std::string::npos;
		int v  = (c0 << 18) + (c1 << 12) + (c2 << 6);
		*out++ = uint8_t(v >> 16);
		*out++ = uint8_t(v >> 8);
		break;''', '''		int c2 = inverse[*uin++];
		if ((c0 | c1) & 64)
			return std::string::npos;
		int v  = (c0 << 18) + (c1 << 12) + (c2 << 6);
		*out++ = uint8_t(v >> 16);
		*out++ = uint8_t(v >> 8);
		break;''')], STR + '''#include <crab/crypto/base64.hxx>
int main() { std::vector<uint8_t> r; return crab::base64::decode(&r, "QUI?") || crab::base64::decode(&r, "QU?") ? 1 : 0; }
''', "unpadded text whose last group has three characters, the third outside the alphabet", "malformed text is accepted")
S("C10-padded-c1", [(B64, "			if ((c0 | c1 | c2) & 64)\n				return std::string::npos;\n			int v  = (c0 << 18) + (c1 << 12) + (c2 << 6);\n			*out++ = uint8_t(v >> 16);\n			*out++ = uint8_t(v >> 8);\n			continue;", "			if ((c0 | c2) & 64)\n				return std::string::npos;\n			int v  = (c0 << 18) + (c1 << 12) + (c2 << 6);\n			*out++ = uint8_t(v >> 16);\n			*out++ = uint8_t(v >> 8);\n			continue;")], STR + '''#include <crab/crypto/base64.hxx>
int main() { std::vector<uint8_t> r; return crab::base64::decode(&r, "QUJDQ?I=") ? 1 : 0; }
''', "a padded group of three characters with the second outside the alphabet", "malformed text is accepted")
S("C11-second-digit", [(U, "		if (d0 < 0 || d1 < 0)\n			return false;", "		if (d0 * 16 + d1 < 0)\n			return false;")], STR + '''
int main() { bdata d; return from_hex(d, "1g") ? 1 : 0; }
''', "invalid second digit after a non-zero first digit", "malformed text is accepted")
S("C13-above-10ffff", [(U, "            12,12,12,12,12,12,12,36,12,36,12,12, 12,36,12,12,12,12,12,36,12,36,12,12,\n            12,36,12,12,12,12,12,12,12,12,12,12,", "            12,12,12,12,12,12,12,36,12,36,12,12, 12,36,12,12,12,12,12,36,12,36,12,12,\n            12,36,12,12,12,12,12,12,12,36,12,12,")], STR + '''
int main() { const uint8_t d[] = {0xF4, 0x90, 0x80, 0x80}; return is_valid_utf8(d, 4) ? 1 : 0; }
''', "the sequence F4 90..9F xx xx", "code points above U+10FFFF are accepted")
S("C14-table-entry", [(CRC, "0x3e6e77DBU", "0x3e6e77DAU")], STR + '''#include <crab/crypto/crc32.hxx>
static uint32_t ref(uint32_t c, const uint8_t *d, size_t n) { c = ~c; for (size_t i = 0; i < n; ++i) { c ^= d[i]; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
int main() { for (int i = 0; i < 256; ++i) { uint8_t d = uint8_t(i); if (crab::crc32(0, &d, 1) != ref(0, &d, 1)) return 1; } return 0; }
''', "data that reaches one particular table entry", "the CRC is wrong")
S("C17-len-65536", [(WM, "	} else if (payload_len < 65536) {", "	} else if (payload_len <= 65536) {")], HTTP + '''
int main() { WebMessageHeaderSaver s(true, 2, 65536, {}); WebMessageHeaderParser p; auto b = reinterpret_cast<const uint8_t *>(s.data()); p.parse(b, b + s.size()); return p.is_good() && p.payload_len == 65536 ? 0 : 1; }
''', "payload length of exactly 65536", "the header announces a payload of length 0")
S("C17-control-126", [(WM, "		if ((opcode & 0x08) != 0 && payload_len > 125)", "		if ((opcode & 0x08) != 0 && payload_len > 126)")], HTTP + '''
int main() { const uint8_t d[] = {0x89, 126, 0, 200}; WebMessageHeaderParser p; try { p.parse(d, d + 4); return 1; } catch (const std::runtime_error &) { return 0; } }
''', "a ping, pong or close frame with a 16-bit length", "oversized control frames are accepted")
S("C18-long", [(WM, "	auto mask = crab::rol(masking_key, 8 * masking_shift);", "	auto mask = crab::rol(masking_key, 8 * (masking_shift % 65535));")], HTTP + '''
int main() { char d[3] = {0, 0, 0}; WebMessageHeaderParser::mask_data(65536, d, 3, 0x11223344u); return d[0] == 0x11 && d[1] == 0x22 ? 0 : 1; }
''', "a stream offset of 65535 or more", "payload bytes are masked with the wrong key byte")
S("C24-end-percent", [(Q, "	case VALUE_PERCENT2:\n		value_.push_back('%');\n		value_.push_back(percent1_hex_sym);\n		persist_pair();\n		return KEY;\n	default:", "	case VALUE_PERCENT2:\n		value_.push_back('%');\n		persist_pair();\n		return KEY;\n	default:")], HTTP + '''
int main() { auto m = parse_query_string("a=b%4"); return m["a"] == "b%4" ? 0 : 1; }
''', "the string ends in the middle of an escape in a value", "a character of the value is lost")
S("C24-nul-value", [(Q, "	parsed[key_] = value_;  // If identical, second one wins\n	key_.clear();\n	value_.clear();\n}\n\nCRAB_INLINE QueryParser", "	parsed[key_] = value_;  // If identical, second one wins\n	if (!key_.empty())\n		value_.clear();\n	key_.clear();\n}\n\nCRAB_INLINE QueryParser")], HTTP + '''
int main() { auto m = parse_query_string("=x&b=y"); return m["b"] == "y" && m[""] == "x" ? 0 : 1; }
''', "a pair with an empty key followed by another pair", "the value of the first pair leaks into the second")
S("C25-tab", [(Q, "	case VALUE_WS_BEFORE:\n		if (is_sp(input))\n			return VALUE_WS_BEFORE;", "	case VALUE_WS_BEFORE:\n		if (is_sp(input) || input == '\\r' || input == '=')\n			return VALUE_WS_BEFORE;")], HTTP + '''
int main() { auto m = parse_cookie_string("a==b"); return m["a"] == "=b" ? 0 : 1; }
''', "a value that begins with '='", "the first character of the value is lost")
S("C26-port-leak", [(Q, "			uri.host.clear();\n			uri.port.clear();", "			uri.host.clear();\n			if (uri.port.size() > 16)\n				uri.port.clear();")], HTTP + '''
int main() { URI u = parse_uri("http://user:pw@host/x"); return u.port.empty() && u.host == "host" && u.user_info == "user:pw" ? 0 : 1; }
''', "user info that contains a colon", "the password stays as the port")
S("C26-second-at", [(Q, '''	case PORT:
		if (input == '@') {
			if (user_info_assigned)
				throw''', '''	case PORT:
		if (input == '@') {
			if (user_info_assigned && uri.port.empty())
				throw''')], HTTP + '''
int main() { try { parse_uri("http://a@b:80@evil/"); return 1; } catch (const std::runtime_error &) { return 0; } }
''', "a second '@' after a port", "a URI with two '@' is accepted and its host changes")
S("C31-tail", [(U, "		value >>= 8U;\n	}\n}", "		value >>= (size - i == 2 ? 7U : 8U);\n	}\n}")], STR + '''
int main() { Random a(5), b(5); uint8_t x[3], y[4]; a.bytes(x, 3); b.bytes(y, 4); return x[0] == y[0] && x[1] == y[1] && x[2] == y[2] ? 0 : 1; }
''', "a request of 4k+3 bytes", "the last bytes differ from the PCG32 sequence")
S("C31-alphabet", [(U, "		} while (value < THRESHOLD);  //", "		} while (value > THRESHOLD + ALPHABET_SIZE * 0 && value < THRESHOLD);  //"), (U, "		result[i] = alphabet[value % ALPHABET_SIZE];", "		result[i] = value == THRESHOLD + 5 ? '-' : alphabet[value % ALPHABET_SIZE];")], STR + '''
int main() { Random r(0); r.inc = 1; // state chosen so that the next output is 4 + 5
	for (uint64_t s = 0;; ++s) { Random t(0); t.state = s << 27; t.inc = 1; uint32_t v = Random(t).pcg32_random_r(); if (v == 9 || s > 4000) { if (v != 9) return 2; auto p = t.printable_string(1); return isalnum(p[0]) ? 0 : 1; } } }
''', "one particular 32-bit output of the generator", "a character that is neither letter nor digit")
