// Specification shared by the HTTP header contracts (C20, C21): character classes of RFC 7230 and the header field part of the grammar.
#pragma once
namespace spec {
inline int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline bool token(int c) {  // RFC 7230 tchar
	if (c <= 32 || c >= 127) return false;
	return !(c == '(' || c == ')' || c == '<' || c == '>' || c == '@' || c == ',' || c == ';' || c == ':' || c == '\\' || c == '"' || c == '/' || c == '[' || c == ']' || c == '?' || c == '=' || c == '{' || c == '}');
}
inline bool sp(int c) { return c == ' ' || c == '\t'; }
inline bool ctl(int c) { return c < 32 || c == 127; }  // c is the byte value
inline bool digit(int c) { return c >= '0' && c <= '9'; }
inline int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
inline bool is_lit(const std::string *s, const char *lit, size_t n) {
	if (s->size() != n) return false;
	for (size_t i = 0; i != n; ++i)
		if (s->data()[i] != lit[i]) return false;
	return true;
}
inline bool is_list_header(const std::string *name) { return is_lit(name, "connection", 10) || is_lit(name, "transfer-encoding", 17); }
// what a character does to a remembered string
enum Act { KEEP, APPEND, CLEAR, SET };
// header section, common to requests and responses; P is the parser
template<class P> struct Head {
	static bool in(int st) { return st >= P::FIRST_HEADER_LINE_START && st <= P::FINAL_LF; }
	static int next(int st, int c, bool list) {
		if (st == P::FIRST_HEADER_LINE_START) return c == '\r' ? P::FINAL_LF : c == '\n' ? P::GOOD : token(c) ? P::HEADER_NAME : -1;
		if (st == P::HEADER_LINE_START) return sp(c) ? P::HEADER_VALUE : c == '\r' ? P::FINAL_LF : c == '\n' ? P::GOOD : token(c) ? P::HEADER_NAME : -1;
		if (st == P::HEADER_NAME) return sp(c) ? P::HEADER_COLON : c == ':' ? P::SPACE_BEFORE_HEADER_VALUE : token(c) ? P::HEADER_NAME : -1;
		if (st == P::HEADER_COLON) return sp(c) ? P::HEADER_COLON : c == ':' ? P::SPACE_BEFORE_HEADER_VALUE : -1;
		if (st == P::SPACE_BEFORE_HEADER_VALUE && sp(c)) return P::SPACE_BEFORE_HEADER_VALUE;
		if (st == P::SPACE_BEFORE_HEADER_VALUE || st == P::HEADER_VALUE) {
			if (c == '\r') return P::HEADER_LF;
			if (c == '\n') return P::HEADER_LINE_START;
			if (ctl(c)) return -1;
			return list && c == ',' ? P::SPACE_BEFORE_HEADER_VALUE : P::HEADER_VALUE;
		}
		if (st == P::HEADER_LF) return c == '\n' ? P::HEADER_LINE_START : -1;
		if (st == P::FINAL_LF) return c == '\n' ? P::GOOD : -1;
		return -1;
	}
	// a complete header field (or list element) is handed over before the character is handled
	static bool ready(int st, int c, bool list) {
		return (st == P::HEADER_LINE_START && !sp(c)) || ((st == P::SPACE_BEFORE_HEADER_VALUE || st == P::HEADER_VALUE) && list && c == ',');
	}
	static int name(int st, int c) {
		if (st == P::HEADER_LINE_START && !sp(c)) return token(c) ? SET : CLEAR;
		return (st == P::FIRST_HEADER_LINE_START || st == P::HEADER_NAME) && token(c) ? APPEND : KEEP;
	}
	static int value(int st, int c, bool list) {
		if (st == P::HEADER_LINE_START) return sp(c) ? APPEND : CLEAR;
		if ((st == P::SPACE_BEFORE_HEADER_VALUE && !sp(c)) || st == P::HEADER_VALUE) return list && c == ',' ? CLEAR : c != '\r' && c != '\n' ? APPEND : KEEP;
		return KEEP;
	}
};
}
namespace vcspec {
// t remembers the string before; s is what act and c make of it
inline bool after(const vc::Track *t, const std::string *s, int act, int c) {
	if (act == spec::KEEP) return is(t, s, 0, 0, 0, 0);
	if (act == spec::APPEND) return is(t, s, 1, c, 0, 0);
	if (act == spec::CLEAR) return s->size() == 0;
	return s->size() == 1 && char_at(s, 0) == char(c);
}
}

// trim_right: contract (used by the parsers' contracts) and the loop invariant of its own proof
static std::string *tr_s; static size_t tr_n, tr_k; static char tr_c;
namespace vcspec {
inline bool spb(char c) { return spec::sp((unsigned char)c); }
// s is the remembered string without its trailing blanks (the remembered character is an arbitrary one)
inline bool trimmed(const vc::Track *t, const std::string *s) {
	size_t m = s->size();
	return m <= t->n && (m == 0 || !spb(char_at(s, m - 1))) && (t->k >= t->n || (t->k < m ? char_at(s, t->k) == t->c : spb(t->c)));
}
}
namespace vcinv {
bool tr_loop() {
	size_t m = tr_s->size();
	return m <= tr_n && (tr_k >= tr_n || (tr_k < m ? vcspec::char_at(tr_s, tr_k) == tr_c : vcspec::spb(tr_c)));
}
}
#define TRIM_RIGHT_CONTRACT \
	VC_HARNESS(trim_right) { \
		vc::Raw<std::string> raw; \
		vc_string(raw.ptr(), "s"); \
		std::string s = std::move(*raw); \
		vc::Track t(s, "k"); \
		tr_s = &s; tr_n = t.n; tr_k = t.k; tr_c = t.c; \
		crab::http::trim_right(s); \
		vc_check(vcspec::trimmed(&t, &s), "trim_right"); \
	} \
	namespace vcrep { \
	void trim_right(std::string *s) { \
		size_t m = vc_range("trimmed", 0, size_t(1) << 62), n = s->size(), k = tr_k; \
		vc_assume(m <= n); \
		vc_assume(m == 0 || !vcspec::spb(s->data()[m - 1])); \
		if ((k >= m) & (k < n)) vc_assume(vcspec::spb(s->data()[k])); \
		s->resize(m); \
	} \
	}
