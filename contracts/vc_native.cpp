// Native runtime of the contract language: replays a counterexample (VC_REPLAY=file) on the real code, or searches for a
// failing input of a contract whose obligation the verifier could not discharge (libFuzzer entry point).
#include "vc.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unistd.h>
#include <unordered_map>
#include <utility>

struct VcStop {};  // assumption false: input outside the contract's precondition
namespace {
struct Rec { std::string name, kind; uint64_t v; std::vector<uint8_t> bytes; };
std::vector<Rec> rec;
std::map<std::string, std::vector<Rec>> rep;
std::map<std::string, size_t> repn;
bool replaying = false;
const uint8_t *D = nullptr; size_t DN = 0, DP = 0;
std::vector<std::pair<uint8_t *, size_t>> bufs;
const char *cur_h = "?";
uint8_t nextb() { return DP < DN ? D[DP++] : (uint8_t)0; }
uint64_t nextn(int k) { uint64_t r = 0; for (int i = 0; i < k; ++i) r |= uint64_t(nextb()) << (8 * i); return r; }
std::vector<void *> keep;

void dump() {
	const char *p = getenv("VC_OUT");
	if (!p) return;
	FILE *f = fopen(p, "w");
	if (!f) return;
	fprintf(f, "harness %s\n", cur_h);
	for (auto &r : rec) {
		fprintf(f, "value %s %s %llu", r.name.c_str(), r.kind.c_str(), (unsigned long long)r.v);
		if (r.kind == "buf") { fputc(' ', f); for (auto b : r.bytes) fprintf(f, "%02x", b); }
		fputc('\n', f);
	}
	fclose(f);
}
bool replay_val(const char *name, Rec &out) {
	auto &v = rep[name]; auto &n = repn[name];
	if (n >= v.size()) { out = Rec{name, "int", 0, {}}; return false; }
	out = v[n++]; return true;
}
uint64_t any(const char *name, int w) {
	uint64_t v = 0;
	if (replaying) { Rec r; replay_val(name, r); v = r.v; }
	else {
		uint8_t c = nextb();
		switch (c & 7) {
		case 0: case 1: v = nextb(); break;
		case 2: v = uint64_t(0) - nextb(); break;
		case 3: v = (uint64_t(1) << (nextb() & 63)) + nextb() - 2; break;
		case 4: v = (~uint64_t(0) >> (nextb() & 63)) - (nextb() & 3); break;
		case 5: v = nextn(2); break;
		default: v = nextn(w / 8); break;
		}
	}
	if (w < 64) v &= (uint64_t(1) << w) - 1;
	rec.push_back(Rec{name, "int", v, {}});
	return v;
}
size_t pick_len() {
	if (replaying) return 0;
	uint8_t c = nextb();
	switch (c >> 6) {
	case 0: return c & 7;
	case 1: return c & 31;
	case 2: return c & 63;
	default: return nextb();
	}
}
void fill(const char *name, uint8_t *p, size_t n) {
	Rec r{name, "buf", n, {}};
	if (replaying) {
		Rec q; replay_val(name, q);
		for (size_t i = 0; i < n; ++i) p[i] = i < q.bytes.size() ? q.bytes[i] : 0;
	} else
		for (size_t i = 0; i < n; ++i) p[i] = nextb();
	r.bytes.assign(p, p + n);
	rec.push_back(r);
}
}  // namespace

[[noreturn]] void vc_fail(const char *name) {
	dump();
	fprintf(stderr, "VC-FAIL %s %s\n", cur_h, name);
	fflush(stderr);
	_exit(77);
}
extern "C" {
uint8_t vc_any8(const char *n) { return (uint8_t)any(n, 8); }
uint16_t vc_any16(const char *n) { return (uint16_t)any(n, 16); }
uint32_t vc_any32(const char *n) { return (uint32_t)any(n, 32); }
uint64_t vc_any64(const char *n) { return any(n, 64); }
double vc_anyd(const char *n) {
	uint64_t v;
	if (replaying) { Rec r; replay_val(n, r); v = r.v; }
	else {
		uint8_t c = nextb();
		if (c & 1) v = nextn(8);
		else {
			double d = std::ldexp(1.0, (c >> 1) & 127) - (nextb() & 3);
			if (nextb() & 1) d = -d;
			if (nextb() % 16 == 0) d = std::numeric_limits<double>::quiet_NaN();
			memcpy(&v, &d, 8);
		}
	}
	rec.push_back(Rec{n, "fp", v, {}});
	double d; memcpy(&d, &v, 8); return d;
}
float vc_anyf(const char *n) {
	uint32_t v;
	if (replaying) { Rec r; replay_val(n, r); v = (uint32_t)r.v; }
	else {
		uint8_t c = nextb();
		if (c & 1) v = (uint32_t)nextn(4);
		else { float d = std::ldexp(1.0f, (c >> 1) & 127) - (nextb() & 3); if (nextb() & 1) d = -d; if (nextb() % 16 == 0) d = std::numeric_limits<float>::quiet_NaN(); memcpy(&v, &d, 4); }
	}
	rec.push_back(Rec{n, "fp", v, {}});
	float d; memcpy(&d, &v, 4); return d;
}
uint64_t vc_range(const char *n, uint64_t lo, uint64_t hi) {
	uint64_t v;
	if (lo > hi) throw VcStop();
	if (replaying) { Rec r; replay_val(n, r); v = r.v; if (v < lo || v > hi) v = lo; }
	else {
		uint64_t span = hi - lo;
		if (span < 256) v = lo + nextb() % (span + 1);
		else {
			uint8_t c = nextb();
			switch (c & 3) {
			case 0: v = lo + nextb(); break;
			case 1: v = hi - nextb(); break;
			case 2: v = lo + (span == ~uint64_t(0) ? nextn(2) : nextn(2) % (span + 1)); break;
			default: v = span == ~uint64_t(0) ? nextn(8) : lo + nextn(8) % (span + 1);
			}
		}
	}
	rec.push_back(Rec{n, "int", v, {}});
	return v;
}
uint8_t *vc_buf(const char *name, size_t n) {
	if (n > (1u << 20)) throw VcStop();
	uint8_t *p = (uint8_t *)malloc(n ? n : 1);
	if (n == 0) { free(p); p = (uint8_t *)malloc(1); }
	keep.push_back(p);
	fill(name, p, n);
	return p;
}
void vc_assume(bool c) { if (!c) throw VcStop(); }
void vc_check(bool c, const char *name) { if (!c) vc_fail(name); }
void vc_reach(const char *) {}
void vc_string(std::string *out, const char *name) {
	std::vector<uint8_t> b;
	size_t n;
	if (replaying) { Rec r; replay_val(name, r); n = r.bytes.size(); repn[name]--; } else n = pick_len();
	b.resize(n); fill(name, b.data(), n);
	new (out) std::string((const char *)b.data(), n);
}
void vc_bytes(std::vector<uint8_t> *out, const char *name) {
	std::vector<uint8_t> b;
	size_t n;
	if (replaying) { Rec r; replay_val(name, r); n = r.bytes.size(); repn[name]--; } else n = pick_len();
	b.resize(n); fill(name, b.data(), n);
	new (out) std::vector<uint8_t>(b);
}
void vc_havoc(void *p, size_t n, const char *name) { fill(name, (uint8_t *)p, n); }
void vc_fold(vc_step_t step, uint64_t *st, size_t nf, const uint8_t *p, size_t n) { for (size_t i = 0; i < n; ++i) step(st, p[i]); }
uint64_t vc_uf(const char *name, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
	uint64_t h = 1469598103934665603ull;
	for (; *name; ++name) h = (h ^ (uint8_t)*name) * 1099511628211ull;
	for (uint64_t x : {a, b, c, d}) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
	return h;
}
typedef std::unordered_map<std::string, std::string> VcMap;
size_t vc_map_size(const void *m) { return ((const VcMap *)m)->size(); }
const std::string *vc_map_key(const void *m) { return &((const VcMap *)m)->begin()->first; }
const std::string *vc_map_val(const void *m) { return &((const VcMap *)m)->begin()->second; }
int vc_same(const void *a, const void *b) { return a == b; }
void vc_witness(size_t) {}
void vc_fold_absorb(vc_step_t, vc_pred_t, size_t) {}
void vc_fold_inv(vc_step_t, vc_pred_t, size_t) {}
}

std::vector<std::pair<const char *, void (*)()>> &vc_harnesses() { static std::vector<std::pair<const char *, void (*)()>> v; return v; }

static void run_one(const std::pair<const char *, void (*)()> &h) {
	cur_h = h.first; rec.clear(); repn.clear();
	for (auto p : keep) free(p);
	keep.clear();
	try { h.second(); }
	catch (const VcStop &) {}
	catch (const std::exception &e) { fprintf(stderr, "exception: %s\n", e.what()); vc_fail("unexpected-exception"); }
	catch (...) { vc_fail("unexpected-exception"); }
}

extern "C" void __asan_on_error() { dump(); fprintf(stderr, "VC-FAIL %s ub\n", cur_h); }
extern "C" void __ubsan_on_report() { dump(); fprintf(stderr, "VC-FAIL %s ub\n", cur_h); }

static std::vector<std::pair<const char *, void (*)()>> sel;
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
	const char *only = getenv("VC_HARNESS");
	for (auto &h : vc_harnesses()) {
		if (only) {
			std::string o = std::string(",") + only + ",";
			if (o.find(std::string(",") + h.first + ",") == std::string::npos) continue;
		}
		sel.push_back(h);
	}
	if (sel.empty()) { fprintf(stderr, "no harness\n"); _exit(3); }
	if (const char *r = getenv("VC_REPLAY")) {
		replaying = true;
		FILE *f = fopen(r, "r");
		if (!f) _exit(3);
		char *line = nullptr; size_t cap = 0;
		while (getline(&line, &cap, f) > 0) {
			char nm[200], kind[20]; unsigned long long v; int pos = 0;
			if (sscanf(line, "value %199s %19s %llu%n", nm, kind, &v, &pos) < 3) continue;
			Rec q{nm, kind, v, {}};
			if (q.kind == "buf") {
				const char *s = line + pos; while (*s == ' ') ++s;
				auto hx = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
				for (; isxdigit(s[0]) && isxdigit(s[1]); s += 2) q.bytes.push_back(uint8_t(hx(s[0]) * 16 + hx(s[1])));
			}
			rep[nm].push_back(q);
		}
		free(line); fclose(f);
		for (auto &h : sel) run_one(h);
		for (auto p : keep) free(p);
		fprintf(stderr, "VC-PASS\n");
		_exit(0);
	}
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
	D = data; DN = size; DP = 0;
	size_t k = sel.size() > 1 ? nextb() % sel.size() : 0;
	run_one(sel[k]);
	return 0;
}
