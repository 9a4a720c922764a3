// Contract language for the deductive verifier in /verif/engine.
// A contract TU includes the real crab headers and states contracts as harness functions H_xxx():
//   vc::any / vc::buf / vc::str   - universally quantified inputs (all values, no bound)
//   vc::assume                    - precondition;  vc::check - postcondition (a named proof obligation)
//   namespace vcinv               - loop invariant candidates, instantiated by the verifier on every loop variable of
//                                   matching type and kept only if proved initial and inductive
//   vc::fold                      - a mathematical function defined by recursion over a byte sequence
// The same file compiles natively (vc_native.cpp) so that counterexamples can be replayed on the real code.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <algorithm>
#include <cstring>
#include <functional>
#include <limits>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

extern "C" {
uint8_t vc_any8(const char *name);
uint16_t vc_any16(const char *name);
uint32_t vc_any32(const char *name);
uint64_t vc_any64(const char *name);
double vc_anyd(const char *name);
float vc_anyf(const char *name);
uint64_t vc_range(const char *name, uint64_t lo, uint64_t hi);  // lo <= result <= hi
uint8_t *vc_buf(const char *name, size_t n);                    // fresh object of exactly n arbitrary bytes
void vc_assume(bool c);
void vc_check(bool c, const char *name);
void vc_reach(const char *name);  // vacuity guard: must be reachable
void vc_string(std::string *out, const char *name);             // placement-construct an arbitrary string
void vc_bytes(std::vector<uint8_t> *out, const char *name);     // placement-construct an arbitrary byte vector
void vc_havoc(void *p, size_t n, const char *name);             // arbitrary contents
typedef void (*vc_step_t)(uint64_t *st, uint8_t c);
void vc_fold(vc_step_t step, uint64_t *st, size_t nf, const uint8_t *p, size_t n);
typedef bool (*vc_pred_t)(const uint64_t *st);
void vc_fold_absorb(vc_step_t step, vc_pred_t pred, size_t nf);  // lemma (proved): pred is never left again
void vc_fold_inv(vc_step_t step, vc_pred_t pred, size_t nf);     // lemma (proved): pred is preserved by every step
uint64_t vc_uf(const char *name, uint64_t a, uint64_t b, uint64_t c, uint64_t d);  // uninterpreted function
void vc_witness(size_t k);                                      // registers a quantifier witness
// map<string, string> filled by at most one operator[] in a step: number of entries, and the entry
size_t vc_map_size(const void *m);
const std::string *vc_map_key(const void *m);
const std::string *vc_map_val(const void *m);
int vc_same(const void *a, const void *b);                     // same pointer
}

#ifdef VC_NATIVE
#include <utility>
std::vector<std::pair<const char *, void (*)()>> &vc_harnesses();
struct VcReg { VcReg(const char *n, void (*f)()) { vc_harnesses().push_back({n, f}); } };
#define VC_HARNESS(n) extern "C" void H_##n(); static VcReg vcreg_##n("H_" #n, H_##n); extern "C" void H_##n()
#else
#define VC_HARNESS(n) extern "C" void H_##n()
#endif

namespace vc {
template<typename T> struct Any;
template<> struct Any<bool> { static bool get(const char *n) { return (vc_any8(n) & 1) != 0; } };
#define VC_ANY_INT(T, f) template<> struct Any<T> { static T get(const char *n) { return static_cast<T>(f(n)); } };
VC_ANY_INT(char, vc_any8) VC_ANY_INT(signed char, vc_any8) VC_ANY_INT(unsigned char, vc_any8)
VC_ANY_INT(short, vc_any16) VC_ANY_INT(unsigned short, vc_any16)
VC_ANY_INT(int, vc_any32) VC_ANY_INT(unsigned, vc_any32)
VC_ANY_INT(long, vc_any64) VC_ANY_INT(unsigned long, vc_any64)
VC_ANY_INT(long long, vc_any64) VC_ANY_INT(unsigned long long, vc_any64)
template<> struct Any<double> { static double get(const char *n) { return vc_anyd(n); } };
template<> struct Any<float> { static float get(const char *n) { return vc_anyf(n); } };
template<typename T> T any(const char *name) { return Any<T>::get(name); }
inline void assume(bool c) { vc_assume(c); }
inline void check(bool c, const char *name) { vc_check(c, name); }
// storage for objects constructed by vc_string / vc_bytes
template<typename T> struct Raw {
	alignas(T) unsigned char mem[sizeof(T)];
	T *ptr() { return reinterpret_cast<T *>(mem); }
	T &operator*() { return *ptr(); }
	T *operator->() { return ptr(); }
};
// runs f, reports whether it threw an E (any other exception escapes and is an obligation failure of the harness)
#define VC_TRY(E, threw, stmt) bool threw = false; try { stmt; } catch (const E &) { threw = true; }
// an arbitrary byte of a string (or its emptiness) is remembered, so that a later string can be compared with it
struct Track;
}  // namespace vc
namespace vcspec {
bool is(const vc::Track *t, const std::string *s, size_t m, int c0, int c1, int c2);
inline char char_at(const std::string *s, size_t k) { return k < s->size() ? s->data()[k] : char(0); }
}
namespace vc {
struct Track {
	size_t n, k; char c;
	Track(const std::string &s, const char *nm) : n(s.size()), k(vc_any64(nm)), c(vcspec::char_at(&s, k)) { vc_assume((k < n) | (k == 0)); }
	// s is the remembered string followed by the m given characters
	void check(const std::string &s, const char *nm, size_t m = 0, int c0 = 0, int c1 = 0, int c2 = 0) const { vc_check(vcspec::is(this, &s, m, c0, c1, c2), nm); }
};
}  // namespace vc
namespace vcspec {
inline bool is(const vc::Track *t, const std::string *s, size_t m, int c0, int c1, int c2) {
	return s->size() == t->n + m && (t->n == 0 || char_at(s, t->k) == t->c) && (m < 1 || char_at(s, t->n) == char(c0)) && (m < 2 || char_at(s, t->n + 1) == char(c1)) &&
	       (m < 3 || char_at(s, t->n + 2) == char(c2));
}
}
namespace vc {
inline bool implies(bool a, bool b) { return !a | b; }
}  // namespace vc
