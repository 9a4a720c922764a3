// C03 (bounded): every operation on every heap of up to MAXN elements with arbitrary priorities (ties included), in any order the heap invariant allows
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/intrusive_heap.hpp>
using namespace crab;
#define MAXN 16
struct N { int key; IntrusiveHeapIndex idx; };
struct Less { bool operator()(const N &a, const N &b) const { if (a.key < b.key) { vc_reach("less"); return true; } return false; } };  // one path per outcome
typedef IntrusiveHeap<N, &N::idx, Less> Heap;
template<class T> union Hold { T v; Hold() {} ~Hold() {} };
// a heap of n elements: nodes[1..n], each at its own place (which node is where is a matter of naming), nodes[0] and nodes[n + 1] outside
template<int n> struct Env {
	Hold<Heap> h; N *data[MAXN + 3]; N nodes[MAXN + 2]; int keys[MAXN + 2];
	explicit Env(int room) {
		data[0] = nullptr;
		for (int i = 0; i < n + 2; ++i) { nodes[i].key = keys[i] = vc::any<int>("key"); nodes[i].idx.heap_index = 0; }
		for (int i = 1; i <= n; ++i) { data[i] = &nodes[i]; nodes[i].idx.heap_index = size_t(i); }
		bool ordered = true;
		for (int i = 2; i <= n; ++i) ordered &= keys[i / 2] >= keys[i];
		vc_assume(ordered);
		h.v.storage._M_impl._M_start = data; h.v.storage._M_impl._M_finish = data + n + 1; h.v.storage._M_impl._M_end_of_storage = data + n + 1 + room;
	}
	Heap &operator*() { return h.v; }
	// m elements now, node `out` is not one of them
	void valid(int m, int lo, int hi, int out) {
		vc_check(h.v.storage.size() == size_t(m) + 1, "size");
		bool same = true, placed = true, ordered = true;
		for (int i = 0; i < n + 2; ++i) same &= nodes[i].key == keys[i];
		vc_check(same, "elements-untouched");
		for (int i = lo; i <= hi; ++i) {
			if (i == out) continue;
			size_t p = nodes[i].idx.heap_index;
			if (p < 1 || p > size_t(m)) { vc_check(false, "contains.exactly"); return; }
			placed &= h.v.storage[p] == &nodes[i];
		}
		vc_check(placed, "contains.exactly");
		if (out >= 0) vc_check(!nodes[out].idx.in_heap(), "membership.of-removed");
		for (int i = 2; i <= m; ++i) ordered &= h.v.storage[size_t(i / 2)]->key >= h.v.storage[size_t(i)]->key;
		vc_check(ordered, "heap-order");
		vc_check(h.v.empty() == (m == 0), "empty");
		if (m == 0) return;
		bool first = true; int f = h.v.front().key;
		for (int i = lo; i <= hi; ++i) if (i != out) first &= f >= keys[i];
		vc_check(first, "front.extreme");
		vc_reach("end");
	}
	void unchanged() { bool ok = h.v.storage.size() == size_t(n) + 1; for (int i = 1; i <= n; ++i) ok &= (h.v.storage[size_t(i)] == &nodes[i]) & (nodes[i].idx.heap_index == size_t(i)); vc_check(ok, "no-effect.unchanged"); }
};
template<int n> static void insert(int room) { Env<n> e(room); vc_check((*e).insert(e.nodes[n + 1]), "insert.reports"); e.valid(n + 1, 1, n + 1, -1); }
template<int n> static void insert_again() { for (int j = 1; j <= n; ++j) { Env<n> e(1); vc_check(!(*e).insert(e.nodes[j]), "insert.twice-refused"); e.unchanged(); } }
template<int n> static void erase_other() { Env<n> e(1); vc_check((*e).erase(e.nodes[0]) == 0, "erase.absent-reports"); e.unchanged(); vc_check(!e.nodes[0].idx.in_heap(), "erase.absent"); }
template<int n, int j> static void erase_at() { Env<n> e(1); vc_check((*e).erase(e.nodes[j]) == 1, "erase.reports"); e.valid(n - 1, 1, n, j); }
template<int n, int j> struct Erase { static void go() { uint64_t x = vc_range("which", 0, 1); if (x) erase_at<n, j>(); else Erase<n, j - 1>::go(); } };
template<int n> struct Erase<n, 1> { static void go() { erase_at<n, 1>(); } };
template<int n> static void pop() { Env<n> e(1); (*e).pop_front(); e.valid(n - 1, 1, n, 1); }
#define SIZE(n) VC_HARNESS(insert_##n) { insert<n>(2); } VC_HARNESS(erase_absent_##n) { erase_other<n>(); }
#define SIZE1(n) SIZE(n) VC_HARNESS(insert_again_##n) { insert_again<n>(); } VC_HARNESS(erase_##n) { Erase<n, n>::go(); } VC_HARNESS(pop_##n) { pop<n>(); }
SIZE(0) SIZE1(1) SIZE1(2) SIZE1(3) SIZE1(4) SIZE1(5) SIZE1(6) SIZE1(7) SIZE1(8) SIZE1(9) SIZE1(10) SIZE1(11) SIZE1(12) SIZE1(13) SIZE1(14) SIZE1(15) SIZE1(16)
VC_HARNESS(insert_grows) { insert<3>(0); }
VC_HARNESS(initial) { Heap h; vc_check(h.empty(), "initial.empty"); N x; vc_check(!x.idx.in_heap(), "initial.not-in-heap"); }
