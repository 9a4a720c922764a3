from mkseed import seed
import sys
IH = "include/crab/intrusive_heap.hpp"
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, id[:3], *a, **k)
H = """#include <crab/crab.hpp>
#include <crab/all.hxx>
#include <vector>
using namespace crab; struct N { int key = 0; IntrusiveHeapIndex idx; bool operator<(const N &b) const { return key < b.key; } }; typedef IntrusiveHeap<N, &N::idx> Heap;
static unsigned seed_ = 1; static unsigned rnd(unsigned n) { seed_ = seed_ * 1103515245u + 12345u; return (seed_ >> 8) % n; }
int main() { for (int round = 0; round < 3000; ++round) { Heap h; const int C = 12; N n[C]; for (auto &x : n) { x.key = int(rnd(8)); h.insert(x); }
	for (int step = 0; step < 40; ++step) {
		N &x = n[rnd(C)]; bool in = x.idx.in_heap();
		if (in ? h.erase(x) != 1 : h.erase(x) != 0) return 1;
		if (x.idx.in_heap()) return 2;
		if (rnd(2)) { x.key = int(rnd(8)); h.insert(x); }
		int best = -1, count = 0; for (auto &y : n) if (y.idx.in_heap()) { ++count; best = std::max(best, y.key); }
		if (h.empty() != (count == 0)) return 3;
		if (count && h.front().key != best) return 4;
		if (rnd(4) == 0 && count) { N &f = h.front(); h.pop_front(); if (f.idx.in_heap()) return 5; }
	} for (auto &y : n) h.erase(y); } return 0; }
"""
S("C03-erase-down", [(IH, "		if (ind < storage.size())\n			adjust(ind);", "		if (ind < storage.size())\n			move_down(ind);")], H, "erasing an element whose place is taken by one greater than its new parent", "the heap order breaks and front() is not the extreme element")
S("C03-last-child", [(IH, "if (lc + 1 < size && Pred{}(*at(lc), *at(lc + 1)))", "if (lc + 2 < size && Pred{}(*at(lc), *at(lc + 1)))")], H, "sifting down past the last element of the heap while it is the greater of two children", "the heap order breaks")
S("C03-adjust-child", [(IH, "if (ind > 1 && !Pred{}(*at(ind), *at(ind / 2)))", "if (ind > 2 && !Pred{}(*at(ind), *at((ind - 1) / 2)))")], H, "erasing from the middle of a heap with subtrees of different priorities", "the replacement is compared with an element that is not its parent, so the heap order breaks")
