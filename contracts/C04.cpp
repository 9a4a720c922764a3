// C04: intrusive list. A list is a ring of nodes with a sentinel; the operations touch at most the two neighbours of the node they
// link or unlink. Contracts are stated for an arbitrary place of an arbitrary ring: ring sizes 1, 2, 3 and more are the aliasing cases
// (in rings of four and more nodes the outer neighbours are two different nodes, in rings of three they are the same one).
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/intrusive_list.hpp>
struct Item { long before; crab::IntrusiveNode<Item> link; long after; crab::IntrusiveNode<Item> other; };
typedef crab::IntrusiveNode<Item> Node;
typedef crab::IntrusiveList<Item, &Item::link> List;
typedef crab::IntrusiveIterator<Item, &Item::link> It;
template<class T> union Raw { T v; Raw() {} ~Raw() {} };
struct World {
	Raw<List> list;
	Raw<Item> i0, i1, i2, i3, fresh;
	Node *p, *q;	   // neighbours in the ring: p -> q
	Node *node[6]; Node *next[6]; Node *prev[6];
	World() {
		Node *s = &list.v.content, *a = &i0.v.link, *b = &i1.v.link, *c = &i2.v.link;
		node[0] = s; node[1] = a; node[2] = b; node[3] = c; node[4] = &i3.v.link; node[5] = &fresh.v.link;
		for (int i = 0; i != 6; ++i) { node[i]->next = nullptr; node[i]->prev = nullptr; }
		i0.v.other.next = i0.v.other.prev = fresh.v.other.next = fresh.v.other.prev = nullptr;
	}
	void remember() { for (int i = 0; i != 6; ++i) { next[i] = node[i]->next; prev[i] = node[i]->prev; } }
};
static inline void link(Node *a, Node *b) { a->next = b; b->prev = a; }
// a ring of `size` nodes (4 stands for any larger one) starting with the sentinel; w.p -> w.q is an arbitrary place of it
static void ring(World &w, size_t size, size_t at) {
	// node[0] is the sentinel; for size 4 the ring is cut open between node[3] and node[4]: what lies between them is arbitrary
	if (size <= 3) { for (size_t i = 0; i != size; ++i) link(w.node[i], w.node[(i + 1) % size]); }
	else { for (size_t i = 0; i != 4; ++i) link(w.node[i], w.node[i + 1]); link(w.node[4], w.node[0]); }
	size_t n = size <= 3 ? size : 5;
	w.p = w.node[at % n]; w.q = w.p->next;
	w.remember();
}
static size_t choose(const char *name, size_t hi) {
	uint8_t v = vc::any<uint8_t>(name);
	if (v == 0 || hi == 0) return 0;
	if (v == 1 || hi == 1) return 1;
	if (v == 2 || hi == 2) return 2;
	if (v == 3 || hi == 3) { vc_reach("case-3"); return 3; }
	return 4;
}
VC_HARNESS(insert) {
	World w;
	size_t size = choose("size", 3) + 1; ring(w, size, choose("at", 4));
	Node *n = &w.fresh.v.link, *p = w.p, *q = w.q;
	vc_check(!n->in_list(), "insert.not-in-list");
	w.list.v.insert(It(p), w.fresh.v);
	vc_reach("inserted");
	vc_check(p->next == n && n->prev == p && n->next == q && q->prev == n, "insert.linked-between");
	vc_check(n->in_list(), "insert.in-list");
	for (int i = 0; i != 6; ++i) {
		if (w.node[i] != n && w.node[i] != p) vc_check(w.node[i]->next == w.next[i], "insert.other-next");
		if (w.node[i] != n && w.node[i] != q) vc_check(w.node[i]->prev == w.prev[i], "insert.other-prev");
	}
	vc_check(!w.fresh.v.other.in_list(), "insert.other-link");
}
// linking an element that is linked already changes nothing
VC_HARNESS(insert_linked) {
	World w;
	size_t size = choose("size", 3) + 1; ring(w, size, choose("at", 4));
	if (size == 1) return;
	size_t kind = choose("kind", 2);
	if (kind == 0) w.list.v.insert(It(w.p), w.i0.v);
	else if (kind == 1) w.list.v.push_back(w.i0.v);
	else w.list.v.push_front(w.i0.v);
	vc_reach("nop");
	for (int i = 0; i != 6; ++i) vc_check(w.node[i]->next == w.next[i] && w.node[i]->prev == w.prev[i], "insert-linked.nothing-changed");
}
VC_HARNESS(push_back) {
	World w;
	size_t size = choose("size", 3) + 1; ring(w, size, 0);
	Node *s = &w.list.v.content, *last = s->prev, *n = &w.fresh.v.link;
	w.list.v.push_back(w.fresh.v);
	vc_reach("pushed");
	vc_check(last->next == n && n->prev == last && n->next == s && s->prev == n, "push-back.at-the-end");
	for (int i = 0; i != 6; ++i) {
		if (w.node[i] != n && w.node[i] != last) vc_check(w.node[i]->next == w.next[i], "push-back.other-next");
		if (w.node[i] != n && w.node[i] != s) vc_check(w.node[i]->prev == w.prev[i], "push-back.other-prev");
	}
	vc_check(&w.list.v.back() == &w.fresh.v, "push-back.back");
	vc_check(!w.list.v.empty(), "push-back.not-empty");
}
VC_HARNESS(push_front) {
	World w;
	size_t size = choose("size", 3) + 1; ring(w, size, 0);
	Node *s = &w.list.v.content, *first = s->next, *n = &w.fresh.v.link;
	w.list.v.push_front(w.fresh.v);
	vc_reach("pushed");
	vc_check(s->next == n && n->prev == s && n->next == first && first->prev == n, "push-front.at-the-front");
	for (int i = 0; i != 6; ++i) {
		if (w.node[i] != n && w.node[i] != s) vc_check(w.node[i]->next == w.next[i], "push-front.other-next");
		if (w.node[i] != n && w.node[i] != first) vc_check(w.node[i]->prev == w.prev[i], "push-front.other-prev");
	}
	vc_check(&w.list.v.front() == &w.fresh.v, "push-front.front");
	vc_check(!w.list.v.empty(), "push-front.not-empty");
}
static void check_unlinked(World &w, Node *n, Node *p, Node *q) {
	vc_check(p->next == q && q->prev == p, "unlink.neighbours-joined");
	vc_check(!n->in_list() && n->next == nullptr, "unlink.not-in-list");
	for (int i = 0; i != 6; ++i) {
		if (w.node[i] != n && w.node[i] != p) vc_check(w.node[i]->next == w.next[i], "unlink.other-next");
		if (w.node[i] != n && w.node[i] != q) vc_check(w.node[i]->prev == w.prev[i], "unlink.other-prev");
	}
}
VC_HARNESS(unlink) {
	World w;
	size_t size = choose("size", 3) + 1; ring(w, size, choose("at", 4));
	Node *n = w.q, *p = w.p, *q = n->next;
	if (n == &w.list.v.content) return;	   // elements only
	bool destroy = vc::any<bool>("destroy");
	if (destroy) n->~Node(); else n->unlink();
	vc_reach("unlinked");
	check_unlinked(w, n, p, q);
	// unlinking an element that is not linked changes nothing
	w.remember();
	if (destroy) n->~Node(); else n->unlink();
	for (int i = 0; i != 6; ++i) vc_check(w.node[i]->next == w.next[i] && w.node[i]->prev == w.prev[i], "unlink-again.nothing-changed");
}
VC_HARNESS(observers) {
	World w;
	size_t size = choose("size", 3) + 1; ring(w, size, choose("at", 4));
	List &l = w.list.v;
	vc_check(l.empty() == (size == 1), "empty");
	It b = l.begin(), e = l.end();
	vc_check((b == e) == (size == 1), "begin-end");
	vc_check((b != e) == (size != 1), "begin-end-ne");
	vc_check(b.current == &l.content, "begin.position");
	vc_check(e.current->next == &l.content, "end.position");
	if (size != 1) {
		vc_check(&l.front() == &w.i0.v, "front");
		vc_check(&l.front().link == l.content.next, "front.link");
		vc_check(&l.back().link == l.content.prev, "back");
	}
	It it(w.p);
	if (w.q != &l.content) { vc_check(&(*it).link == w.q, "deref"); vc_check(&it->link == w.q, "arrow"); vc_check(&it->before == &(*it).before, "arrow.field"); }
	It pre = it;
	It &r = ++pre;
	vc_check(&r == &pre && pre.current == w.q, "preincrement");
	It back = pre;
	--back;
	vc_check(back == it, "decrement-inverts");
	It post = it;
	vc_check(post++ == it && post == pre, "postincrement");
	vc_check(post-- == pre && post == it, "postdecrement");
	for (int i = 0; i != 6; ++i) vc_check(w.node[i]->next == w.next[i] && w.node[i]->prev == w.prev[i], "observers.nothing-changed");
	vc_reach("observed");
}
VC_HARNESS(initial) {
	Raw<List> l;
	new (&l.v) List();
	vc_check(l.v.empty() && l.v.begin() == l.v.end(), "initial.empty");
	vc_check(l.v.content.next == &l.v.content && l.v.content.prev == &l.v.content, "initial.ring");
	Raw<Item> i;
	new (&i.v) Item();
	vc_check(!i.v.link.in_list() && i.v.link.next == nullptr, "initial.node");
}
