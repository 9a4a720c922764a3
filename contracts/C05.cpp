// C05: timers. The heap of set timers is replaced by its contract (C03): front() is a set timer with the smallest fire_time.
#include "vc.hpp"
#include <crab/crab_version.hpp>
#include <crab/util.hxx>
#include <crab/streams.hxx>
#include <crab/network.hxx>
#include <crab/network_posix_win.hxx>
using namespace crab;
template<class T> union Hold { T v; Hold() {} ~Hold() {} };
static Hold<RunLoop> g_loop; static Hold<Timer> g_t;
static int64_t g_now; static bool g_empty, g_first; static unsigned g_fronts, g_pops, g_inserts, g_erases, g_calls, g_onces, g_steps, g_ticks, g_procs, g_idle;
static int64_t g_ins_fire, g_once, g_front_fire, g_rest; static int g_timeout, g_timeout0; static const Handler *g_called; static bool g_called_set, g_proc_result; static int g_step, g_proc_timeout;
static int64_t g_clock, g_fire, g_moved; static int g_out;
typedef steady_clock::time_point TP; typedef steady_clock::duration DU;
static inline int64_t t(TP p) { return p.time_since_epoch().count(); }
static inline TP tp(int64_t v) { return TP(DU(v)); }
static const int64_t NOW_MAX = int64_t(1) << 62;
static const int64_t MS = 1000000;
// what one turn of process_timer leaves behind when it goes round again: the timer is back in the heap under its new time, nothing else happened
static void again() {
	vc_check((g_pops == 1) & (g_inserts == 1) & (g_calls == 0) & (g_out == g_timeout0), "turn.again-only-reschedules");
	vc_check((g_fire <= g_now) & (g_moved > g_now), "turn.again-only-when-postponed");
	vc_check((t(g_t.v.fire_time) == g_moved) & (t(g_t.v.moved_fire_time) == g_moved) & (g_ins_fire == g_moved) & g_t.v.is_set(), "turn.again-under-last-setting");
	vc_reach("again");
}
static int *g_outp;
namespace vcrep {
typedef IntrusiveHeap<Timer, &Timer::heap_index, Timer::HeapPred> Heap;
bool heap_empty(const Heap *) { return g_empty; }
Timer &heap_front(Heap *) {
	g_fronts += 1;
	vc_check(!g_empty, "heap.front-of-nonempty");
	if (g_fronts == 2) { g_out = *g_outp; again(); vc_assume(false); }  // the next turn starts from a state of the kind this one started from
	return g_t.v;
}
void heap_pop(Heap *) { g_pops += 1; vc_check(g_t.v.is_set() & (t(g_t.v.fire_time) == g_fire), "heap.key-kept-while-in-heap"); g_t.v.heap_index.heap_index = 0; }
bool heap_insert(Heap *, Timer &x) { g_inserts += 1; g_ins_fire = t(x.fire_time); if (x.heap_index.heap_index != 0) return false; x.heap_index.heap_index = 1; return true; }
size_t heap_erase(Heap *, Timer &x) {
	g_erases += 1;
	if (x.heap_index.heap_index == 0) return 0;
	vc_check(t(x.fire_time) == g_fire, "heap.key-kept-while-in-heap");
	x.heap_index.heap_index = 0; return 1;
}
RunLoop *current() { return &g_loop.v; }
void handler(const Handler *h) { g_calls += 1; g_called = h; g_called_set = g_t.v.is_set(); if (g_calls == 1 && h != &g_t.v.a_handler) g_loop.v.links.quit = true; }
void once_at(Timer *, TP p) { g_onces += 1; g_once = t(p); }
bool process(details::RunLoopLinks *l, int &timeout) { g_procs += 1; g_proc_result = vc::any<bool>("fired"); timeout = g_proc_timeout; if (g_proc_result) l->quit = true; return g_proc_result; }
void step(RunLoop *l, int timeout) { g_steps += 1; g_step = timeout; l->links.quit = true; }
TP clock() { g_ticks += 1; g_clock = int64_t(vc_range("clock", 0, NOW_MAX)); return tp(g_clock); }
}
static void fresh() {
	g_fronts = g_pops = g_inserts = g_erases = g_calls = g_onces = g_steps = g_ticks = g_procs = g_idle = 0; g_called = nullptr; g_empty = g_first = g_called_set = false; g_ins_fire = g_once = 0; g_out = 0; g_outp = &g_out;
	g_now = int64_t(vc_range("now", 0, NOW_MAX)); g_loop.v.links.now = tp(g_now);
	g_fire = vc::any<int64_t>("fire"); g_moved = vc::any<int64_t>("moved");
	g_t.v.fire_time = tp(g_fire); g_t.v.moved_fire_time = tp(g_moved);
	g_t.v.heap_index.heap_index = 1;
	vc_assume(g_moved >= g_fire);  // kept by once_at below
}
VC_HARNESS(process_timer) {
	fresh();
	g_empty = vc::any<bool>("no-timers");
	g_rest = vc::any<int64_t>("another"); vc_assume(g_rest >= g_fire);  // fire_time of any other set timer: C03
	int timeout = g_timeout0 = int(vc_range("timeout", 1, RunLoop::MAX_SLEEP_MS)); g_outp = &timeout;
	bool r = g_loop.v.links.process_timer(timeout);
	if (g_empty) { vc_check(!r & (g_calls == 0) & (timeout == g_timeout0), "no-timers.nothing-happens"); return; }
	vc_check(r == (g_fire <= g_now), "fires.exactly-when-due");
	vc_check(g_inserts == 0, "fires.not-rescheduled");
	if (r) {
		vc_check(g_moved <= g_now, "fires.never-early");
		vc_check((g_calls == 1) & (g_called == &g_t.v.a_handler) & !g_called_set & (g_pops == 1), "fires.once-and-not-set");
		vc_check(g_rest >= g_fire, "fires.earliest-first");
		vc_reach("fires");
		return;
	}
	vc_check((g_calls == 0) & (g_pops == 0) & g_t.v.is_set() & (t(g_t.v.fire_time) == g_fire) & (t(g_t.v.moved_fire_time) == g_moved), "waits.timer-kept");
	vc_check(g_rest > g_now, "waits.nothing-due");
	if (g_fire < g_now + int64_t(RunLoop::MAX_SLEEP_MS) * MS) {
		vc_check((timeout >= 1) & (int64_t(timeout) == (g_fire - g_now) / MS + 1), "sleeps.rounded-up-to-a-millisecond");  // floor + 1: not before it is due, less than 1 ms + after
		vc_reach("sleeps");
	} else vc_check(timeout == g_timeout0, "sleeps.at-most-the-limit");
}
VC_HARNESS(once_at) {
	fresh();
	bool set = vc::any<bool>("set"); g_t.v.heap_index.heap_index = set ? 1 : 0;
	int64_t at = vc::any<int64_t>("at");
	g_t.v.once_at(tp(at));
	vc_check(g_t.v.is_set(), "once_at.set");
	vc_check(t(g_t.v.moved_fire_time) == at, "once_at.last-setting-wins");
	vc_check(t(g_t.v.fire_time) <= at, "once_at.scheduled-no-later");
	if (g_inserts == 0) vc_check(set & (t(g_t.v.fire_time) == g_fire) & (g_erases == 0), "once_at.postponed-in-place");
	else vc_check((g_inserts == 1) & (g_ins_fire == t(g_t.v.fire_time)) & (g_erases == 1) & (t(g_t.v.fire_time) == at), "once_at.rescheduled");
	vc_reach("end");
}
VC_HARNESS(once_duration) {
	fresh();
	int64_t d = vc::any<int64_t>("delay"), max = INT64_MAX;
	g_t.v.once(DU(d));
	vc_check((g_onces == 1) & (g_once == (d <= 0 ? g_now : d >= max - g_now ? max : int64_t(uint64_t(g_now) + uint64_t(d)))), "once.exact-or-clamped");
	vc_reach("end");
}
VC_HARNESS(once_double) {
	fresh();
	double d = vc::any<double>("seconds");
	vc_assume(d == d);
	g_t.v.once(d);
	vc_check(g_onces == 1, "once.sets");
	vc_check(g_once >= g_now, "once.never-in-the-past");
	if (d <= 0) vc_check(g_once == g_now, "once.negative-is-now");
	else if (d >= 9223372037.0) vc_check(g_once == INT64_MAX, "once.too-large-is-clamped");
	else if (g_once != INT64_MAX) vc_check(g_once - g_now == int64_t(d * 1e9), "once.exact-in-nanoseconds");
	vc_reach("end");
}
VC_HARNESS(cancel) {
	fresh();
	bool set = vc::any<bool>("set"); g_t.v.heap_index.heap_index = set ? 1 : 0;
	if (vc::any<bool>("destroy")) g_t.v.~Timer(); else g_t.v.cancel();
	vc_check(!g_t.v.heap_index.in_heap() & (g_erases == 1) & (g_inserts == 0) & (g_onces == 0), "cancel.not-set");
}

// one turn of the loop: what is triggered runs first, then due timers; only with neither it sleeps, as long as process_timer allows (not at all with idle handlers)
VC_HARNESS(loop_turn) {
	fresh();
	RunLoop &l = g_loop.v;
	new (&l.links.triggered_callables) decltype(l.links.triggered_callables)();
	new (&l.idle_handlers) decltype(l.idle_handlers)();
	Hold<Callable> c; new (&c.v.triggered_callables_node) IntrusiveNode<Callable>();
	Hold<Idle> i1, i2; new (&i1.v.idle_node) IntrusiveNode<Idle>(); new (&i2.v.idle_node) IntrusiveNode<Idle>();
	bool triggered = vc::any<bool>("triggered"), idle = vc::any<bool>("idle");
	if (triggered) l.links.triggered_callables.push_back(c.v);
	if (idle) { l.idle_handlers.push_back(i1.v); l.idle_handlers.push_back(i2.v); }
	l.links.quit = false;
	g_proc_timeout = int(vc_range("sleep", 1, RunLoop::MAX_SLEEP_MS));
	l.run();
	vc_check(g_ticks >= 1, "loop.reads-the-clock");
	if (triggered) { vc_check((g_calls == 1) & (g_called == &c.v.handler) & (g_procs == 0) & (g_steps == 0) & !c.v.triggered_callables_node.in_list(), "loop.triggered-first-and-once"); return; }
	vc_check(g_procs == 1, "loop.timers-before-sleep");
	if (g_proc_result) { vc_check((g_steps == 0) & (g_calls == 0), "loop.no-sleep-after-timer"); vc_reach("fired"); return; }
	vc_check((g_steps == 1) & (g_step == (idle ? 0 : g_proc_timeout)), "loop.sleeps-no-longer-than-to-the-timer");
	vc_check((g_ticks >= 2) & (t(l.links.now) == g_clock), "loop.time-updated-after-sleep");
	vc_check(g_calls == unsigned(idle), "loop.idle-when-nothing-else");
	if (idle) vc_check((g_called == &i1.v.a_handler) & (&l.idle_handlers.front() == &i2.v), "loop.idle-round-robin");
	vc_reach("slept");
}
