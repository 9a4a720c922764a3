
from mkseed import seed
import sys
NX = "include/crab/network.hxx"
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, id[:3], *a, **k)
H = "#include <crab/crab.hpp>\n#include <crab/all.hxx>\nusing namespace crab; typedef steady_clock::duration D;\nstatic steady_clock::time_point at(RunLoop &l, int64_t ns) { return l.links.now + D(ns); }\n"
S("C05-sleep-round", [(NX, "timeout_ms = 1 + static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(timer.fire_time - now).count());", "timeout_ms = std::max(1, static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(timer.fire_time - now).count()));")], H + """
int main() { RunLoop l; int calls = 0; Timer t([&]() { ++calls; }); t.once(D(2500000)); int ms = 1000; l.links.process_timer(ms); return ms >= 3 && !calls ? 0 : 1; }
""", "a timer due a fraction of a millisecond after a whole number of them", "the loop wakes up before the timer is due and polls")
S("C05-earlier-again", [(NX, "		moved_fire_time = fire_time = time_point;", "		moved_fire_time = std::max(moved_fire_time, time_point);\n		fire_time       = time_point;")], H + """
int main() { RunLoop l; int calls = 0; Timer t([&]() { ++calls; }); t.once_at(at(l, 1000)); t.once_at(at(l, 900000000000)); t.once_at(at(l, 10)); l.links.now += D(100); int ms = 1000; bool r = l.links.process_timer(ms); return r && calls == 1 ? 0 : 1; }
""", "a timer postponed and then set again to an earlier moment", "it fires at the postponed moment instead")
S("C05-clamp", [(NX, """	const auto ma                = steady_clock::time_point::max();
	const auto max_delay_seconds = (ma - now).count();

	if (delay.count() >= max_delay_seconds)
		once_at(ma);""", """	const auto ma                = steady_clock::time_point::max();
	const auto max_delay_seconds = ma.time_since_epoch().count();

	if (delay.count() >= max_delay_seconds)
		once_at(ma);""")], H + """
int main() { RunLoop l; int calls = 0; Timer t([&]() { ++calls; }); t.once(D::max() - D(10)); int ms = 1000; return !l.links.process_timer(ms) && !calls && t.is_set() ? 0 : 1; }
""", "a delay just below the largest representable one", "the moment overflows into the past and the timer fires at once", flags="-std=gnu++11 -O0 -g -fno-access-control -fwrapv")
S("C05-postponed-due", [(NX, """			active_timers.pop_front();
			if (timer.moved_fire_time > now) {""", """			active_timers.pop_front();
			if (timer.moved_fire_time > now + std::chrono::milliseconds(1)) {""")], H + """
int main() { RunLoop l; int calls = 0; Timer t([&]() { ++calls; }); t.once_at(at(l, 1000)); t.once_at(at(l, 500000)); l.links.now += D(2000); int ms = 1000; l.links.process_timer(ms); return calls == 0 ? 0 : 1; }
""", "a timer postponed to less than a millisecond after its first moment", "it fires early")
S("C05-moved-key", [(NX, "	if (is_set() && time_point >= fire_time) {\n		moved_fire_time = time_point;", "	if (is_set() && time_point >= fire_time) {\n		if (moved_fire_time == fire_time && active_timers_single())\n			fire_time = time_point;\n		moved_fire_time = time_point;")], "", "", "") if 0 else None
S("C05-order", [(NX, """				timer.fire_time = timer.moved_fire_time;
				active_timers.insert(timer);
				continue;""", """				active_timers.insert(timer);
				timer.fire_time = timer.moved_fire_time;
				continue;""")], H + """
int main() { RunLoop l; std::string order; Timer a([&]() { order += 'a'; }), b([&]() { order += 'b'; }); a.once_at(at(l, 1000)); a.once_at(at(l, 900000)); b.once_at(at(l, 3000)); 
	l.links.now += D(2000); int ms = 1000; l.links.process_timer(ms); l.links.now += D(2000); l.links.process_timer(ms); return order == "b" ? 0 : 1; }
""", "a timer postponed past another one", "the heap of timers is out of order and the other one fires late")
