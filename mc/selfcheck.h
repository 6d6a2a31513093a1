// The explorer checks itself: for small programs over mutexes and atomics the reduced search must find exactly the
// outcomes that the search through every schedule finds.
#pragma once
#include "threads.h"
#include <atomic>
#include <cstdio>
#include <mutex>
#include <shared_mutex>

namespace schedself
{
	struct World { std::atomic<int> x, y; std::mutex m; std::shared_mutex rw; int plain; int both; };
	// 0..: operations of the programs
	enum { XADD, YADD, XREAD, YREAD, COPY, LOCKED, TRY, SHARED, EXCL, CAS, NOPS };
	static const char* const NAMES[] = { "++x", "++y", "read x", "read y", "y = x", "locked ++plain", "try_lock", "lock_shared, read", "lock, ++both", "cas x 0->9" };
	struct Prog : sched::Test
	{
		int n, k, ops[3][3];
		World* w = nullptr;
		int threads() const override { return n; }
		int steps(int) const override { return k; }
		void setup() override { w = sched::make<World>(); w->x = 0; w->y = 0; w->plain = 0; w->both = 0; }
		void step(int t, int i) override
		{
			switch (ops[t][i])
			{
			case XADD: sched::result(w->x++); break;
			case YADD: sched::result(w->y.fetch_add(2)); break;
			case XREAD: sched::result(w->x.load()); break;
			case YREAD: sched::result(w->y.load()); break;
			case COPY: w->y.store(w->x.load()); break;
			case LOCKED: { std::lock_guard<std::mutex> l(w->m); sched::result(w->plain++); } break;
			case TRY: if (w->m.try_lock()) { sched::result(w->plain + 100); w->plain += 10; w->m.unlock(); } else sched::result(-1); break;
			case SHARED: { std::shared_lock<std::shared_mutex> l(w->rw); sched::result(w->both + 50 * w->x.load()); } break;
			case EXCL: { std::lock_guard<std::shared_mutex> l(w->rw); w->both++; w->x++; w->both++; } break;
			case CAS: { int e = 0; sched::result(w->x.compare_exchange_strong(e, 9) ? 77 : e); } break;
			}
		}
		void finish() override { sched::result(w->x); sched::result(w->y); sched::result(w->plain); sched::result(w->both); sched::destroy(w); }
		std::string describe() const override
		{
			std::string s = "self-check:";
			for (int t = 0; t < n; t++) { s += t ? " || " : " "; for (int i = 0; i < k; i++) s += (i ? "; " : "") + std::string(NAMES[ops[t][i]]); }
			return s;
		}
		std::string describe(int t, int i) const override { return NAMES[ops[t][i]]; }
	};
	static void compare(sched::Explorer& e, Prog& p)
	{
		p.reference = false;
		p.preemptions = -1;
		if (!e.run(p)) return;
		auto reduced = e.last;
		p.preemptions = 1000;
		if (!e.run(p)) return;
		if (!e.stop() && e.last != reduced) sched::fail("the explorer is broken: %zu outcomes with reduction, %zu without: %s", reduced.size(), e.last.size(), p.describe().c_str());
	}
	static void suite(sched::Explorer& e, int n, int k)
	{
		Prog p;
		p.n = n; p.k = k;
		int total = n * k;
		long count = 1;
		for (int i = 0; i < total; i++) count *= NOPS;
		for (long c = 0; c < count && !e.stop(); c++)
		{
			long r = c;
			bool sorted = true;
			for (int t = 0; t < n; t++) for (int i = 0; i < k; i++) { p.ops[t][i] = int(r % NOPS); r /= NOPS; }
			for (int t = 0; t + 1 < n && sorted; t++)
				for (int i = 0; i < k; i++) { if (p.ops[t][i] < p.ops[t + 1][i]) break; if (p.ops[t][i] > p.ops[t + 1][i]) { sorted = false; break; } }
			if (sorted) compare(e, p); // threads in one order: the others are the same program
		}
	}
}
