#include "threads.h"
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C"
{
	void* __real_malloc(size_t);
	void __real_free(void*);
	void* __real_calloc(size_t, size_t);
	void* __real_realloc(void*, size_t);
	int __real_pthread_mutex_lock(pthread_mutex_t*);
	int __real_pthread_mutex_unlock(pthread_mutex_t*);
}

namespace sched
{
	constexpr int NT = MAXT + 1;            // thread 0 is the main thread
	constexpr int MAXD = 4096;              // synchronisation operations per execution
	constexpr int MAXR = 64;

	static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
	static bool g_Thorough = false;
	bool thorough() { return g_Thorough; }

	// ---- shared with the parent process ----------------------------------------------------------------------------
	enum Kind : uint8_t { NONE, LOCK, TRYLOCK, UNLOCK, RDLOCK, RDUNLOCK, READ, WRITE, FENCE };
	static bool shares(Kind k) { return k == READ || k == RDLOCK || k == RDUNLOCK; } // independent of each other
	static const char* kindName[] = { "", "lock", "try_lock", "unlock", "lock_shared", "unlock_shared", "atomic read", "atomic write", "fence" };
	struct Step { uint8_t thread; uint8_t kind; uint16_t op; uint32_t obj; };
	struct Report
	{
		volatile uint64_t heartbeat, programs, states, executions, transitions, redundant, pruned, sequential, depth, outcomes;
		volatile int capped, done, violated, diverged;
		char msg[1500];
		char program[600];
		int nsteps, nchoices;
		Step steps[MAXD];
		uint8_t choices[MAXD];
		int nsamples;
		char samples[3][700];
		uint64_t programIndex;
		double wall;
		char opText[MAXT][16][80];
	};
	static Report* R = nullptr;

	// ---- threads -----------------------------------------------------------------------------------------------------
	using Clock = uint16_t;
	struct Pending { Kind kind = NONE; const void* obj = nullptr; };
	struct Thread
	{
		void* sp = nullptr;                // where it goes on
		uintptr_t fs = 0;                  // its thread-local storage
		int savedRuntime = 0;
		bool done = false;
		Pending pending;
		int op = 0;                        // current step
		Clock c[NT];                       // happens-before
		Clock acq[NT], rel[NT];            // for fences
		int dep[NT];                       // dependence: last transition of each thread that precedes
		char* stackLo = nullptr;
		char* stackHi = nullptr;
		long results[MAXR];
		int nresults = 0;
		// waiting in a loop on an atomic
		const void* spinOn = nullptr;
		const void* lastObj = nullptr;
		uint64_t lastVal = 0;
		int same = 0;
	};
	static Thread th[NT];
	static int self = 0;
	static int inRuntime = 0;
	static bool inExecution = false, concurrent = false;
	static Test* test = nullptr;
	static int nthreads = 0;
	struct Runtime { Runtime() { inRuntime++; } ~Runtime() { inRuntime--; } };

	// The threads are real ones as far as the code can tell (identity, thread-local storage), but they take turns on one
	// processor: changing over means to change the stack and the base of the thread-local storage.
	extern "C" void mc_switch_stack(void** from, void* to);
	asm(R"(
		.text
		.globl mc_switch_stack
		.type mc_switch_stack, @function
	mc_switch_stack:
		pushq %rbp
		pushq %rbx
		pushq %r12
		pushq %r13
		pushq %r14
		pushq %r15
		movq %rsp, (%rdi)
		movq %rsi, %rsp
		popq %r15
		popq %r14
		popq %r13
		popq %r12
		popq %rbx
		popq %rbp
		ret
		.size mc_switch_stack, .-mc_switch_stack
	)");
	static bool fastFs = false;
	static void setFs(uintptr_t fs)
	{
		if (fastFs) asm volatile("wrfsbase %0" :: "r"(fs) : "memory");
		else syscall(SYS_arch_prctl, 0x1002 /* ARCH_SET_FS */, fs);
	}
	// Thread t goes on; returns when somebody hands back to this one
	static void handTo(int t)
	{
		int me = self;
		if (t == me) return;
		th[me].savedRuntime = inRuntime;
		self = t;
		inRuntime = th[t].savedRuntime;
		setFs(th[t].fs);
		mc_switch_stack(&th[me].sp, th[t].sp);
	}

	// ---- memory -------------------------------------------------------------------------------------------------------
	struct Block { char* p; size_t n; bool freed; uint8_t by, op; bool object; };
	// Every thread takes its memory from a region of its own, so that addresses do not depend on the schedule
	static char* arena = nullptr;
	constexpr size_t REGION = size_t(2) << 20, ARENA = NT * REGION;
	constexpr int MAXB = 2048;
	struct Region { char* bump; int n; Block tab[MAXB]; };
	static Region regions[NT];
	static int actor = 0;                   // sequential executions: the thread whose step the main thread runs
	static bool inArena(const void* p) { return static_cast<const char*>(p) >= arena && static_cast<const char*>(p) < arena + ARENA; }
	static Block* blockOf(const void* q)
	{
		Region& r = regions[size_t(static_cast<const char*>(q) - arena) / REGION];
		int lo = 0, hi = r.n;
		while (lo < hi) { int m = (lo + hi) / 2; if (r.tab[m].p <= q) lo = m + 1; else hi = m; }
		return lo ? &r.tab[lo - 1] : nullptr;
	}

	// ---- shadow -------------------------------------------------------------------------------------------------------
	struct Cell
	{
		uintptr_t key;
		uint32_t gen;
		unsigned touched;                     // by which threads; the records of the others mean nothing
		struct Record { Clock pw[8], pr[8], aw[8], ar[8]; } by[NT];
	};
	constexpr size_t CELLS = size_t(1) << 15;
	static Cell* cells = nullptr;
	static uint32_t gen = 0;
	static size_t cellsUsed = 0;
	static uint16_t opAt[NT][65536 / 8]; // step in which a clock value was current
	static Cell& cell(uintptr_t granule)
	{
		size_t h = (granule * 0x9E3779B97F4A7C15ull) >> 49;
		for (;; h = (h + 1) & (CELLS - 1))
		{
			Cell& c = cells[h];
			if (c.gen != gen)
			{
				c.key = granule; c.gen = gen; c.touched = 0;
				if (++cellsUsed > CELLS * 3 / 4) fail("the harness touches too much memory");
				return c;
			}
			if (c.key == granule) return c;
		}
	}
	static std::string opName(int t, int op)
	{
		if (t == 0) return "main thread";
		if (op < 0 || op >= 16) return "thread " + std::to_string(t) + " (end)";
		return "thread " + std::to_string(t) + " in " + R->opText[t - 1][op];
	}
	static std::string where(const void* p)
	{
		char s[160];
		if (inArena(p))
		{
			Block* b = blockOf(p);
			if (b && static_cast<const char*>(p) < b->p + b->n)
			{
				snprintf(s, sizeof s, "byte %zu of a%s block of %zu bytes", size_t(static_cast<const char*>(p) - b->p), b->object ? "n object" : "", b->n);
				return s;
			}
			return "memory outside of any block";
		}
		return "a static object";
	}
	enum Access { PREAD, PWRITE, AREAD, AWRITE };
	static void access(const void* addr, size_t n, Access a)
	{
		if (!inExecution || inRuntime) return;
		const char* p = static_cast<const char*>(addr);
		Thread& me = th[self];
		if (p >= me.stackLo && p < me.stackHi) return;
		Runtime guard;
		static const char* verb[] = { "reads", "writes", "atomically reads", "atomically writes" };
		if (inArena(p))
		{
			Block* b = blockOf(p);
			if (!b || p + n > b->p + b->n) fail("%s %s %zu bytes outside of any block", opName(self, me.op).c_str(), verb[a], n);
			if (b->freed) fail("%s %s %zu bytes of a block of %zu bytes that was freed by %s", opName(self, me.op).c_str(), verb[a], n, b->n, opName(b->by, b->op).c_str());
		}
		opAt[self][me.c[self] & 8191] = uint16_t(me.op);
		while (n)
		{
			uintptr_t g = reinterpret_cast<uintptr_t>(p) >> 3;
			unsigned o = reinterpret_cast<uintptr_t>(p) & 7, k = unsigned(n < 8 - o ? n : 8 - o);
			Cell& c = cell(g);
			for (unsigned others = c.touched & ~(1u << self); others; others &= others - 1)
			{
				int t = __builtin_ctz(others);
				const Cell::Record& x = c.by[t];
				Clock seen = me.c[t];
				for (unsigned i = o; i < o + k; i++)
				{
					const char* other = nullptr;
					Clock when = 0;
					if (x.pw[i] > seen) { other = "write"; when = x.pw[i]; }
					else if (a != AREAD && a != AWRITE && x.aw[i] > seen) { other = "atomic write"; when = x.aw[i]; }
					else if ((a == PWRITE || a == AWRITE) && x.pr[i] > seen) { other = "read"; when = x.pr[i]; }
					else if (a == PWRITE && x.ar[i] > seen) { other = "atomic read"; when = x.ar[i]; }
					if (other)
						fail("data race: %s %s %s, which is not ordered after the %s by %s", opName(self, me.op).c_str(), verb[a], where(p).c_str(), other, opName(t, int16_t(opAt[t][when & 8191])).c_str());
				}
			}
			Cell::Record& mine = c.by[self];
			if (!(c.touched >> self & 1)) { memset(&mine, 0, sizeof mine); c.touched |= 1u << self; }
			auto& rec = a == PREAD ? mine.pr : a == PWRITE ? mine.pw : a == AREAD ? mine.ar : mine.aw;
			for (unsigned i = o; i < o + k; i++) rec[i] = me.c[self];
			p += k; n -= k;
		}
	}
	static void* arenaAlloc(size_t n, size_t align, bool object)
	{
		if (n > (size_t(1) << 20)) return nullptr;
		if (align < 16) align = 16;
		int owner = self ? self : actor;
		Region& r = regions[owner];
		uintptr_t at = (reinterpret_cast<uintptr_t>(r.bump) + 32 + align - 1) / align * align;
		if (at + n + 64 > reinterpret_cast<uintptr_t>(arena + size_t(owner + 1) * REGION) || r.n >= MAXB) fail("the harness ran out of memory");
		char* p = reinterpret_cast<char*>(at);
		r.bump = p + n;
		r.tab[r.n++] = Block{ p, n, false, uint8_t(self), uint8_t(th[self].op), object };
		memset(p, 0xCD, n);
		return p;
	}
	static void arenaFree(void* q)
	{
		Runtime guard;
		Block* b = inArena(q) ? blockOf(q) : nullptr;
		if (!b || b->p != q) fail("%s frees a pointer that is not the start of a block", opName(self, th[self].op).c_str());
		if (b->freed) fail("%s frees a block of %zu bytes that was already freed by %s", opName(self, th[self].op).c_str(), b->n, opName(b->by, b->op).c_str());
		inRuntime--;
		access(q, b->n, PWRITE); // nobody may still be using it
		inRuntime++;
		b->freed = true;
		b->by = uint8_t(self);
		b->op = uint8_t(th[self].op);
	}
	void* object(size_t n, size_t align) { Runtime g; return arenaAlloc(n, align, true); }
	void release(void* p) { arenaFree(p); }
	long place(const void* p)
	{
		if (!p) return 0;
		if (inArena(p)) return static_cast<const char*>(p) - arena;
		return 1000000000;
	}
	bool live(const void* p, size_t n)
	{
		if (!inArena(p)) return false;
		Block* b = blockOf(p);
		return b && !b->freed && static_cast<const char*>(p) + n <= b->p + b->n;
	}
	size_t blocks() { size_t k = 0; for (Region& r : regions) for (int i = 0; i < r.n; i++) k += !r.tab[i].freed; return k; }
	void result(long v)
	{
		Thread& me = th[self];
		if (me.nresults < MAXR) me.results[me.nresults++] = v;
	}

	// ---- synchronisation objects ---------------------------------------------------------------------------------------
	struct Sync
	{
		const void* addr = nullptr;
		int id = 0;
		int owner = -1, count = 0;
		unsigned readers = 0;              // shared owners
		Clock clk[NT], rclk[NT];           // released by writers, by readers
		int depW[NT], depA[NT];            // dependence: last write, all since
	};
	static Sync syncs[512];
	static int nsyncs = 0;
	static Sync& syncOf(const void* a)
	{
		for (int i = 0; i < nsyncs; i++) if (syncs[i].addr == a) return syncs[i];
		if (nsyncs == 512) fail("too many synchronisation objects");
		Sync& s = syncs[nsyncs];
		s = Sync();
		s.addr = a; s.id = nsyncs++;
		memset(s.clk, 0, sizeof s.clk);
		memset(s.rclk, 0, sizeof s.rclk);
		for (int i = 0; i < NT; i++) s.depW[i] = s.depA[i] = -1;
		return s;
	}
	template<class T> static void join(T* a, const T* b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
	static void tick(int t)
	{
		if (++th[t].c[t] >= 65000) fail("too many synchronisation operations");
		opAt[t][th[t].c[t] & 8191] = uint16_t(th[t].op);
	}

	// ---- exploration ---------------------------------------------------------------------------------------------------
	struct State
	{
		Pending pending[NT];
		unsigned enabled, alive, backtrack, done, sleep;
		int chosen, current, preempted;
	};
	static std::vector<State>* stackPtr = nullptr;
	static std::vector<int>* forced = nullptr;      // replayed choices
	static int depth = 0, current = 0;
	static bool starting = false;                   // the threads run up to their first synchronisation operation
	static bool redundant = false, pruned = false;
	struct Trans { int thread; Pending p; int dep[NT]; }; // dep: the last transition of every thread that happens before (itself included)
	static Trans trace[MAXD];
	static int spins = 0;

	static bool dependent(const Pending& a, const Pending& b)
	{
		if (a.kind == NONE || b.kind == NONE || a.kind == FENCE || b.kind == FENCE || a.obj != b.obj) return false;
		if (shares(a.kind) && shares(b.kind)) return false;
		return true;
	}
	static bool coenabled(const Pending& a, const Pending& b)
	{
		// whoever unlocks holds the lock, so that nobody else can lock it
		auto never = [](Kind x, Kind y) { return (x == LOCK && (y == UNLOCK || y == RDUNLOCK)) || (x == RDLOCK && y == UNLOCK) || (x == UNLOCK && y == RDUNLOCK); };
		return !never(a.kind, b.kind) && !never(b.kind, a.kind);
	}
	static bool isEnabled(int t)
	{
		Thread& x = th[t];
		if (x.done) return false;
		if (x.spinOn) return false;
		if (x.pending.kind == LOCK)
		{
			Sync& s = syncOf(x.pending.obj);
			return s.owner == -1 && !s.readers;
		}
		if (x.pending.kind == RDLOCK) return syncOf(x.pending.obj).owner == -1;
		return true;
	}
	static bool samePending(const Pending& a, const Pending& b) { return a.kind == b.kind && a.obj == b.obj; }

	// Chooses the thread that goes on; every thread is at its next synchronisation operation
	static int choose()
	{
		unsigned enabled = 0, alive = 0;
		for (int t = 1; t <= nthreads; t++) { if (!th[t].done) alive |= 1u << t; if (isEnabled(t)) enabled |= 1u << t; }
		if (!alive) return 0;
		if (!enabled)
		{
			bool any = false;
			for (int t = 1; t <= nthreads; t++) if (th[t].spinOn) { any = true; th[t].spinOn = nullptr; th[t].same = 0; }
			if (any && ++spins < 6) { for (int t = 1; t <= nthreads; t++) if (isEnabled(t)) enabled |= 1u << t; }
			if (!enabled || spins >= 6)
			{
				std::string s;
				for (int t = 1; t <= nthreads; t++) if (!th[t].done) s += opName(t, th[t].op) + " waits for " + kindName[th[t].pending.kind] + "; ";
				fail("deadlock: %s", s.c_str());
			}
		}
		if (depth >= test->horizon || depth >= MAXD - 1)
		{
			// not explored any further; runs to its end without preemptions
			pruned = true;
			redundant = true;
			if (depth >= MAXD - 1) fail("the threads do not come to an end (livelock)");
		}
		std::vector<State>& st = *stackPtr;
		if (forced)
		{
			if (depth < int(forced->size()))
			{
				int c = (*forced)[size_t(depth)];
				if (!(enabled >> c & 1)) { R->diverged = 1; _exit(5); }
				return c;
			}
			return enabled >> current & 1 ? current : __builtin_ctz(enabled);
		}
		if (depth < int(st.size()))
		{
			State& s = st[size_t(depth)];
			bool ok = s.enabled == enabled && s.alive == alive;
			for (int t = 1; t <= nthreads; t++) ok = ok && samePending(s.pending[t], th[t].pending);
			if (!ok) { R->diverged = 1; snprintf(R->msg, sizeof R->msg, "a replayed schedule behaved differently at step %d", depth); _exit(5); }
			return s.chosen;
		}
		if (redundant) return enabled >> current & 1 ? current : __builtin_ctz(enabled);
		State s;
		for (int t = 0; t < NT; t++) s.pending[t] = th[t].pending;
		s.enabled = enabled; s.alive = alive; s.done = 0; s.sleep = 0; s.current = current;
		s.preempted = 0;
		bool bounded = test->preemptions >= 0;
		if (!st.empty())
		{
			State& prev = st.back();
			s.preempted = prev.preempted + (prev.chosen != prev.current && (prev.enabled >> prev.current & 1) ? 1 : 0);
			if (!bounded)
				for (int t = 1; t <= nthreads; t++)
					if (((prev.sleep | prev.done) >> t & 1) && t != prev.chosen && !dependent(prev.pending[t], prev.pending[prev.chosen])) s.sleep |= 1u << t;
		}
		if (bounded)
		{
			s.backtrack = enabled;
			bool still = enabled >> current & 1;
			if (still && s.preempted >= test->preemptions) s.backtrack = 1u << current;
			s.chosen = still ? current : __builtin_ctz(enabled);
			s.done = 1u << s.chosen;
			st.push_back(s);
			R->states = R->states + 1;
			return s.chosen;
		}
		unsigned can = enabled & ~s.sleep;
		if (!can)
		{
			redundant = true; // every continuation was explored elsewhere
			return enabled >> current & 1 ? current : __builtin_ctz(enabled);
		}
		s.chosen = can >> current & 1 ? current : __builtin_ctz(can);
		s.backtrack = s.done = 1u << s.chosen;
		st.push_back(s);
		R->states = R->states + 1;
		return s.chosen;
	}
	// Dynamic partial-order reduction with source sets (Abdulla, Aronis, Jonsson, Sagonas, POPL 2014): for every earlier
	// transition i that races with the one that thread p executes now, some thread that can begin an execution in which
	// p's transition comes before i must be tried in the state before i.
	static void races(int p)
	{
		std::vector<State>& st = *stackPtr;
		Thread& x = th[p];
		for (int i = depth - 1; i >= 0; i--)
		{
			Trans& e = trace[i];
			if (e.thread == p || i <= x.dep[e.thread]) continue;
			if (!dependent(e.p, x.pending) || !coenabled(e.p, x.pending)) continue;
			// the threads whose first transition after i has no predecessor among those that do not depend on i
			unsigned initials = 0, begun = 0;
			int first[NT];
			auto precedes = [&](const int* dep) { for (int t = 1; t <= nthreads; t++) if ((begun >> t & 1) && dep[t] >= first[t]) return true; return false; };
			for (int k = i + 1; k < depth; k++)
			{
				Trans& f = trace[k];
				if (f.dep[e.thread] >= i || (begun >> f.thread & 1)) continue;
				if (!precedes(f.dep)) initials |= 1u << f.thread;
				begun |= 1u << f.thread;
				first[f.thread] = k;
			}
			if (!(begun >> p & 1))
			{
				int dep[NT];
				memcpy(dep, x.dep, sizeof dep);
				if (x.pending.kind != NONE && x.pending.kind != FENCE)
				{
					Sync& s = syncOf(x.pending.obj);
					join(dep, s.depW);
					if (!shares(x.pending.kind)) join(dep, s.depA);
				}
				if (!precedes(dep)) initials |= 1u << p;
			}
			State& b = st[size_t(i)];
			initials &= b.enabled;
			if (!initials) b.backtrack |= b.enabled;
			else if (!(initials & b.backtrack)) b.backtrack |= initials >> p & 1 ? 1u << p : initials & -initials;
		}
	}
	// The chosen thread executes its operation
	static void commit(int t)
	{
		Thread& x = th[t];
		if (depth >= MAXD) fail("too many synchronisation operations");
		if (!forced && !redundant && test->preemptions < 0 && depth + 1 >= int(stackPtr->size())) races(t);
		trace[depth].thread = t;
		trace[depth].p = x.pending;
		if (x.pending.kind != NONE && x.pending.kind != FENCE)
		{
			Sync& s = syncOf(x.pending.obj);
			if (shares(x.pending.kind)) join(x.dep, s.depW); else { join(x.dep, s.depW); join(x.dep, s.depA); }
			x.dep[t] = depth;
			if (shares(x.pending.kind)) join(s.depA, x.dep);
			else { memcpy(s.depW, x.dep, sizeof s.depW); memcpy(s.depA, x.dep, sizeof s.depA); }
			R->steps[depth] = Step{ uint8_t(t), uint8_t(x.pending.kind), uint16_t(x.op), uint32_t(s.id) };
		}
		else { x.dep[t] = depth; R->steps[depth] = Step{ uint8_t(t), uint8_t(x.pending.kind), uint16_t(x.op), 0 }; }
		memcpy(trace[depth].dep, x.dep, sizeof x.dep);
		R->choices[depth] = uint8_t(t);
		depth++;
		R->nsteps = R->nchoices = depth;
		R->transitions = R->transitions + 1;
		R->heartbeat = R->heartbeat + 1;
		current = t;
	}
	// A synchronisation operation of the current thread
	static void syncPoint(Kind k, const void* obj)
	{
		if (!inExecution || !concurrent || self == 0) return;
		int me = self;
		th[me].pending = Pending{ k, obj };
		int c = starting ? 0 : choose();
		if (c != me) handTo(c);
		commit(me);
	}
	static void alive(const void* p, size_t n, Access a)
	{
		int keep = inRuntime;
		inRuntime = 0;
		access(p, n, a);
		inRuntime = keep;
	}

	// ---- mutexes ---------------------------------------------------------------------------------------------------------
	static void acquired(Sync& s, bool shared)
	{
		join(th[self].c, s.clk);
		if (!shared) join(th[self].c, s.rclk);
	}
	static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
	static int lockMutex(const void* m, bool rec, bool tryOnly)
	{
		Runtime g;
		alive(m, 1, AWRITE);
		if (rec && syncOf(m).owner == self) { syncOf(m).count++; return 0; }
		syncPoint(tryOnly ? TRYLOCK : LOCK, m);
		Sync& s = syncOf(m);
		if (s.owner != -1 || s.readers)
		{
			if (tryOnly) return EBUSY;
			fail("deadlock: %s locks a mutex that is already locked", opName(self, th[self].op).c_str());
		}
		s.owner = self; s.count = 1;
		acquired(s, false);
		return 0;
	}
	static int unlockMutex(const void* m)
	{
		Runtime g;
		alive(m, 1, AWRITE);
		{
			Sync& s = syncOf(m);
			if (s.owner == self && s.count > 1) { s.count--; return 0; }
			if (s.owner != self) fail("%s unlocks a mutex that it has not locked", opName(self, th[self].op).c_str());
		}
		syncPoint(UNLOCK, m);
		Sync& s = syncOf(m);
		s.owner = -1; s.count = 0;
		memcpy(s.clk, th[self].c, sizeof s.clk);
		tick(self);
		return 0;
	}
	static int lockShared(const void* m, bool tryOnly)
	{
		Runtime g;
		alive(m, 1, AWRITE);
		syncPoint(tryOnly ? TRYLOCK : RDLOCK, m);
		Sync& s = syncOf(m);
		if (s.owner != -1) { if (tryOnly) return EBUSY; fail("deadlock: %s locks a mutex that is already locked", opName(self, th[self].op).c_str()); }
		s.readers |= 1u << self;
		acquired(s, true);
		return 0;
	}
	static int unlockRw(const void* m)
	{
		{
			Sync& s = syncOf(m);
			if (s.owner == self) return unlockMutex(m);
			if (!(s.readers >> self & 1)) { Runtime g; fail("%s unlocks a mutex that it has not locked", opName(self, th[self].op).c_str()); }
		}
		Runtime g;
		alive(m, 1, AWRITE);
		syncPoint(RDUNLOCK, m);
		Sync& s = syncOf(m);
		s.readers &= ~(1u << self);
		join(s.rclk, th[self].c);
		tick(self);
		return 0;
	}

	// ---- atomics -----------------------------------------------------------------------------------------------------------
	static bool isAcquire(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static bool isRelease(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static void readSync(const void* a, int mo)
	{
		Sync& s = syncOf(a);
		Thread& me = th[self];
		join(me.acq, s.clk);
		if (isAcquire(mo)) join(me.c, s.clk);
	}
	static void writeSync(const void* a, int mo, bool rmw)
	{
		Sync& s = syncOf(a);
		Thread& me = th[self];
		if (!rmw) memset(s.clk, 0, sizeof s.clk); // heads a new release sequence
		join(s.clk, me.rel);
		if (isRelease(mo)) join(s.clk, me.c);
		tick(self);
	}
	// A thread that reads the same value again and again waits for somebody to change it
	static void observe(const void* a, uint64_t v, bool changed)
	{
		Thread& me = th[self];
		if (!concurrent || !self) return;
		if (changed)
		{
			spins = 0;
			for (int t = 1; t <= nthreads; t++) if (th[t].spinOn == a) { th[t].spinOn = nullptr; th[t].same = 0; }
			me.lastObj = nullptr; me.same = 0;
			return;
		}
		if (me.lastObj == a && me.lastVal == v) { if (++me.same >= 3) { me.spinOn = a; } }
		else { me.lastObj = a; me.lastVal = v; me.same = 0; }
	}
	template<class T> static T atomicLoad(const volatile T* a, int mo)
	{
		if (!inExecution || inRuntime) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
		Runtime g;
		const void* p = const_cast<const T*>(a);
		syncPoint(READ, p);
		alive(p, sizeof(T), AREAD);
		readSync(p, mo);
		T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);
		observe(p, uint64_t(v), false);
		return v;
	}
	template<class T> static void atomicStore(volatile T* a, T v, int mo)
	{
		if (!inExecution || inRuntime) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
		Runtime g;
		void* p = const_cast<T*>(a);
		syncPoint(WRITE, p);
		alive(p, sizeof(T), AWRITE);
		T old = __atomic_load_n(a, __ATOMIC_SEQ_CST);
		writeSync(p, mo, false);
		__atomic_store_n(a, v, __ATOMIC_SEQ_CST);
		observe(p, uint64_t(v), old != v);
	}
	template<class T, class F> static T atomicRmw(volatile T* a, int mo, F f)
	{
		if (!inExecution || inRuntime)
		{
			T old = __atomic_load_n(a, __ATOMIC_SEQ_CST);
			while (!__atomic_compare_exchange_n(a, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
			return old;
		}
		Runtime g;
		void* p = const_cast<T*>(a);
		syncPoint(WRITE, p);
		alive(p, sizeof(T), AWRITE);
		T old = __atomic_load_n(a, __ATOMIC_SEQ_CST), v = f(old);
		readSync(p, mo);
		writeSync(p, mo, true);
		__atomic_store_n(a, v, __ATOMIC_SEQ_CST);
		observe(p, uint64_t(old), old != v);
		return old;
	}
	template<class T> static bool atomicCas(volatile T* a, T* expected, T v, int mo, int fail)
	{
		if (!inExecution || inRuntime) return __atomic_compare_exchange_n(a, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
		Runtime g;
		void* p = const_cast<T*>(a);
		syncPoint(WRITE, p);
		T old = __atomic_load_n(a, __ATOMIC_SEQ_CST);
		if (old == *expected)
		{
			alive(p, sizeof(T), AWRITE);
			readSync(p, mo);
			writeSync(p, mo, true);
			__atomic_store_n(a, v, __ATOMIC_SEQ_CST);
			observe(p, uint64_t(old), old != v);
			return true;
		}
		alive(p, sizeof(T), AREAD);
		readSync(p, fail);
		*expected = old;
		observe(p, uint64_t(old), false);
		return false;
	}
	static void fence(int mo)
	{
		if (!inExecution || inRuntime) return;
		Runtime g;
		syncPoint(FENCE, nullptr);
		Thread& me = th[self];
		if (isAcquire(mo)) join(me.c, me.acq);
		if (isRelease(mo)) { memcpy(me.rel, me.c, sizeof me.rel); tick(self); }
	}

	// ---- static variables initialised on first use -----------------------------------------------------------------------------
	static std::set<char*>* guards = nullptr;

	// ---- failure ---------------------------------------------------------------------------------------------------------------
	void fail(const char* fmt, ...)
	{
		inRuntime++;
		va_list ap;
		va_start(ap, fmt);
		if (!R->violated)
		{
			vsnprintf(R->msg, sizeof R->msg, fmt, ap);
			R->violated = 1;
		}
		va_end(ap);
		_exit(1);
	}
	static std::string schedule()
	{
		std::string s;
		for (int i = 0; i < R->nsteps && i < 120; i++)
		{
			Step& x = R->steps[i];
			s += (i ? "; " : "") + std::to_string(x.thread) + ":" + kindName[x.kind] + " #" + std::to_string(x.obj);
			if (i == 0 || R->steps[i - 1].thread != x.thread || R->steps[i - 1].op != x.op)
				if (x.thread >= 1 && x.op < 16) s += std::string(" [") + R->opText[x.thread - 1][x.op] + "]";
		}
		return s;
	}

	// ---- one execution -----------------------------------------------------------------------------------------------------------
	static void worker()
	{
		int t = self;
		inRuntime = 1;
		for (;;)
		{
			Test& x = *test;
			int k = x.steps(t - 1);
			inRuntime = 0;
			for (int i = 0; i < k; i++) { th[t].op = i; x.step(t - 1, i); }
			th[t].op = 15;
			x.end(t - 1);
			inRuntime = 1;
			th[t].done = true;
			th[t].pending = Pending();
			handTo(starting ? 0 : choose()); // comes back in the next execution
		}
	}
	static void startThreads(int n)
	{
		static int have = 0;
		constexpr size_t STACK = 256 * 1024;
		if (!have)
		{
			fastFs = getauxval(AT_HWCAP2) & 2;
			th[0].fs = uintptr_t(pthread_self());
			th[0].savedRuntime = 1;
		}
		while (have < n)
		{
			int t = ++have;
			// a thread that only lends its identity
			pthread_t id;
			pthread_attr_t at;
			pthread_attr_init(&at);
			pthread_attr_setstacksize(&at, 64 * 1024);
			if (pthread_create(&id, &at, [](void*) -> void* { for (;;) pause(); return nullptr; }, nullptr)) fail("the harness cannot create threads");
			char* s = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0));
			th[t].fs = uintptr_t(id);
			th[t].stackLo = s;
			th[t].stackHi = s + STACK;
			void** sp = reinterpret_cast<void**>(s + STACK - 64);
			*--sp = nullptr;                              // the return address of worker()
			*--sp = reinterpret_cast<void*>(&worker);
			for (int i = 0; i < 6; i++) *--sp = nullptr;
			th[t].sp = sp;
			th[t].savedRuntime = 1;
		}
	}
	static void resetWorld()
	{
		if (++gen == 0) gen = 1;
		cellsUsed = 0;
		for (int t = 0; t < NT; t++) { regions[t].bump = arena + size_t(t) * REGION; regions[t].n = 0; }
		actor = 0;
		nsyncs = 0;
		depth = 0;
		spins = 0;
		redundant = pruned = false;
		for (int t = 0; t < NT; t++)
		{
			Thread& x = th[t];
			x.done = false;
			x.pending = Pending();
			x.op = 0;
			memset(x.c, 0, sizeof x.c); memset(x.acq, 0, sizeof x.acq); memset(x.rel, 0, sizeof x.rel);
			x.c[t] = 1;
			for (int& d : x.dep) d = -1;
			x.nresults = 0;
			x.spinOn = x.lastObj = nullptr; x.same = 0;
		}
		for (char* g : *guards) memset(g, 0, 8);
		R->nsteps = R->nchoices = 0;
	}
	static void collect(std::vector<long>& out)
	{
		out.clear();
		for (int t = 0; t < NT; t++)
		{
			out.push_back(th[t].nresults);
			for (int i = 0; i < th[t].nresults; i++) out.push_back(th[t].results[i]);
		}
	}
	static void execute(std::vector<long>& out)
	{
		inRuntime = 1;
		resetWorld();
		inExecution = true;
		inRuntime = 0;
		test->setup();
		inRuntime = 1;
		for (int t = 1; t <= nthreads; t++) { memcpy(th[t].c, th[0].c, sizeof th[t].c); th[t].c[t] = 1; }
		tick(0);
		concurrent = true;
		// Every thread first runs up to its first synchronisation operation; were the order of these parts to matter,
		// they would race with each other.
		starting = true;
		for (int t = 1; t <= nthreads; t++) handTo(t);
		starting = false;
		current = 1;
		int first = choose();
		if (first) handTo(first);
		concurrent = false;
		for (int t = 1; t <= nthreads; t++) join(th[0].c, th[t].c);
		for (int i = 0; i < nsyncs; i++) if (syncs[i].owner != -1 || syncs[i].readers) fail("a mutex is still locked when all threads have ended");
		inRuntime = 0;
		test->finish();
		inRuntime = 1;
		inExecution = false;
		collect(out);
		if (depth > int(R->depth)) R->depth = uint64_t(depth);
	}
	// The same program executed by one thread in a given order of steps
	static void sequential(const std::vector<int>& order, std::vector<long>& out)
	{
		inRuntime = 1;
		resetWorld();
		inExecution = true;
		inRuntime = 0;
		test->setup();
		int at[MAXT] = {};
		for (int t : order)
		{
			Thread& x = th[t + 1];
			int before = th[0].nresults;
			th[0].op = at[t];
			actor = t + 1;
			test->step(t, at[t]++);
			actor = 0;
			// what it observed belongs to thread t
			for (int i = before; i < th[0].nresults; i++) if (x.nresults < MAXR) x.results[x.nresults++] = th[0].results[i];
			th[0].nresults = before;
		}
		for (int t = 0; t < test->threads(); t++)
		{
			int before = th[0].nresults;
			actor = t + 1;
			test->end(t);
			actor = 0;
			Thread& x = th[t + 1];
			for (int i = before; i < th[0].nresults; i++) if (x.nresults < MAXR) x.results[x.nresults++] = th[0].results[i];
			th[0].nresults = before;
		}
		test->finish();
		inRuntime = 1;
		inExecution = false;
		collect(out);
		R->sequential = R->sequential + 1;
		R->heartbeat = R->heartbeat + 1;
	}
	static double deadline = 0;
	static double budget = 30;
	static uint64_t onlyProgram = ~0ull;
	static std::vector<int> replayChoices;
	bool Explorer::stop() const { return now() > deadline; }
	bool Explorer::run(Test& t)
	{
		last.clear();
		if (R->programs && stop() && onlyProgram == ~0ull) { R->capped = 1; return false; }
		R->programIndex = R->programs;
		R->programs = R->programs + 1;
		if (onlyProgram != ~0ull && R->programIndex != onlyProgram) return false;
		test = &t;
		nthreads = t.threads();
		self = 0;
		inRuntime = 1;
		snprintf(R->program, sizeof R->program, "%s", t.describe().c_str());
		for (int i = 0; i < nthreads; i++) for (int k = 0; k < t.steps(i) && k < 15; k++) snprintf(R->opText[i][k], sizeof R->opText[i][k], "%s", t.describe(i, k).c_str());
		for (int i = 0; i < MAXT; i++) snprintf(R->opText[i][15], sizeof R->opText[i][15], "its end");
		startThreads(nthreads);
		// what sequential executions can yield
		std::set<std::vector<long>> allowed;
		std::vector<long> out;
		if (t.reference)
		{
			std::vector<int> order;
			for (int i = 0; i < nthreads; i++) for (int k = 0; k < t.steps(i); k++) order.push_back(i);
			do { inRuntime = 1; sequential(order, out); allowed.insert(out); } while (std::next_permutation(order.begin(), order.end()));
		}
		std::vector<State> stack;
		stackPtr = &stack;
		std::set<std::vector<long>> seen;
		forced = replayChoices.empty() ? nullptr : &replayChoices;
		std::vector<long> again;
		uint64_t executions = 0;
		for (;;)
		{
			execute(out);
			R->executions = R->executions + 1;
			executions++;
			if (redundant) R->redundant = R->redundant + 1;
			if (pruned) { R->pruned = R->pruned + 1; if (t.horizon >= 1000) R->capped = 1; }
			if (t.reference && !allowed.count(out))
			{
				std::string s;
				for (size_t i = 0, th_ = 0; i < out.size(); th_++) { long n = out[i++]; s += "[" + std::to_string(th_) + ":"; for (long k = 0; k < n; k++) s += " " + std::to_string(out[i++]); s += "] "; }
				fail("the results %sare not those of any sequential order of the calls", s.c_str());
			}
			if (seen.insert(out).second) R->outcomes = R->outcomes + 1;
			if (R->nsamples < 3 && (executions == 2 || executions == 5)) snprintf(R->samples[R->nsamples++], sizeof R->samples[0], "%s || %s", R->program, schedule().c_str());
			if (forced) break;
			if (executions == 1)
			{
				// the same schedule must behave the same
				int d = depth;
				execute(again);
				if (again != out || d != depth) { R->diverged = 1; snprintf(R->msg, sizeof R->msg, "the same schedule gave different results"); _exit(5); }
			}
			// next schedule
			bool more = false;
			while (!stack.empty())
			{
				State& s = stack.back();
				unsigned cand = s.backtrack & ~s.done & ~s.sleep & s.enabled;
				if (cand)
				{
					s.chosen = __builtin_ctz(cand);
					s.done |= 1u << s.chosen;
					more = true;
					break;
				}
				stack.pop_back();
			}
			if (!more) break;
			if ((executions & 63) == 0 && stop()) { R->capped = 1; break; }
		}
		stackPtr = nullptr;
		last = std::move(seen);
		return true;
	}

	// ---- suites ---------------------------------------------------------------------------------------------------------------------
	struct Suite { std::string name; std::function<void(Explorer&)> fn; };
	static std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
	void add(const std::string& name, std::function<void(Explorer&)> fn) { suites().push_back(Suite{ name, std::move(fn) }); }
	static std::vector<void (*)()>& registrars() { static std::vector<void (*)()> r; return r; }
	Registrar::Registrar(void (*f)()) { registrars().push_back(f); }

	static std::string json(const std::string& s)
	{
		std::string o = "\"";
		for (char c : s)
		{
			if (c == '"' || c == '\\') { o += '\\'; o += c; }
			else if (static_cast<unsigned char>(c) < 32) o += ' ';
			else o += c;
		}
		return o + "\"";
	}
	static void initChild()
	{
		arena = static_cast<char*>(mmap(reinterpret_cast<void*>(0x610000000000ull), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0));
		cells = static_cast<Cell*>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		guards = new std::set<char*>();
		pthread_attr_t at;
		pthread_getattr_np(pthread_self(), &at);
		void* lo; size_t n;
		pthread_attr_getstack(&at, &lo, &n);
		pthread_attr_destroy(&at);
		th[0].stackLo = static_cast<char*>(lo); th[0].stackHi = th[0].stackLo + n;
	}
	static pid_t launch(size_t i, Report* r)
	{
		memset(r, 0, sizeof *r);
		pid_t p = fork();
		if (p) return p;
		R = r;
		inRuntime = 1;
		initChild();
		double t0 = now();
		deadline = t0 + budget;
		Explorer e;
		suites()[i].fn(e);
		r->wall = now() - t0;
		r->done = 1;
		_exit(0);
	}
	static std::string explain(Report* r, int status)
	{
		if (r->violated) return r->msg;
		char s[200];
		if (WIFSIGNALED(status)) { snprintf(s, sizeof s, "the program crashed with signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status))); return s; }
		snprintf(s, sizeof s, "the program ended unexpectedly with status %d", WEXITSTATUS(status));
		return s;
	}
	static Report* sharedReport() { return static_cast<Report*>(mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); }

	static int runMain(int argc, char** argv)
	{
		std::string prop = "?", outDir = ".", replay;
		std::vector<std::pair<std::string, std::string>> known;
		std::string only;
		int jobs = 8;
		for (int i = 1; i < argc; i++)
		{
			std::string a = argv[i];
			if (a == "--prop") prop = argv[++i];
			else if (a == "--out") outDir = argv[++i];
			else if (a == "--thorough") g_Thorough = true;
			else if (a == "--budget") budget = atof(argv[++i]);
			else if (a == "--replay") replay = argv[++i];
			else if (a == "--suite") only = argv[++i];
			else if (a == "--known") { std::string s = argv[++i]; known.emplace_back(s, argv[++i]); }
		}
		for (auto f : registrars()) f();
		if (!replay.empty())
		{
			FILE* f = fopen(replay.c_str(), "r");
			if (!f) { printf("cannot read %s\n", replay.c_str()); return 2; }
			char line[9000];
			std::string suite;
			unsigned long long prog = 0;
			while (fgets(line, sizeof line, f))
			{
				std::string l = line;
				while (!l.empty() && l.back() == '\n') l.pop_back();
				if (l.rfind("suite ", 0) == 0) suite = l.substr(6);
				if (l.rfind("program-index ", 0) == 0) prog = strtoull(l.c_str() + 14, nullptr, 10);
				if (l.rfind("choices ", 0) == 0) { const char* p = l.c_str() + 8; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; replayChoices.push_back(int(v)); p = e; } }
			}
			fclose(f);
			for (size_t i = 0; i < suites().size(); i++)
				if (suites()[i].name == suite)
				{
					onlyProgram = prog;
					Report* r = sharedReport();
					pid_t p = launch(i, r);
					int st;
					waitpid(p, &st, 0);
					if (r->done) { printf("not reproduced\n"); return 0; }
					R = r;
					printf("reproduced: %s\n  program: %s\n  schedule: %s\n", explain(r, st).c_str(), r->program, schedule().c_str());
					return 1;
				}
			printf("no suite %s\n", suite.c_str());
			return 2;
		}
		double t0 = now();
		struct Run { size_t i; Report* r; pid_t pid; uint64_t beat; double since; };
		std::vector<Run> running;
		std::vector<std::pair<size_t, Report*>> finished;
		size_t next = 0;
		bool violation = false, broken = false;
		std::string report;
		std::vector<std::string> knownSeen;
		while (next < suites().size() || !running.empty())
		{
			while (next < suites().size() && running.size() < size_t(jobs) && !violation)
			{
				if (!only.empty() && suites()[next].name.find(only) == std::string::npos) { next++; continue; }
				Report* r = sharedReport();
				running.push_back(Run{ next, r, launch(next, r), 0, now() });
				next++;
			}
			if (running.empty()) break;
			usleep(2000);
			for (size_t k = 0; k < running.size(); k++)
			{
				Run& x = running[k];
				int st = 0;
				pid_t w = waitpid(x.pid, &st, WNOHANG);
				bool hung = false;
				if (w == 0)
				{
					if (x.r->heartbeat != x.beat) { x.beat = x.r->heartbeat; x.since = now(); }
					else if (now() - x.since > 60) { kill(x.pid, SIGKILL); waitpid(x.pid, &st, 0); hung = true; }
					if (violation) { kill(x.pid, SIGKILL); waitpid(x.pid, &st, 0); running.erase(running.begin() + long(k)); k--; continue; }
					if (!hung) continue;
				}
				Report* r = x.r;
				size_t suite = x.i;
				running.erase(running.begin() + long(k)); k--;
				if (r->done) { finished.emplace_back(suite, r); continue; }
				if (r->diverged) { printf("suite %s: nondeterminism: %s (program %s)\n", suites()[suite].name.c_str(), r->msg, r->program); broken = true; continue; }
				std::string why = hung ? "a thread runs forever without reaching another synchronisation operation" : explain(r, st);
				// replay before reporting
				std::vector<int> ch(r->choices, r->choices + r->nchoices);
				bool confirmed = hung;
				if (!hung)
				{
					onlyProgram = r->programIndex;
					replayChoices = ch;
					Report* r2 = sharedReport();
					pid_t p = launch(suite, r2);
					int st2;
					waitpid(p, &st2, 0);
					confirmed = !r2->done && !r2->diverged && explain(r2, st2) == why;
					if (!confirmed) printf("suite %s: not reproduced: %s / %s\n", suites()[suite].name.c_str(), why.c_str(), r2->done ? "completed" : explain(r2, st2).c_str());
					onlyProgram = ~0ull;
					replayChoices.clear();
				}
				bool isKnown = false;
				for (auto& kn : known) if (kn.first == suites()[suite].name && why.find(kn.second) != std::string::npos) isKnown = true;
				if (isKnown) { knownSeen.push_back(suites()[suite].name + ": " + why); r->capped = 1; finished.emplace_back(suite, r); continue; }
				if (!confirmed) { broken = true; continue; }
				R = r;
				std::string name;
				for (char c : suites()[suite].name) name += isalnum(static_cast<unsigned char>(c)) ? c : '_';
				report = outDir + "/" + prop + "-" + name.substr(0, 80) + ".replay";
				if (!violation)
				{
					FILE* f = fopen(report.c_str(), "w");
					if (f)
					{
						fprintf(f, "suite %s\nprogram %s\nprogram-index %llu\nmessage %s\nschedule %s\nchoices", suites()[suite].name.c_str(), r->program, (unsigned long long)r->programIndex, why.c_str(), schedule().c_str());
						for (int c : ch) fprintf(f, " %d", c);
						fprintf(f, "\n");
						fclose(f);
					}
					printf("suite %s: %s\n  program: %s\n  schedule: %s\n", suites()[suite].name.c_str(), why.c_str(), r->program, schedule().c_str());
				}
				violation = true;
				finished.emplace_back(suite, r);
			}
		}
		unsigned long long states = 0, trans = 0, exec = 0, seq = 0, dep = 0, progs = 0, outs = 0, red = 0;
		bool capped = false;
		std::string per, samples;
		int ns = 0;
		for (auto& f : finished)
		{
			Report* s = f.second;
			states += s->states; trans += s->transitions; exec += s->executions; seq += s->sequential; progs += s->programs; outs += s->outcomes; red += s->redundant;
			dep = std::max<unsigned long long>(dep, s->depth);
			capped = capped || s->capped;
			for (int i = 0; i < s->nsamples && ns < 10; i++, ns++) samples += (samples.empty() ? "" : ",") + json(suites()[f.first].name + ": " + s->samples[i]);
			char line[900];
			snprintf(line, sizeof line, "%s{\"suite\":%s,\"programs\":%llu,\"schedules\":%llu,\"redundant_schedules\":%llu,\"states\":%llu,\"transitions\":%llu,\"sequential_references\":%llu,\"distinct_outcomes\":%llu,\"max_depth\":%llu,\"beyond_horizon\":%llu,\"capped\":%s,\"wall_s\":%.2f}",
				per.empty() ? "" : ",", json(suites()[f.first].name).c_str(), (unsigned long long)s->programs, (unsigned long long)s->executions, (unsigned long long)s->redundant, (unsigned long long)s->states,
				(unsigned long long)s->transitions, (unsigned long long)s->sequential, (unsigned long long)s->outcomes, (unsigned long long)s->depth, (unsigned long long)s->pruned, s->capped ? "true" : "false", s->wall);
			per += line;
		}
		FILE* f = fopen((outDir + "/result.json").c_str(), "w");
		if (f)
		{
			fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"histories\":%llu,\"ops\":%llu,\"max_depth\":%llu,\"capped\":%s,\"wall_s\":%.3f,\"suites\":%zu,\"samples\":[%s],\"per_suite\":[%s],\"known\":[",
				states, trans, exec, seq, dep, capped ? "true" : "false", now() - t0, finished.size(), samples.c_str(), per.c_str());
			for (size_t i = 0; i < knownSeen.size(); i++) fprintf(f, "%s%s", i ? "," : "", json(knownSeen[i]).c_str());
			fprintf(f, "]}\n");
			fclose(f);
		}
		for (auto& k : knownSeen) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str());
		printf("%s: suites=%zu programs=%llu schedules=%llu (redundant %llu) states=%llu transitions=%llu outcomes=%llu capped=%d %.1fs\n", prop.c_str(), finished.size(), progs, exec, red, states, trans, outs, int(capped), now() - t0);
		if (violation) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), report.c_str()); return 1; }
		return broken ? 2 : 0;
	}
}

int main(int argc, char** argv) { return sched::runMain(argc, argv); }

using namespace sched;
static bool useArena() { return inExecution && !inRuntime; }

void* operator new(size_t n)
{
	if (useArena()) { Runtime g; return arenaAlloc(n, 16, true); }
	return __real_malloc(n ? n : 1);
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!p) return; if (inArena(p)) { if (inExecution) arenaFree(p); return; } __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

extern "C"
{
	// ---- the C library --------------------------------------------------------------------------------------------------
	void* __wrap_malloc(size_t n) { if (!useArena()) return __real_malloc(n); Runtime g; return arenaAlloc(n, 16, false); }
	void __wrap_free(void* p) { if (!p) return; if (inArena(p)) { arenaFree(p); return; } __real_free(p); }
	void* __wrap_calloc(size_t n, size_t m)
	{
		if (!useArena()) return __real_calloc(n, m);
		if (m && n > SIZE_MAX / m) return nullptr;
		Runtime g;
		void* p = arenaAlloc(n * m, 16, false);
		if (p) memset(p, 0, n * m);
		return p;
	}
	void* __wrap_realloc(void* p, size_t n)
	{
		if (p && !inArena(p)) return __real_realloc(p, n);
		if (!useArena()) return __real_realloc(p, n);
		void* q = __wrap_malloc(n);
		if (p && q) { Runtime g; Block* b = blockOf(p); memcpy(q, p, b->n < n ? b->n : n); }
		if (p && q) arenaFree(p);
		return q;
	}
	void* __real_aligned_alloc(size_t, size_t);
	void* __wrap_aligned_alloc(size_t a, size_t n) { if (!useArena()) return __real_aligned_alloc(a, n); Runtime g; return arenaAlloc(n, a, false); }
	int __real_posix_memalign(void**, size_t, size_t);
	int __wrap_posix_memalign(void** r, size_t a, size_t n)
	{
		if (!useArena()) return __real_posix_memalign(r, a, n);
		Runtime g;
		*r = arenaAlloc(n, a, false);
		return *r ? 0 : ENOMEM;
	}
	int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!inExecution || inRuntime) return 0; return lockMutex(m, recursive(m), false); }
	int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!inExecution || inRuntime) return 0; return lockMutex(m, recursive(m), true); }
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!inExecution || inRuntime) return 0; return unlockMutex(m); }
	int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!inExecution || inRuntime) return 0; return lockMutex(m, false, false); }
	int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!inExecution || inRuntime) return 0; return lockMutex(m, false, true); }
	int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!inExecution || inRuntime) return 0; return lockShared(m, false); }
	int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!inExecution || inRuntime) return 0; return lockShared(m, true); }
	int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!inExecution || inRuntime) return 0; return unlockRw(m); }
	int __wrap_sched_yield(void) { return 0; }

	int __real___cxa_guard_acquire(long long*);
	void __real___cxa_guard_release(long long*);
	void __real___cxa_guard_abort(long long*);
	int __wrap___cxa_guard_acquire(long long* g)
	{
		if (!inExecution || inRuntime) return __real___cxa_guard_acquire(g);
		char* b = reinterpret_cast<char*>(g);
		{ Runtime r; guards->insert(b); }
		lockMutex(b + 1, false, false);
		if (*b) { unlockMutex(b + 1); return 0; }
		return 1;
	}
	void __wrap___cxa_guard_release(long long* g)
	{
		char* b = reinterpret_cast<char*>(g);
		if (!inExecution || inRuntime || !guards->count(b)) { __real___cxa_guard_release(g); return; }
		atomicStore<char>(b, 1, __ATOMIC_RELEASE);
		unlockMutex(b + 1);
	}
	void __wrap___cxa_guard_abort(long long* g)
	{
		char* b = reinterpret_cast<char*>(g);
		if (!inExecution || inRuntime || !guards->count(b)) { __real___cxa_guard_abort(g); return; }
		unlockMutex(b + 1);
	}

	// ---- what the compiler's instrumentation calls ------------------------------------------------------------------------
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
	void __tsan_ignore_thread_begin() {}
	void __tsan_ignore_thread_end() {}
#define RW(N) \
	void __tsan_read##N(void* p) { access(p, N, PREAD); } \
	void __tsan_write##N(void* p) { access(p, N, PWRITE); } \
	void __tsan_unaligned_read##N(void* p) { access(p, N, PREAD); } \
	void __tsan_unaligned_write##N(void* p) { access(p, N, PWRITE); } \
	void __tsan_volatile_read##N(void* p) { access(p, N, PREAD); } \
	void __tsan_volatile_write##N(void* p) { access(p, N, PWRITE); } \
	void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, PREAD); } \
	void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, PWRITE); } \
	void __tsan_read_write##N(void* p) { access(p, N, PREAD); access(p, N, PWRITE); } \
	void __tsan_unaligned_read_write##N(void* p) { access(p, N, PREAD); access(p, N, PWRITE); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* p, size_t n) { access(p, n, PREAD); }
	void __tsan_write_range(void* p, size_t n) { access(p, n, PWRITE); }
	void __tsan_vptr_update(void** p, void*) { access(p, 8, PWRITE); }
	void __tsan_vptr_read(void** p) { access(p, 8, PREAD); }
	void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, PREAD); access(d, n, PWRITE); return memcpy(d, s, n); }
	void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, PREAD); access(d, n, PWRITE); return memmove(d, s, n); }
	void* __tsan_memset(void* d, int c, size_t n) { access(d, n, PWRITE); return memset(d, c, n); }
#define ATOMIC(N, T) \
	T __tsan_atomic##N##_load(const volatile T* a, int mo) { return atomicLoad<T>(a, mo); } \
	void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { atomicStore<T>(a, v, mo); } \
	T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return atomicRmw<T>(a, mo, [v](T) { return v; }); } \
	T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { return atomicRmw<T>(a, mo, [v](T o) { return T(o + v); }); } \
	T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { return atomicRmw<T>(a, mo, [v](T o) { return T(o - v); }); } \
	T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return atomicRmw<T>(a, mo, [v](T o) { return T(o & v); }); } \
	T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return atomicRmw<T>(a, mo, [v](T o) { return T(o | v); }); } \
	T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return atomicRmw<T>(a, mo, [v](T o) { return T(o ^ v); }); } \
	T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return atomicRmw<T>(a, mo, [v](T o) { return T(~(o & v)); }); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fo) { return atomicCas<T>(a, c, v, mo, fo); } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fo) { return atomicCas<T>(a, c, v, mo, fo); } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fo) { T e = c; atomicCas<T>(a, &e, v, mo, fo); return e; }
	ATOMIC(8, char) ATOMIC(16, short) ATOMIC(32, int) ATOMIC(64, long)
	void __tsan_atomic_thread_fence(int mo) { sched::fence(mo); }
	void __tsan_atomic_signal_fence(int) {}
}
