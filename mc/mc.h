// Explicit-state model checker that runs the real KTL code.
//
// A "System" owns fresh KTL objects plus a reference model.  The explorer enumerates every operation
// sequence of its alphabet:
//   phase 1  breadth-first search; states are merged only if their canonical key (model state plus the raw
//            memory image of the KTL objects and of the memory they hold) is identical;
//   phase 2  every operation sequence up to a depth without any merging.
// Every transition is executed by replaying its history from scratch on a fresh system, so every explored
// history is a trace of the implementation that was compared with the model at every step.
#pragma once
#include "world.h"

#include <array>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace mc
{
	struct Op
	{
		int16_t c = 0, a = 0, b = 0, d = 0;
		bool operator==(const Op& o) const { return c == o.c && a == o.a && b == o.b && d == o.d; }
	};

	struct Hash
	{
		uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
		void word(uint64_t v)
		{
			a = (a ^ v) * 0xff51afd7ed558ccdull; a ^= a >> 32;
			b = (b + v) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29;
		}
		NOSAN void bytes(const void* p, size_t n)
		{
			const unsigned char* c = static_cast<const unsigned char*>(p);
			word(n);
			while (n >= 8)
			{
				uint64_t v = 0;
				for (int i = 0; i < 8; i++) v |= uint64_t(c[i]) << (8 * i);
				word(v); c += 8; n -= 8;
			}
			uint64_t v = 0;
			for (size_t i = 0; i < n; i++) v |= uint64_t(c[i]) << (8 * i);
			word(v);
		}
		void str(const std::string& s) { bytes(s.data(), s.size()); }
		bool operator==(const Hash& o) const { return a == o.a && b == o.b; }
	};
	struct HashOf { size_t operator()(const Hash& h) const { return h.a ^ (h.b * 31); } };

	constexpr int MAX_OPS = 8192;
	constexpr int MAX_SAMPLES = 3;

	// Lives in memory shared between the parent and the child that explores one suite
	struct Shared
	{
		volatile uint64_t heartbeat;
		volatile uint32_t n;
		Op ops[MAX_OPS];
		volatile uint64_t caseId;
		char caseText[512];
		volatile int done, violated, diverged;
		char msg[1024];
		uint64_t states, transitions, histories, opsExecuted, depth, outcomes;
		int capped;
		double wall;
		int nsamples;
		char samples[MAX_SAMPLES][700];
	};

	struct Bounds
	{
		int dfs = 3;             // phase 2: every history up to this length, nothing merged
		int depth = 64;          // phase 1: depth limit
		size_t maxStates = 200000;
	};

	inline bool& thorough() { static bool t = false; return t; }
	inline Shared*& sh() { static Shared* s = nullptr; return s; }
	inline uint64_t& outcomeHash() { static uint64_t h = 0; return h; }

	class Suite
	{
	public:
		std::string name;
		virtual ~Suite() {}
		virtual void explore() = 0;                       // fills *sh()
		virtual bool replay(const std::vector<Op>& ops, uint64_t caseId) = 0; // true if it failed again
		virtual std::string text(const std::vector<Op>& ops) = 0;
	};
	inline std::vector<std::unique_ptr<Suite>>& suites() { static std::vector<std::unique_ptr<Suite>> s; return s; }

	// A system under exploration: the real KTL objects plus the reference model
	class System
	{
	public:
		virtual ~System() {}
		virtual void start() = 0;                          // builds the initial state
		virtual void ops(std::vector<Op>& out) const = 0;  // the alphabet enabled in this state
		virtual void apply(const Op& op, bool last) = 0;   // executes one operation, compares with the model
		virtual void check() {}                            // invariants of the reached state
		virtual void key(Hash& h) = 0;                     // canonical state
		virtual void finish() {}                           // tear-down, executed after every history
		virtual std::string describe(const Op& op) const = 0;
		// phase 3: long regular histories. tide(w) selects one and returns false if there is no such; wave() is its next operation.
		virtual bool tide(size_t) { return false; }
		virtual bool wave(Op&) { return false; }
	};

	// One long regular history: fill up, free a half, fill up again, free everything, fill up once more; for every word of
	// up to two kinds of request, every order of freeing, and several heights.
	class Tide
	{
	public:
		enum { END = -1000000, EXTRA = 1000000 };
		// false: no such tide. extras: number of extra operations that may happen between the phases
		bool select(size_t which, size_t kinds, const std::vector<size_t>& heights, size_t extras = 0)
		{
			*this = Tide();
			if (!kinds) return false;
			for (size_t h = 0; h < heights.size(); h++)
			{
				bool low = h == 0;
				size_t words = low ? kinds * kinds : kinds, orders = ORDERS, ex = low ? extras + 1 : 1;
				size_t n = words * orders * ex;
				if (which >= n) { which -= n; continue; }
				height = heights[h];
				order = int(which % orders);
				which /= orders;
				extra = int(which % ex) - 1;
				which /= ex;
				word[0] = int(which % kinds);
				word[1] = low ? int(which / kinds) : word[0];
				return true;
			}
			return false;
		}
		// k >= 0: request of kind k; -1-i: free the i-th oldest block; EXTRA+k: extra operation; END
		int next(size_t live)
		{
			for (;;)
				switch (phase)
				{
				case 0: case 2: case 4:
					if (requested && live <= seen) idle++; else idle = 0;
					if (live >= height || idle >= 3) { requested = false; idle = 0; start = live; turn = 0; phase++; continue; }
					seen = live;
					requested = true;
					return word[turn++ % 2];
				case 1: case 3:
					if (live == 0 || (phase == 1 && live <= start / 2))
					{
						turn = 0;
						phase++;
						if (extra >= 0 && phase == 2) return EXTRA + extra;
						continue;
					}
					return -1 - int(pick(live));
				default: return END;
				}
		}
	private:
		enum { ORDERS = 5 };
		size_t pick(size_t live)
		{
			size_t t = size_t(turn++);
			switch (order)
			{
			case 0: return live - 1;
			case 1: return 0;
			case 2: return t % live;            // every other
			case 3: return live / 2;            // from the middle
			default: return t % 2 ? 0 : live - 1;
			}
		}
		size_t height = 0, start = 0, seen = 0;
		int word[2] = { 0, 0 }, order = 0, extra = -1, phase = 0, turn = 0, idle = 0;
		bool requested = false;
	};

	class SysSuite : public Suite
	{
	public:
		std::function<System*()> make;
		Bounds bounds;
		void explore() override;
		bool replay(const std::vector<Op>& ops, uint64_t) override { return !run(ops, nullptr, nullptr, nullptr); }
		std::string text(const std::vector<Op>& ops) override;
	private:
		bool run(const std::vector<Op>& hist, Hash* prefixKey, Hash* key, std::vector<Op>* ops);
		bool dfs(std::vector<Op>& h, const std::vector<Op>& ops);
		bool tides();
		void sample(const std::vector<Op>& h);
		std::vector<Op> lastHist;
	};

	// Exhaustive enumeration of a finite product of inputs: body(E) enumerates cases, every one of them is
	// executed against the real code.  E.next() starts a case and returns false if the case must be skipped.
	class Cases
	{
	public:
		uint64_t id = 0, only = ~0ull;
		bool stop = false;
		std::unordered_map<uint64_t, int> outcomes;
		// Starts a case; false: do not execute it
		bool next(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
		{
			if (stop) return false;
			finish();
			id++;
			if (stop) return false;
			if (only != ~0ull && id != only) return false;
			Shared* s = sh();
			s->heartbeat = s->heartbeat + 1;
			s->caseId = id;
			va_list ap;
			va_start(ap, fmt);
			vsnprintf(s->caseText, sizeof s->caseText, fmt, ap);
			va_end(ap);
			world().reset();
			clear_failure();
			world().active(true);
			open = true;
			s->states++;
			s->histories++;
			if ((id == 7 || id == 501) && s->nsamples < MAX_SAMPLES)
				snprintf(s->samples[s->nsamples++], sizeof s->samples[0], "%s", s->caseText);
			return true;
		}
		void step(uint64_t n = 1) { sh()->heartbeat = sh()->heartbeat + 1; sh()->transitions += n; sh()->opsExecuted += n; }
		void finish()
		{
			if (!open) return;
			open = false;
			world().active(false);
			if (failed())
			{
				Shared* s = sh();
				if (!s->violated) { s->violated = 1; snprintf(s->msg, sizeof s->msg, "%s", failure()); }
				stop = true;
			}
		}
		bool ok() { if (failed()) { finish(); return false; } return !stop; }
	private:
		bool open = false;
	};

	class CaseSuite : public Suite
	{
	public:
		std::function<void(Cases&)> body;
		void explore() override { Cases c; body(c); c.finish(); }
		bool replay(const std::vector<Op>&, uint64_t id) override
		{
			Cases c; c.only = id; body(c); c.finish();
			return sh()->violated;
		}
		std::string text(const std::vector<Op>&) override { return sh()->caseText; }
	};

	template<class F>
	void add_cases(const std::string& name, F body)
	{
		auto s = std::make_unique<CaseSuite>();
		s->name = name;
		s->body = body;
		suites().push_back(std::move(s));
	}

	inline void add(const std::string& name, Bounds b, std::function<System*()> make)
	{
#ifdef MC_LIGHT // the same suites elsewhere explore more
		if (!thorough()) { b.dfs = std::max(1, b.dfs - 1); b.maxStates = std::max<size_t>(400, b.maxStates / 8); }
#endif
		auto s = std::make_unique<SysSuite>();
		s->name = name;
		s->bounds = b;
		s->make = std::move(make);
		suites().push_back(std::move(s));
	}
	template<class S>
	void add(const std::string& name, Bounds b) { add(name, b, []() -> System* { return new S(); }); }

	int run_main(int argc, char** argv);

	inline std::vector<void (*)()>& registrars() { static std::vector<void (*)()> r; return r; }
	struct Registrar { explicit Registrar(void (*f)()) { registrars().push_back(f); } };
// Our own detection of the optional parts of the documented interface
	template<class A, class = void> struct has_owns_t : std::false_type {};
	template<class A> struct has_owns_t<A, std::void_t<decltype(std::declval<const A&>().owns(nullptr))>> : std::true_type {};
	template<class A> constexpr bool has_owns = has_owns_t<A>::value;
	template<class A, class = void> struct has_max_t : std::false_type {};
	template<class A> struct has_max_t<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};
	template<class A> constexpr bool has_max = has_max_t<A>::value;

// Defines the function that registers the suites of this translation unit
#define MC_SUITES \
	static void mc_register_suites(); \
	static ::mc::Registrar s_McRegistrar(&mc_register_suites); \
	static void mc_register_suites()

// A check can be compiled in several parts in parallel: suites are dealt out by a running number
#ifndef MC_PART
#define MC_PART 0
#define MC_PARTS 1
#endif
#define MC_MINE (__COUNTER__ % MC_PARTS == MC_PART)
}
