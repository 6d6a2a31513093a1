// Thread-safe allocators and small programs over them
#pragma once
#include "threads.h"
#include "selfcheck.h"
#include <ktl/ktl.h>
#include <algorithm>
#include <cstring>
#include <ostream>
#include <streambuf>

namespace tc
{
	using sched::fail;
	template<class A, class = void> struct HasOwns : std::false_type {};
	template<class A> struct HasOwns<A, std::void_t<decltype(std::declval<const A&>().owns(nullptr))>> : std::true_type {};
	template<class A, class = void> struct HasMax : std::false_type {};
	template<class A> struct HasMax<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};

	// ---- how threads reach the allocator: one handle per thread, made by the main thread -------------------------------
	// Direct: everybody has a reference to the object itself
	template<class T> struct Direct
	{
		using Handle = T;
		T* a = nullptr;
		static const char* name() { return "directly"; }
		template<class... Args> void setup(int, Args&... args) { a = sched::make<T>(args...); }
		T& handle(int) { return *a; }
		T& main() { return *a; }
		void drop(int) {}
		void finish() { sched::destroy(a); }
	};
	template<class T> struct Ref
	{
		using Handle = ktl::reference<T>;
		T* a = nullptr;
		Handle* h[sched::MAXT + 1] = {};
		int n = 0;
		static const char* name() { return "through reference"; }
		template<class... Args> void setup(int threads, Args&... args) { n = threads; a = sched::make<T>(args...); for (int t = 0; t <= n; t++) h[t] = sched::make<Handle>(*a); }
		Handle& handle(int t) { return *h[t]; }
		Handle& main() { return *h[n]; }
		void drop(int t) { sched::destroy(h[t]); h[t] = nullptr; }
		void finish() { drop(n); sched::destroy(a); }
	};
	// Handles that count references; only the atomic ones may be dropped by the threads themselves
	template<class H, bool Atomic> struct Counted
	{
		using Handle = H;
		H* h[sched::MAXT + 1] = {};
		int n = 0;
		static const char* name() { return Atomic ? "through atomic_shared" : "through shared"; }
		template<class... Args> void setup(int threads, Args&... args)
		{
			n = threads;
			h[n] = sched::make<H>(args...);
			for (int t = 0; t < n; t++) h[t] = sched::make<H>(*h[n]);
		}
		H& handle(int t) { return *h[t]; }
		H& main() { return *h[n]; }
		void drop(int t) { if (Atomic) { sched::destroy(h[t]); h[t] = nullptr; } }
		void finish() { for (int t = 0; t <= n; t++) if (h[t]) { sched::destroy(h[t]); h[t] = nullptr; } }
	};
	template<class T> using Shared = Counted<ktl::shared<T>, false>;
	template<class T> using Atomic = Counted<ktl::atomic_shared<T>, true>;
	// The static instance is rebuilt for every execution
	template<class T> struct Glob
	{
		using Handle = ktl::global<T>;
		Handle* h[sched::MAXT + 1] = {};
		int n = 0;
		static const char* name() { return "through global"; }
		T& target() { return const_cast<T&>(static_cast<const Handle&>(*h[n]).get_allocator()); }
		void setup(int threads)
		{
			n = threads;
			for (int t = 0; t <= n; t++) h[t] = sched::make<Handle>();
			T& t = target();
			t.~T();
			::new (static_cast<void*>(&t)) T();
		}
		Handle& handle(int t) { return *h[t]; }
		Handle& main() { return *h[n]; }
		void drop(int t) { sched::destroy(h[t]); h[t] = nullptr; }
		void finish()
		{
			T& t = target();
			t.~T(); // what it holds must go back to the system
			::new (static_cast<void*>(&t)) T();
			drop(n);
		}
	};

	// ---- raw access to the allocator, typed or not ---------------------------------------------------------------------
	template<class H, class = void> struct Unit : std::integral_constant<size_t, 1> {};
	template<class H> struct Unit<H, std::void_t<typename H::value_type>> : std::integral_constant<size_t, sizeof(typename H::value_type)> {};
	template<class H> void* take(H& h, size_t n) { return static_cast<void*>(h.allocate(n / Unit<H>::value)); }
	template<class H> void give(H& h, void* p, size_t n)
	{
		if constexpr (Unit<H>::value == 1) h.deallocate(p, n);
		else h.deallocate(static_cast<typename H::value_type*>(p), n / Unit<H>::value);
	}

	template<class H> bool owns(const H& h, void* p)
	{
		if constexpr (Unit<H>::value == 1) return h.owns(p);
		else return h.owns(static_cast<typename H::value_type*>(p));
	}

	// ---- programs -------------------------------------------------------------------------------------------------------
	enum Op : uint8_t { SMALL, BIG, NEWEST, OLDEST, PRE, OWNS, FOREIGN, MAXIMUM, EQUAL, CONSTRUCT, NOPS };
	struct Sizes { size_t small, big; };
	struct Shape
	{
		int threads, steps;
		std::vector<Op> ops;
		bool roles = false;         // thread 0 only asks, the others only change
		bool oneConstructs = false; // at most one thread constructs objects
		bool cold = false;          // nobody has used the allocator before the threads start
	};
	inline void fill(void* p, size_t n, int v) { char* c = static_cast<char*>(p); for (size_t i = 0; i < n; i++) c[i] = char(v); }
	inline void verify(const void* p, size_t n, int v, const char* what)
	{
		const char* c = static_cast<const char*>(p);
		for (size_t i = 0; i < n; i++) if (c[i] != char(v)) fail("byte %zu of a block of %zu bytes %s was changed by somebody else", i, n, what);
	}
	struct Held { void* p; size_t n; int v; };
	struct Item { int x, y; Item(int a, int b) : x(a), y(b) {} ~Item() { x = -1; } };

	template<class A, class = void> struct HasConstruct : std::false_type {};
	template<class A> struct HasConstruct<A, std::void_t<decltype(std::declval<A&>().construct(std::declval<Item*>(), 1, 2))>> : std::true_type {};
	template<class A, class = void> struct HasDestroy : std::false_type {};
	template<class A> struct HasDestroy<A, std::void_t<decltype(std::declval<A&>().destroy(std::declval<Item*>()))>> : std::true_type {};

	// Sys: make(threads) / handle(t) / main() / drop(t) / finish()
	template<class Sys> struct Prog : sched::Test
	{
		using H = typename Sys::Handle;
		Sys* sys = nullptr;
		int n = 0, k = 0;
		Op ops[3][4];
		Sizes sz{};
		size_t foreign = 0;
		size_t maximum = 0;
		bool cold = false, asked[4];
		size_t seen[4];
		std::string title;
		Held held[4][8];
		int nheld[4];
		void* pre[4];
		bool freed[4];
		int threads() const override { return n; }
		int steps(int) const override { return k; }
		void setup() override
		{
			memset(nheld, 0, sizeof nheld);
			memset(pre, 0, sizeof pre);
			memset(freed, 0, sizeof freed);
			memset(asked, 0, sizeof asked);
			memset(seen, 0, sizeof seen);
			sys = sched::make<Sys>();
			sys->make(n);
			if (cold) return; // the first use of it is up to the threads
			// one block per thread that the main thread has taken
			for (int t = 0; t < n; t++)
			{
				pre[t] = take(sys->main(), sz.small);
				if (pre[t]) fill(pre[t], sz.small, 100 + t);
			}
			maximum = 0;
			if constexpr (HasMax<H>::value) maximum = sys->main().max_size();
		}
		void give_back(H& h, Held& x, const char* what)
		{
			verify(x.p, x.n, x.v, what);
			fill(x.p, x.n, 0x55);
			give(h, x.p, x.n);
		}
		void step(int t, int i) override
		{
			H& h = sys->handle(t);
			Held* mine = held[t];
			int& m = nheld[t];
			switch (ops[t][i])
			{
			case SMALL:
			case BIG:
			{
				size_t s = ops[t][i] == SMALL ? sz.small : sz.big;
				void* p = take(h, s);
				sched::result(sched::place(p));
				if (!p) break;
				int v = 1 + t * 16 + i;
				fill(p, s, v);
				mine[m++] = Held{ p, s, v };
				break;
			}
			case NEWEST:
				if (m) { m--; give_back(h, mine[m], "held by this thread"); }
				break;
			case OLDEST:
				if (m) { Held x = mine[0]; for (int j = 1; j < m; j++) mine[j - 1] = mine[j]; m--; give_back(h, x, "held by this thread"); }
				break;
			case PRE:
				if (pre[t] && !freed[t]) { Held x{ pre[t], sz.small, 100 + t }; freed[t] = true; give_back(h, x, "allocated before the threads started"); }
				break;
			case OWNS:
				if constexpr (HasOwns<H>::value)
				{
					if (m && !owns(h, mine[m - 1].p)) fail("owns() denies a block that this thread holds");
					if (pre[t] && !freed[t] && !owns(h, pre[t])) fail("owns() denies a block that was allocated before the threads started");
				}
				break;
			case FOREIGN:
				if constexpr (HasOwns<H>::value) if (owns(h, static_cast<void*>(&foreign))) fail("owns() claims memory of somebody else");
				break;
			case MAXIMUM:
				if constexpr (HasMax<H>::value)
				{
					size_t now = h.max_size(), before = cold ? asked[t] ? seen[t] : now : maximum;
					if (now != before) fail("max_size() changed from %zu to %zu", before, now);
					asked[t] = true;
					seen[t] = now;
				}
				break;
			case EQUAL:
			{
				const H& a = h;
				const H& b = sys->main();
				if (!(a == b) || !(b == a)) fail("two handles of the same allocator compare as different");
				if ((a != b) || (b != a)) fail("two handles of the same allocator compare as unequal");
				break;
			}
			case CONSTRUCT:
				if (pre[t] && !freed[t])
				{
					Item* it = static_cast<Item*>(pre[t]);
					if constexpr (HasConstruct<H>::value) h.construct(it, t, i); else ::new (static_cast<void*>(it)) Item(t, i);
					if (it->x != t || it->y != i) fail("construct() did not construct");
					asm volatile("" ::: "memory"); // what construct() did must not be undone by the compiler
					if constexpr (HasDestroy<H>::value) h.destroy(it); else it->~Item();
					fill(pre[t], sz.small, 100 + t);
				}
				break;
			default: break;
			}
		}
		void end(int t) override
		{
			// blocks stay allocated; the handle may go
			sys->drop(t);
		}
		void finish() override
		{
			H& h = sys->main();
			Held all[40];
			int a = 0;
			if constexpr (HasMax<H>::value)
				for (int t = 0; t < n; t++) if (asked[t] && h.max_size() != seen[t]) fail("max_size() was %zu and is %zu at the end", seen[t], size_t(h.max_size()));
			for (int t = 0; t < n; t++)
			{
				if (pre[t] && !freed[t]) all[a++] = Held{ pre[t], sz.small, 100 + t };
				for (int i = 0; i < nheld[t]; i++) all[a++] = held[t][i];
			}
			for (int i = 0; i < a; i++)
			{
				verify(all[i].p, all[i].n, all[i].v, "held by a thread");
				if constexpr (HasOwns<H>::value) if (!owns(h, all[i].p)) fail("owns() denies a block when all threads have ended");
				for (int j = 0; j < i; j++)
				{
					const char* x = static_cast<const char*>(all[i].p);
					const char* y = static_cast<const char*>(all[j].p);
					if (x < y + all[j].n && y < x + all[i].n) fail("two blocks that are held overlap");
				}
			}
			// newest first, by address: the order in which bump allocators give everything back
			std::sort(all, all + a, [](const Held& x, const Held& y) { return x.p > y.p; });
			for (int i = 0; i < a; i++) { fill(all[i].p, all[i].n, 0x55); give(h, all[i].p, all[i].n); }
			// how much does it still offer?
			int got = 0;
			while (got < 24)
			{
				void* p = take(h, sz.small);
				if (!p) break;
				fill(p, sz.small, 0x77);
				all[got++] = Held{ p, sz.small, 0x77 };
			}
			sched::result(got);
			std::sort(all, all + got, [](const Held& x, const Held& y) { return x.p > y.p; });
			for (int i = 0; i < got; i++) { verify(all[i].p, all[i].n, 0x77, "taken at the end"); give(h, all[i].p, all[i].n); }
			sys->finish();
			sched::destroy(sys);
			sys = nullptr;
			if (size_t left = sched::blocks()) fail("%zu blocks of system memory were not returned", left);
		}
		std::string text(Op o) const
		{
			switch (o)
			{
			case SMALL: return "allocate(" + std::to_string(sz.small) + ")";
			case BIG: return "allocate(" + std::to_string(sz.big) + ")";
			case NEWEST: return "free own newest";
			case OLDEST: return "free own oldest";
			case PRE: return "free block of main";
			case OWNS: return "owns(own block)";
			case FOREIGN: return "owns(foreign)";
			case MAXIMUM: return "max_size()";
			case EQUAL: return "== and !=";
			case CONSTRUCT: return "construct, destroy";
			default: return "?";
			}
		}
		std::string describe(int t, int i) const override { return text(ops[t][i]); }
		std::string describe() const override
		{
			std::string s = title + (cold ? ", not used before: " : ": ");
			for (int t = 0; t < n; t++) { s += t ? " || " : ""; for (int i = 0; i < k; i++) s += (i ? "; " : "") + text(ops[t][i]); }
			return s;
		}
	};
	// The first use in a process: every pair of operations of two threads, each in a process of its own
	template<class Sys> void first(const std::string& title, Sizes sz, const std::vector<Op>& ops)
	{
		for (size_t x = 0; x < ops.size(); x++)
			for (size_t y = x; y < ops.size(); y++)
			{
				Op a = ops[x], b = ops[y];
				for (bool after : { false, true })
					sched::add(title + ", first in the process" + (after ? " after allocate, " : ", ") + std::to_string(int(a)) + " and " + std::to_string(int(b)), [=](sched::Explorer& e)
					{
						Prog<Sys> p;
						p.title = title; p.sz = sz; p.n = 2; p.k = 2; p.cold = true;
						for (int t = 0; t < 2; t++) { p.ops[t][1] = t ? b : a; p.ops[t][0] = after ? SMALL : p.ops[t][1]; }
						e.run(p);
					});
			}
	}
	inline bool isAsking(Op o) { return o >= OWNS; }
	template<class Sys> void explore(sched::Explorer& e, const std::string& title, Sizes sz, const Shape& sh)
	{
		Prog<Sys> p;
		p.title = title;
		p.sz = sz;
		p.n = sh.threads;
		p.k = sh.steps;
		p.cold = sh.cold;
		size_t base = sh.ops.size();
		// all sequences of one thread that do not free what they cannot have
		std::vector<std::vector<Op>> seqs;
		long count = 1;
		for (int i = 0; i < sh.steps; i++) count *= long(base);
		for (long c = 0; c < count; c++)
		{
			std::vector<Op> s;
			long r = c;
			for (int i = 0; i < sh.steps; i++) { s.push_back(sh.ops[size_t(r % long(base))]); r /= long(base); }
			int have = 0, pre = sh.cold ? 0 : 1;
			bool ok = true;
			for (Op o : s)
			{
				if (o == SMALL || o == BIG) have++;
				if (o == NEWEST) { if (!have) ok = false; have--; }
				if (o == OLDEST) { if (have < 2) ok = false; have--; } // otherwise the same as NEWEST
				if (o == PRE) { if (!pre) ok = false; pre = 0; }
				if (o == CONSTRUCT && !pre) ok = false;
			}
			if (ok) seqs.push_back(s);
		}
		if (seqs.empty()) return;
		std::vector<size_t> pick(size_t(sh.threads), 0);
		for (;;)
		{
			bool use = true;
			int constructing = 0;
			for (int t = 0; t < sh.threads; t++) { bool c = false; for (Op o : seqs[pick[size_t(t)]]) c = c || o == CONSTRUCT; constructing += c; }
			if (sh.oneConstructs && constructing > 1) use = false;
			for (int t = 0; t < sh.threads && use; t++)
			{
				if (!sh.roles) { if (t && pick[size_t(t)] < pick[size_t(t - 1)]) use = false; } // the threads in another order are the same program
				else
				{
					for (Op o : seqs[pick[size_t(t)]]) if (isAsking(o) != (t == 0)) use = false;
					if (t > 1 && pick[size_t(t)] < pick[size_t(t - 1)]) use = false;
				}
			}
			if (use)
			{
				for (int t = 0; t < sh.threads; t++) for (int i = 0; i < sh.steps; i++) p.ops[t][i] = seqs[pick[size_t(t)]][size_t(i)];
				if (!e.run(p) && e.stop()) return;
			}
			int t = 0;
			while (t < sh.threads && ++pick[size_t(t)] == seqs.size()) pick[size_t(t++)] = 0;
			if (t == sh.threads) return;
		}
	}

	// ---- what is put together ---------------------------------------------------------------------------------------
	// How: the kind of handle; X: the allocator behind the lock
	template<template<class> class How, class X> struct Sys
	{
		How<ktl::threaded<X>> how;
		using Handle = typename How<ktl::threaded<X>>::Handle;
		void make(int n) { how.setup(n); }
		Handle& handle(int t) { return how.handle(t); }
		Handle& main() { return how.main(); }
		void drop(int t) { how.drop(t); }
		void finish() { how.finish(); }
	};
	// stack allocators need a stack
	template<template<class> class How, size_t N> struct StackSys
	{
		using T = ktl::threaded<ktl::stack_allocator<N>>;
		How<T> how;
		ktl::stack<N>* block = nullptr;
		using Handle = typename How<T>::Handle;
		void make(int n) { block = sched::make<ktl::stack<N>>(); how.setup(n, *block); }
		Handle& handle(int t) { return how.handle(t); }
		Handle& main() { return how.main(); }
		void drop(int t) { how.drop(t); }
		void finish() { how.finish(); sched::destroy(block); }
	};
	// typed handles over the same
	template<class T, class X> struct TypedSys
	{
		Counted<ktl::type_shared_threaded<T, X>, true> how;
		using Handle = ktl::type_shared_threaded<T, X>;
		void make(int n) { how.setup(n); }
		Handle& handle(int t) { return how.handle(t); }
		Handle& main() { return how.main(); }
		void drop(int t) { how.drop(t); }
		void finish() { how.finish(); }
	};
	// the allocators behind the lock
	using Linear = ktl::linear_allocator<96>;
	using Free = ktl::freelist<0, 32, ktl::linear_allocator<96>>;
	using FreeMalloc = ktl::freelist<16, 32, ktl::mallocator>;
	using Fall = ktl::fallback<ktl::linear_allocator<48>, ktl::mallocator>;
	using FallBound = ktl::fallback<ktl::linear_allocator<48>, ktl::linear_allocator<64>>;
	using Seg = ktl::segragator<16, ktl::linear_allocator<48>, ktl::linear_allocator<64>>;
	using Casc = ktl::cascading<ktl::linear_allocator<32>>;
	using FreeCasc = ktl::freelist<0, 32, ktl::cascading<ktl::linear_allocator<64>>>;
	// a part with a construction of its own that keeps no books
	template<size_t N> struct Custom : ktl::linear_allocator<N>
	{
		// opaque to the compiler, so that choosing between parts can't be optimised away
		template<class T, class... Args> void construct(T* p, Args&&... args) { asm volatile("" :: "r"(this) : "memory"); ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...); }
		template<class T> void destroy(T* p) { asm volatile("" :: "r"(this) : "memory"); p->~T(); }
	};
	// overflow allocators report to a stream
	struct Log
	{
		int lines = 0;
		template<class T> Log& operator<<(const T&) { lines++; return *this; }
	};
	using Over = ktl::overflow<ktl::linear_allocator<960>, Log>;
	template<template<class> class How, class X> struct OverSys
	{
		using T = ktl::threaded<X>;
		How<T> how;
		Log* log = nullptr;
		using Handle = typename How<T>::Handle;
		void make(int n) { log = sched::make<Log>(); how.setup(n, *log); }
		Handle& handle(int t) { return how.handle(t); }
		Handle& main() { return how.main(); }
		void drop(int t) { how.drop(t); }
		void finish() { how.finish(); if (log->lines) sched::fail("the overflow allocator reports an error, although there was none"); sched::destroy(log); }
	};
}
