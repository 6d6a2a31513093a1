// PARTS: 7
// T03: queries on a locked allocator are safe next to concurrent changes
#include "threadconf.h"
using namespace tc;
namespace
{
	const std::vector<Op> ALL = { SMALL, BIG, NEWEST, PRE, OWNS, FOREIGN, MAXIMUM, EQUAL, CONSTRUCT };
	const std::vector<Op> FIRST = { SMALL, NEWEST, OWNS, FOREIGN, MAXIMUM, EQUAL };
	const std::vector<Op> MIXED = { SMALL, NEWEST, PRE, OWNS, MAXIMUM, EQUAL };
	template<class S> void programs(const char* name, Sizes sz, bool one = false)
	{
		std::string n = name;
		first<S>(n, sz, FIRST);
		sched::add(n + ", one asks, one changes, x 2", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 2, ALL, true, one }); });
		sched::add(n + ", one asks, two change, x 1", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 3, 1, ALL, true, one }); });
		sched::add(n + ", both do both, x 2", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 2, MIXED }); });
		sched::add(n + ", one asks, one changes, x 3", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 3, ALL, true, one }); });
		sched::add(n + ", all do all, x 1", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 3, 1, ALL, false, one }); });
		sched::add(n + ", not used before, 2 threads x 2", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 2, FIRST, false, one, true }); });
		sched::add(n + ", not used before, 3 threads x 1", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 3, 1, FIRST, false, one, true }); });
		if (sched::thorough())
		{
			sched::add(n + ", not used before, 2 threads x 3", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 3, FIRST, false, one, true }); });
			sched::add(n + ", one asks, two change, x 2", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 3, 2, ALL, true, one }); });
			sched::add(n + ", both do both, x 3", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 3, MIXED }); });
		}
	}
	// Two different locked allocators are compared while both change
	template<class X> struct Two : sched::Test
	{
		using T = ktl::threaded<X>;
		T* a = nullptr;
		T* b = nullptr;
		int n = 2, k = 1;
		int ops[3][3];
		struct Got { T* from; void* p; } got[3][3];
		static constexpr int N = 6;
		int threads() const override { return n; }
		int steps(int) const override { return k; }
		void setup() override
		{
			a = sched::make<T>();
			b = sched::make<T>();
			memset(got, 0, sizeof got);
			for (T* x : { a, b }) { void* p = x->allocate(16); if (p) x->deallocate(p, 16); }
		}
		void step(int t, int i) override
		{
			switch (ops[t][i])
			{
			case 0: if (*a == *b) fail("two different allocators compare equal"); break;
			case 1: if (*b == *a) fail("two different allocators compare equal"); break;
			case 2: if (!(*a != *b)) fail("two different allocators do not compare unequal"); break;
			case 3: got[t][i] = Got{ a, a->allocate(16) }; break;
			case 4: got[t][i] = Got{ b, b->allocate(16) }; break;
			case 5: if (!(*b != *a)) fail("two different allocators do not compare unequal"); break;
			}
		}
		void finish() override
		{
			for (auto& r : got) for (Got& g : r) if (g.from && g.p) g.from->deallocate(g.p, 16);
			sched::destroy(a);
			sched::destroy(b);
			if (size_t left = sched::blocks()) fail("%zu blocks of system memory were not returned", left);
		}
		std::string describe(int t, int i) const override { static const char* s[] = { "a == b", "b == a", "a != b", "a.allocate", "b.allocate", "b != a" }; return s[ops[t][i]]; }
		std::string describe() const override
		{
			std::string s = "two locked allocators: ";
			for (int t = 0; t < n; t++) { s += t ? " || " : ""; for (int i = 0; i < k; i++) s += (i ? "; " : "") + describe(t, i); }
			return s;
		}
	};
	template<class X> void two(const char* name, int threads, int steps, int preemptions)
	{
		sched::add(std::string(name) + ", two different allocators, " + std::to_string(threads) + " threads x " + std::to_string(steps) + ", at most " + std::to_string(preemptions) + " preemptions", [=](sched::Explorer& e)
		{
			Two<X> p;
			p.n = threads; p.k = steps; p.reference = false; p.preemptions = preemptions; p.horizon = 2000;
			long count = 1;
			for (int i = 0; i < threads * steps; i++) count *= p.N;
			for (long c = 0; c < count; c++)
			{
				long r = c;
				for (int t = 0; t < threads; t++) for (int i = 0; i < steps; i++) { p.ops[t][i] = int(r % p.N); r /= p.N; }
				bool sorted = true;
				for (int t = 0; t + 1 < threads && sorted; t++)
					for (int i = 0; i < steps; i++) { if (p.ops[t][i] < p.ops[t + 1][i]) break; if (p.ops[t][i] > p.ops[t + 1][i]) { sorted = false; break; } }
				if (sorted && !e.run(p) && e.stop()) return;
			}
		});
	}
}
SCHED_SUITES
{
	const Sizes SZ{ 16, 32 };
#if MC_PART == 0
	programs<Sys<Direct, Linear>>("threaded<linear>", SZ);
	programs<Sys<Glob, Linear>>("global<threaded<linear>>", SZ);
	programs<TypedSys<long, Linear>>("type_shared_threaded<long, linear>", SZ);
#elif MC_PART == 1
	programs<Sys<Ref, Free>>("reference<threaded<freelist<linear>>>", SZ);
	programs<Sys<Atomic, Free>>("atomic_shared<threaded<freelist<linear>>>", SZ);
	two<Linear>("threaded<linear>", 2, 2, 2);
	two<Linear>("threaded<linear>", 3, 1, 2);
	two<Casc>("threaded<cascading<linear>>", 2, 2, sched::thorough() ? 4 : 2);
#elif MC_PART == 2
	programs<Sys<Direct, Casc>>("threaded<cascading<linear>>", SZ);
	programs<Sys<Glob, Casc>>("global<threaded<cascading<linear>>>", SZ);
	programs<TypedSys<double, Casc>>("type_shared_threaded<double, cascading<linear>>", SZ);
#elif MC_PART == 3
	programs<Sys<Atomic, FreeCasc>>("atomic_shared<threaded<freelist<cascading<linear>>>>", SZ);
	programs<Sys<Shared, FallBound>>("shared<threaded<fallback<linear, linear>>>", SZ);
	programs<StackSys<Ref, 96>>("reference<threaded<stack>>", SZ);
#elif MC_PART == 4
	programs<OverSys<Direct, Over>>("threaded<overflow<linear>>", SZ, true);
	programs<OverSys<Atomic, Over>>("atomic_shared<threaded<overflow<linear>>>", SZ, true);
	sched::add("threaded<overflow<linear>>, two threads construct", [=](sched::Explorer& e) { explore<OverSys<Direct, Over>>(e, "threaded<overflow<linear>>", SZ, Shape{ 2, 1, { CONSTRUCT } }); });
	two<ktl::freelist<0, 32, Casc>>("threaded<freelist<cascading<linear>>>", 2, 2, 2);
#elif MC_PART == 5
	// parts with a construction of their own: which one it is has to be found out next to the changes
	programs<Sys<Direct, ktl::fallback<Custom<48>, Custom<64>>>>("threaded<fallback<custom, custom>>", SZ);
	programs<Sys<Atomic, ktl::fallback<ktl::linear_allocator<48>, Custom<64>>>>("atomic_shared<threaded<fallback<linear, custom>>>", SZ);
	programs<Sys<Atomic, ktl::segragator<16, Custom<48>, ktl::linear_allocator<64>>>>("atomic_shared<threaded<segragator<custom, linear>>>", SZ);
	programs<Sys<Ref, ktl::freelist<0, 32, Custom<96>>>>("reference<threaded<freelist<custom>>>", SZ);
	sched::add("threaded<cascading<custom>>, one constructs, one changes", [=](sched::Explorer& e) { explore<Sys<Direct, ktl::cascading<Custom<32>>>>(e, "threaded<cascading<custom>>", SZ, Shape{ 2, 1, { SMALL, CONSTRUCT }, true }); });
#else
	programs<Sys<Atomic, Seg>>("atomic_shared<threaded<segragator<linear, linear>>>", SZ);
	programs<Sys<Ref, Seg>>("reference<threaded<segragator<linear, linear>>>", SZ);
	programs<Sys<Shared, FreeMalloc>>("shared<threaded<freelist<mallocator>>>", SZ);
#endif
}
