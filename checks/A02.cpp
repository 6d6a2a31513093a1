// PARTS: 6
#include "allocsys.h"
#include "scalealloc.h"
using namespace mc;
using namespace conf;

template<bool Mine, class C>
static void suite(const std::string& name, size_t live, std::vector<size_t> sizes)
{
	if constexpr (Mine)
	{
		// Where the allocator object lives, and where the blocks of malloc start (modulo 64)
		static const size_t places[][2] = { { 0, 0 }, { 8, 16 }, { 16, 48 }, { 24, 32 }, { 40, 16 }, { 56, 48 } };
		for (auto& pl : places)
		{
			AllocParams p{ sizes, live };
			p.shift = pl[0]; p.residue = pl[1];
			Bounds b = alloc_bounds(sizes.size());
			b.dfs -= 1;
			b.depth = thorough() ? 12 : 7;
			if (thorough()) b.maxStates = 300000;
			add(name + " object@" + std::to_string(pl[0]) + " malloc@" + std::to_string(pl[1]), b, [p]() -> System* { return new AllocSys<C, ALIGNED>(p); });
		}
	}
}
// Every pair (triple) of sizes
template<bool Mine, class C>
static void all_sizes(const std::string& name, size_t lo, size_t hi, int depth)
{
	if constexpr (Mine)
	{
		AllocParams p;
		for (size_t i = lo; i <= hi; i++) p.sizes.push_back(i);
		p.maxLive = size_t(depth);
		p.shift = 8; p.residue = 16;
		Bounds b;
		b.dfs = 2;
		b.depth = depth;
		add(name, b, [p]() -> System* { return new AllocSys<C, ALIGNED>(p); });
	}
}

template<bool Mine, class A>
static void many(const char* name)
{
	if constexpr (Mine) add_cases(std::string("at scale, ") + name, [name](Cases& e) { scale::blocks<A>(e, name); });
}

MC_SUITES
{
#define X(name, C, live, sizes) suite<MC_MINE, typename strip<void C>::type>(name, live, std::vector<size_t>{ MC_UNPAREN sizes });
	KTL_REAL_CONFS(X)
	int d = thorough() ? 3 : 2;
	all_sizes<MC_MINE, Plain<linear_allocator<512>, 512>>("all sizes: linear<512>", 0, 66, d);
	all_sizes<MC_MINE, Stack<512, StackDirect<512>>>("all sizes: stack<512>", 0, 66, d);
	all_sizes<MC_MINE, Plain<mallocator, INF>>("all sizes: mallocator", 0, 66, 2);
	all_sizes<MC_MINE, Over<linear_allocator<1024>, 1024>>("all sizes: overflow<linear<1024>>", 0, 66, d);
	all_sizes<MC_MINE, Plain<cascading<linear_allocator<66>>, 66>>("all sizes: cascading<linear<66>>", 0, 66, d);
	all_sizes<MC_MINE, Plain<cascading<linear_allocator<16>>, 16>>("all sizes: cascading<linear<16>>", 0, 16, 3);
#define F(n) all_sizes<MC_MINE, Plain<freelist<0, n, linear_allocator<256>>, n>>("all sizes: freelist<0," #n ",linear<256>>", n - 1, n, 8);
	F(8) F(9) F(12) F(15) F(16) F(17) F(20) F(24) F(25) F(31) F(32) F(33) F(40)
	many<MC_MINE, linear_allocator<(1 << 24)>>("linear");
	many<MC_MINE, cascading<linear_allocator<40000>>>("cascading<linear<40000>>");
	many<MC_MINE, freelist<0, 64, linear_allocator<(1 << 24)>>>("freelist<0,64,linear>");
	many<MC_MINE, fallback<linear_allocator<66000>, mallocator>>("fallback<linear<66000>,mallocator>");
	if constexpr (MC_MINE) add_cases("sizes to 2^19, linear", [](Cases& e) { scale::everySize<linear_allocator<(1 << 21)>>(e, "linear_allocator", 70000, thorough() ? 3 : 29); });
	if constexpr (MC_MINE) add_cases("sizes to 2^19, stack", [](Cases& e) { scale::everySize<ktl::stack_allocator<(1 << 21)>>(e, "stack_allocator", 70000, thorough() ? 3 : 29); });
	if constexpr (MC_MINE) add_cases("sizes to 2^19, cascade", [](Cases& e) { scale::everySize<cascading<linear_allocator<(1 << 20)>>>(e, "cascading<linear>", 70000, thorough() ? 3 : 29); });
}
