// PARTS: 6
#include "allocsys.h"
#include "scalealloc.h"
using namespace mc;
using namespace conf;

template<bool Mine, class C>
static void suite(const char* name, size_t live, std::vector<size_t> sizes)
{
	if constexpr (Mine)
	{
		AllocParams p{ sizes, thorough() ? live + 1 : live };
		add(name, alloc_bounds(sizes.size()), [p]() -> System* { return new AllocSys<C, DISJOINT>(p); });
	}
}

template<bool Mine, class A>
static void many(const char* name)
{
	if constexpr (Mine) add_cases(std::string("at scale, ") + name, [name](Cases& e) { scale::blocks<A>(e, name); });
}
template<bool Mine, class A>
static void manyWatched(const char* name)
{
	if constexpr (Mine)
		add_cases(std::string("at scale, ") + name, [name](Cases& e)
		{
			static Text text;
			text = Text();
			scale::blocks<A>(e, name, text);
			if (!failed() && text.n) fail("a report was written: %s", text.s);
		});
}
constexpr size_t MB = size_t(1) << 20;

MC_SUITES
{
#define X(name, C, live, sizes) suite<MC_MINE, typename strip<void C>::type>(name, live, std::vector<size_t>{ MC_UNPAREN sizes });
	KTL_REAL_CONFS(X)
	KTL_PROBED_CONFS(X)
	many<MC_MINE, mallocator>("mallocator");
	many<MC_MINE, linear_allocator<16 * MB>>("linear");
	many<MC_MINE, freelist<0, 64, linear_allocator<16 * MB>>>("freelist<linear>");
	many<MC_MINE, freelist<8, 64, mallocator>>("freelist<mallocator>");
	many<MC_MINE, cascading<linear_allocator<65536>>>("cascading<linear<65536>>");
	many<MC_MINE, fallback<linear_allocator<70000>, mallocator>>("fallback<linear<70000>,mallocator>");
	many<MC_MINE, fallback<freelist<0, 64, linear_allocator<MB>>, cascading<linear_allocator<100000>>>>("fallback<freelist<linear>,cascading<linear>>");
	many<MC_MINE, segragator<32, freelist<0, 32, linear_allocator<4 * MB>>, linear_allocator<16 * MB>>>("segragator<32,freelist<linear>,linear>");
	many<MC_MINE, threaded<segragator<32, freelist<0, 32, mallocator>, mallocator>>>("threaded<segragator<freelist,mallocator>>");
	many<MC_MINE, shared<freelist<0, 64, cascading<linear_allocator<65536>>>>>("shared<freelist<cascading<linear>>>");
	many<MC_MINE, ktl::type_allocator<char, atomic_shared<threaded<linear_allocator<16 * MB>>>>>("type_allocator<atomic_shared<threaded<linear>>>");
	manyWatched<MC_MINE, overflow<mallocator, Text>>("overflow<mallocator>");
	manyWatched<MC_MINE, overflow<linear_allocator<32 * MB>, Text>>("overflow<linear>");
}
