// PARTS: 3
// As A17.cpp, for the library compiled for platforms on which malloc does not align (posix_memalign, by hand, _mm_malloc)
#ifndef MC_PART
#define MC_PART 0
#endif
#define MC_CONFIG (MC_PART + 1)
#include "platform.h"
#include "faultsys.h"
#undef MC_MINE

template<class C, int Mode>
static void suite(const char* name, size_t live, std::vector<size_t> sizes, size_t minSize = 0, int masks = 4)
{
	for (size_t r : MC_CONFIG == 2 ? std::vector<size_t>{ 0, 8, 16, 56 } : std::vector<size_t>{ 0, 16 })
	{
		AllocParams p{ sizes, thorough() ? live + 1 : live };
		p.residue = r;
		Bounds b;
		b.dfs = thorough() ? 4 : 2;
		b.depth = thorough() ? 24 : 12;
		b.maxStates = thorough() ? 200000 : 6000;
		add(std::string(CONFIG) + ": " + name + ", malloc residue " + std::to_string(r), b, [p, minSize, masks]() -> System* { return new FaultSys<C, Mode>(p, minSize, masks); });
	}
}
static constexpr size_t H = size_t(1) << 21, M = ~size_t(0);
static constexpr size_t SLACK = MC_CONFIG == 2 ? 16 : 0; // what aligning by hand adds must be representable as well

MC_SUITES
{
	using namespace ktl;
	suite<Plain<mallocator, INF - SLACK>, EXACT>("mallocator", 4, { 1, 17, H, M, M - 15 });
	suite<Plain<freelist<0, 16, mallocator>, 16>, EXACT>("freelist<0,16,mallocator>", 4, { 1, 16 });
	suite<Plain<cascading<linear_allocator<32>>, 32>, EXACT>("cascading<linear<32>>", 4, { 1, 17, 32, 33 });
	suite<Plain<freelist<0, 16, cascading<linear_allocator<32>>>, 16>, EXACT>("freelist<0,16,cascading<linear<32>>>", 4, { 1, 16 });
	suite<Plain<fallback<linear_allocator<32>, mallocator>, INF - SLACK>, EXACT>("fallback<linear<32>,mallocator>", 4, { 1, 17, 60, M });
	suite<Plain<segragator<16, freelist<0, 16, mallocator>, mallocator>, INF>, EXACT>("segragator<16,freelist<0,16,mallocator>,mallocator>", 4, { 1, 16, 17, 60 });
	suite<Over<mallocator, INF - 128 - SLACK>, EXACT>("overflow<mallocator>", 3, { 1, 17, H, M - 127, M - 128, M - 150 });
	suite<Plain<shared<mallocator>, INF>, EXACT>("shared<mallocator>", 4, { 1, 17, H });
	suite<Plain<threaded<cascading<linear_allocator<32>>>, 32>, EXACT>("threaded<cascading<linear<32>>>", 4, { 1, 17, 32 });
}
