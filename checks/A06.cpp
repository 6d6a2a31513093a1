// PARTS: 6
#include "grants.h"
using namespace mc;
using namespace conf;

template<bool Mine, class C>
static void suite(const char* name, size_t live, std::vector<size_t> sizes)
{
	if constexpr (Mine)
	{
		AllocParams p{ sizes, thorough() ? live + 1 : live };
		add(name, alloc_bounds(sizes.size()), [p]() -> System* { return new AllocSys<C, ROUTED>(p); });
	}
}

MC_SUITES
{
	if constexpr (MC_MINE) add_cases("requests of every magnitude", mc::grants::all_magnitudes);
#define X(name, C, live, sizes) suite<MC_MINE, typename strip<void C>::type>(name, live, std::vector<size_t>{ MC_UNPAREN sizes });
	KTL_REAL_CONFS(X)
	KTL_PROBED_CONFS(X)
}
