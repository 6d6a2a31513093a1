// PARTS: 8
#include "locksys.h"
using namespace mc;
using namespace conf;

template<class C> struct is_glob : std::false_type {};
template<class T, size_t N> struct is_glob<Glob<T, N>> : std::true_type {};

template<bool Mine, class C>
static void suite(const std::string& name, size_t live, std::vector<size_t> sizes)
{
	// (two global handles share one instance: there is no second allocator to compare with)
	if constexpr (Mine && !is_glob<C>::value)
	{
		AllocParams p{ sizes, live > 3 ? 3 : live };
		if (thorough()) p.maxLive++;
		p.leak = name.find("overflow") != std::string::npos;
		Bounds b;
		b.dfs = 2;
		b.depth = thorough() ? 12 : 8;
		b.maxStates = thorough() ? 400000 : 15000;
		add(name, b, [p]() -> System* { return new LockSys<C>(p); });
	}
}

MC_SUITES
{
#define X(name, C, live, sizes) suite<MC_MINE, typename strip<void C>::type>(name, live, std::vector<size_t>{ MC_UNPAREN sizes });
	KTL_REAL_CONFS(X)
	KTL_PROBED_CONFS(X)
}
