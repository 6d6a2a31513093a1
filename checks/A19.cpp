// PARTS: 6
#include "holdsys.h"
#include "scalealloc.h"
using namespace mc;
using namespace conf;

struct MBase
{
	static constexpr int slots = 2;
	static constexpr bool asked = false;
	static constexpr size_t min = 0, max = 16, freshMin = 0, freshMax = 64;
	static void setup() { pools().instBytes = 64; pools().instBlocks = 2; pools().instMax = 64; }
	static void handles(int n) { for (int i = 0; i < n; i++) { int id = new_pool(4096, 3, 64); pools().p[id].user = 99; } }
};
struct Casc2 : MBase { using type = cascading<I>; static type* make(void* m, int) { return ::new (m) type(); } };
struct Casc3 : Casc2 { static constexpr int slots = 3; };
struct CascF : MBase { using type = cascading<freelist<0, 16, IN>>; static constexpr size_t freshMax = 16; static type* make(void* m, int) { return ::new (m) type(); } };
struct CascReal : MBase { using type = cascading<linear_allocator<64>>; static type* make(void* m, int) { return ::new (m) type(); } };
struct CascFRef : MBase { using type = cascading<fallback<IN, IN>>; static type* make(void* m, int) { return ::new (m) type(); } };
struct Free2 : MBase
{
	using type = freelist<0, 16, L>;
	static void setup() { handles(2); }
	static type* make(void* m, int i) { return ::new (m) type(PoolId{ i }); }
};
struct Free3 : MBase
{
	using type = freelist<0, 16, LN>;
	static constexpr int slots = 3;
	static void setup() { handles(1); }
	static type* make(void* m, int) { return ::new (m) type(PoolId{ 0 }); }
};
struct FreeMalloc : MBase
{
	using type = freelist<0, 16, mallocator>;
	static type* make(void* m, int) { return ::new (m) type(); }
};
struct FreeOfFree2 : MBase
{
	using type = freelist<0, 16, freelist<8, 32, L>>;
	static void setup() { handles(2); }
	static type* make(void* m, int i) { return ::new (m) type(PoolId{ i }); }
};
// composites of movable parts
struct FallCasc : MBase
{
	using type = fallback<cascading<I>, cascading<I>>;
	static void setup() { pools().instBytes = 64; pools().instBlocks = 2; pools().instMax = 64; }
	static type* make(void* m, int) { return ::new (m) type(); }
};
struct SegFree : MBase
{
	using type = segragator<16, freelist<0, 16, L>, freelist<16, 48, L>>;
	static void setup() { handles(2); }
	static type* make(void* m, int i) { return ::new (m) type(PoolId{ i }, PoolId{ i }); }
};
struct FallFreeCasc : MBase
{
	using type = segragator<16, freelist<0, 16, LN>, cascading<I>>;
	static void setup() { handles(2); MBase::setup(); }
	static type* make(void* m, int i) { return ::new (m) type(std::tuple<PoolId>(PoolId{ i }), std::tuple<>()); }
};

template<bool Mine, class S, int F>
static void suite(const char* name, std::vector<size_t> sizes, size_t live, bool drop, int depth)
{
	if constexpr (Mine)
	{
		HoldParams p{ sizes, live, drop };
		Bounds b;
		b.dfs = thorough() ? 5 : 4;
		if (S::slots > 2) b.dfs--;
		b.depth = depth + (thorough() ? 4 : 0);
		b.maxStates = thorough() ? 1000000 : 60000;
		add(name, b, [p]() -> System* { return new HoldSys<S, F>(p); });
	}
}

MC_SUITES
{
	suite<MC_MINE, Casc2, CASCADE | MOVES>("2 x cascading<I>", { 1, 64 }, 4, true, 8);
	suite<MC_MINE, Casc3, CASCADE | MOVES>("3 x cascading<I>", { 64 }, 3, true, 8);
	suite<MC_MINE, CascF, CASCADE | MOVES>("2 x cascading<freelist<0,16,I>>", { 1, 16 }, 4, true, 8);
	suite<MC_MINE, CascReal, MOVES>("2 x cascading<linear<64>>", { 1, 33, 64 }, 3, false, 8);
	suite<MC_MINE, Free2, FREELIST | MOVES>("2 x freelist<0,16,L> on two pools", { 1, 16 }, 4, false, 9);
	suite<MC_MINE, Free3, FREELIST | MOVES>("3 x freelist<0,16,L> on one pool", { 1, 16 }, 3, false, 8);
	suite<MC_MINE, FreeMalloc, MOVES>("2 x freelist<0,16,mallocator>", { 1, 16 }, 3, false, 8);
	suite<MC_MINE, FreeOfFree2, MOVES>("2 x freelist<0,16,freelist<8,32,L>>", { 1, 16 }, 3, false, 8);
	suite<MC_MINE, FallCasc, MOVES>("2 x fallback<cascading<I>,cascading<I>>", { 1, 64 }, 4, true, 7);
	suite<MC_MINE, SegFree, MOVES>("2 x segragator<16,freelist<0,16,L>,freelist<16,48,L>>", { 1, 16, 48 }, 3, false, 8);
	suite<MC_MINE, FallFreeCasc, MOVES>("2 x segragator<16,freelist<0,16,L>,cascading<I>>", { 16, 48 }, 3, false, 8);
	if constexpr (MC_MINE) add_cases("moves at scale", scale::travels);
}
