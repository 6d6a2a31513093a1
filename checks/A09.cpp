// PARTS: 5
#include "holdsys.h"
#include "scalealloc.h"
using namespace mc;
using namespace conf;

template<size_t Min, size_t Max, int Slots, size_t Blocks, bool SamePool>
struct Free
{
	using type = freelist<Min, Max, L>;
	static constexpr int slots = Slots;
	static constexpr size_t min = Min, max = Max, freshMin = Min, freshMax = Max;
	static constexpr bool asked = false;
	static void setup()
	{
		for (int i = 0; i < (SamePool ? 1 : Slots); i++) { int id = new_pool(4096, Blocks, Max); pools().p[id].user = 99; }
	}
	static type* make(void* m, int i) { return ::new (m) type(PoolId{ SamePool ? 0 : i }); }
};
// The underlying allocator is reached through a reference
template<size_t Min, size_t Max>
struct FreeRef
{
	using type = freelist<Min, Max, reference<L>>;
	static constexpr int slots = 2;
	static constexpr size_t min = Min, max = Max, freshMin = Min, freshMax = Max;
	static constexpr bool asked = false;
	static Obj<L>& leaf() { static Obj<L> l; return l; }
	static void setup() { int id = new_pool(4096, 3, Max); leaf().make(PoolId{ id }); }
	static type* make(void* m, int) { return ::new (m) type(*leaf()); }
};

template<bool Mine, class S, int F>
static void suite(const char* name, std::vector<size_t> sizes, size_t live, int depth)
{
	if constexpr (Mine)
	{
		HoldParams p{ sizes, live, false };
		Bounds b;
		b.dfs = thorough() ? 5 : 4;
		if (sizes.size() > 4) b.dfs--;
		if (S::slots > 2) b.dfs--;
		b.depth = depth + (thorough() ? 4 : 0);
		b.maxStates = thorough() ? 1000000 : 60000;
		add(name, b, [p]() -> System* { return new HoldSys<S, F>(p); });
	}
}

MC_SUITES
{
	constexpr size_t M = ~size_t(0);
	suite<MC_MINE, Free<0, 8, 1, 3, true>, FREELIST>("freelist<0,8>", { 0, 1, 8, 9, M }, 4, 10);
	suite<MC_MINE, Free<0, 16, 1, 4, true>, FREELIST>("freelist<0,16>", { 0, 1, 15, 16, 17 }, 5, 10);
	suite<MC_MINE, Free<8, 33, 1, 3, true>, FREELIST>("freelist<8,33>", { 0, 8, 9, 32, 33, 34, M }, 4, 9);
	suite<MC_MINE, Free<16, 48, 1, 4, true>, FREELIST>("freelist<16,48>", { 16, 17, 48, 49 }, 5, 10);
	suite<MC_MINE, Free<255, 300, 1, 3, true>, FREELIST>("freelist<255,300>", { 255, 256, 300, 301 }, 4, 9);
	suite<MC_MINE, Free<0, 16, 2, 3, true>, FREELIST | MOVES>("2 x freelist<0,16> on one pool", { 1, 16, 17 }, 4, 8);
	suite<MC_MINE, Free<0, 16, 2, 3, false>, FREELIST | MOVES>("2 x freelist<0,16> on two pools", { 1, 16, 17 }, 4, 8);
	suite<MC_MINE, Free<8, 40, 3, 3, false>, FREELIST | MOVES>("3 x freelist<8,40> on three pools", { 9, 40 }, 3, 6);
	suite<MC_MINE, FreeRef<0, 24>, FREELIST | MOVES>("2 x freelist<0,24,reference<L>>", { 1, 24, 25 }, 4, 8);
	if constexpr (MC_MINE) add_cases("free lists at scale", scale::freelists);
	if constexpr (MC_MINE) add_cases("windows of every magnitude", scale::windows);
}
