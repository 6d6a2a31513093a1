// PARTS: 5
#include "holdsys.h"
#include "scalealloc.h"
using namespace mc;
using namespace conf;

struct CascBase
{
	static constexpr int slots = 2;
	static constexpr bool asked = true;
	static constexpr size_t freshMin = 0;
	static void setup() { pools().instBytes = 64; pools().instBlocks = 2; pools().instMax = 64; }
};
// with max_size, two blocks per instance
struct WithMax : CascBase
{
	using type = cascading<I>;
	static constexpr size_t freshMax = 64;
	static type* make(void* m, int) { return ::new (m) type(); }
};
struct WithoutMax : CascBase
{
	using type = cascading<IN>;
	static constexpr size_t freshMax = 64;
	static type* make(void* m, int) { return ::new (m) type(); }
};
// three small blocks per instance
struct Three : CascBase
{
	using type = cascading<IN>;
	static constexpr size_t freshMax = 48;
	static void setup() { pools().instBytes = 48; pools().instBlocks = 3; pools().instMax = 48; }
	static type* make(void* m, int) { return ::new (m) type(); }
};
// an instance holds exactly one block
struct One : CascBase
{
	using type = cascading<I>;
	static constexpr int slots = 1;
	static constexpr size_t freshMax = 64;
	static void setup() { pools().instBytes = 64; pools().instBlocks = 1; pools().instMax = 64; }
	static type* make(void* m, int) { return ::new (m) type(); }
};
struct Solo : WithoutMax { static constexpr int slots = 1; };
// instances that recycle
struct Recycle : CascBase
{
	using type = cascading<freelist<0, 16, IN>>;
	static constexpr size_t freshMax = 16;
	static constexpr size_t freshMin = 1;
	static type* make(void* m, int) { return ::new (m) type(); }
};
struct Recycle1 : Recycle { static constexpr int slots = 1; };
// instances that check for overflow would need a stream; instances with two parts
struct TwoParts : CascBase
{
	using type = cascading<fallback<IN, IN>>;
	static constexpr size_t freshMax = 64;
	static constexpr bool asked = false;
	static constexpr int slots = 1;
	static void setup() { pools().instBytes = 64; pools().instBlocks = 1; pools().instMax = 64; }
	static type* make(void* m, int) { return ::new (m) type(); }
};

template<bool Mine, class S, int F>
static void suite(const char* name, std::vector<size_t> sizes, size_t live, bool drop, int depth)
{
	if constexpr (Mine)
	{
		HoldParams p{ sizes, live, drop };
		if (thorough()) p.maxLive++;
		Bounds b;
		b.dfs = thorough() ? 5 : 4;
		b.depth = depth + (thorough() ? 4 : 0);
		b.maxStates = thorough() ? 1000000 : 60000;
		add(name, b, [p]() -> System* { return new HoldSys<S, F>(p); });
	}
}

MC_SUITES
{
	// instances may refuse any request
	suite<MC_MINE, Solo, CASCADE | REFUSES>("cascading<I without max_size that may refuse>", { 1, 40, 65 }, 4, true, 7);
	suite<MC_MINE, One, CASCADE | REFUSES>("cascading<I with one block that may refuse>", { 1, 64 }, 5, true, 7);
	suite<MC_MINE, Recycle1, CASCADE | REFUSES>("cascading<freelist<0,16,I that may refuse>>", { 0, 16, 17 }, 4, true, 7);
	suite<MC_MINE, WithMax, CASCADE | MOVES | REFUSES>("2 x cascading<I that may refuse>", { 1, 64 }, 3, true, 6);
	suite<MC_MINE, Solo, CASCADE>("cascading<I without max_size>", { 0, 1, 40, 65 }, 5, true, 9);
	suite<MC_MINE, One, CASCADE>("cascading<I with one block>", { 1, 64, 65 }, 6, true, 11);
	suite<MC_MINE, TwoParts, 0>("cascading<fallback<I,I>>", { 0, 1, 64, 65 }, 5, true, 9);
	suite<MC_MINE, WithMax, CASCADE | MOVES>("2 x cascading<I>", { 1, 64, 65 }, 4, true, 7);
	suite<MC_MINE, WithoutMax, CASCADE | MOVES>("2 x cascading<I without max_size>", { 0, 1, 64, 65 }, 4, false, 7);
	suite<MC_MINE, Three, CASCADE | MOVES>("2 x cascading<I with three blocks>", { 0, 16, 48, 49 }, 4, true, 7);
	suite<MC_MINE, Recycle, CASCADE | MOVES>("2 x cascading<freelist<0,16,I>>", { 0, 16, 17 }, 4, true, 7);
	if constexpr (MC_MINE) add_cases("cascades at scale", scale::cascades);
}
