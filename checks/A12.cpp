// PARTS: 5
#include "handlesys.h"
using namespace mc;
using namespace conf;

// A group made from constructor arguments; the instance is the argument's copy
struct WithArgs : SharedOf<shared<Inst<OWNS | MAXS>>>
{
	static type* create(void* m, Env&, int) { pools().instBytes = 64; pools().instBlocks = 3; pools().instMax = 64; return ::new (m) type(PoolId{ 0 }); }
};
struct TypedArgs : TypedOf<int, double, shared<Inst<OWNS | MAXS>>>
{
	static type* create(void* m, Env&, int) { pools().instBytes = 64; pools().instBlocks = 3; pools().instMax = 64; return ::new (m) type(PoolId{ 0 }); }
};
template<class S> struct Four : S { static constexpr int slots = 4; };

template<bool Mine, class Spec>
static void suite(const char* name, int depth)
{
	if constexpr (Mine)
	{
		Bounds b;
		b.dfs = thorough() ? 5 : 4;
		b.depth = depth + (thorough() ? 4 : 0);
		b.maxStates = thorough() ? 600000 : 40000;
		add(name, b, []() -> System* { return new HandleSys<Spec, LIFETIME>(); });
	}
}

// Many handles: the count behind them must not wrap around or saturate
template<bool Mine, class H>
static void many(const char* name)
{
	if constexpr (Mine)
		add_cases(name, [](Cases& e)
		{
			for (size_t n : { 2, 3, 5, 10, 100, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131072 })
				for (int order = 0; order < 3; order++)     // newest first, oldest first, the original in the middle
					for (int how = 0; how < 3; how++)       // copied from the original, from the previous one, or assigned
					{
						if (!e.next("%zu handles, %s, dropped %s", n, how == 0 ? "copies of the first" : how == 1 ? "copies of the previous" : "assigned",
							order == 0 ? "newest first" : order == 1 ? "oldest first" : "from the middle")) continue;
						pools().instBytes = 64; pools().instBlocks = 3; pools().instMax = 64;
						world().onReset = reset_pools;
						std::vector<H*> h;
						char* mem = static_cast<char*>(::operator new((n + 1) * sizeof(H)));
						auto at = [&](size_t i) { return mem + i * sizeof(H); };
						h.push_back(::new (at(0)) H());
						if (pools().instancesLive != 1) fail("%d instances exist after the first handle was created", pools().instancesLive);
						for (size_t i = 1; i < n && !failed(); i++)
						{
							const H& from = *h[how == 1 ? i - 1 : 0];
							if (how < 2) h.push_back(::new (at(i)) H(from));
							else
							{
								h.push_back(::new (at(i)) H());
								*h[i] = from;
							}
							if (pools().instancesLive != 1) fail("%d instances exist with %zu handles of one group", pools().instancesLive, i + 1);
						}
						e.step(n);
						size_t left = n;
						auto drop = [&](size_t i)
						{
							if (failed()) return;
							h[i]->~H();
							left--;
							if (pools().instancesLive != (left ? 1 : 0)) fail("%d instances exist after %zu of %zu handles were dropped", pools().instancesLive, n - left, n);
						};
						if (order == 0) for (size_t i = n; i-- > 0;) drop(i);
						if (order == 1) for (size_t i = 0; i < n; i++) drop(i);
						if (order == 2) { for (size_t i = n / 2; i < n; i++) drop(i); for (size_t i = n / 2; i-- > 0;) drop(i); }
						if (!failed()) ::operator delete(mem);
						if (!e.ok()) return;
					}
		});
}

MC_SUITES
{
	using I0 = Inst<OWNS | MAXS>;
	suite<MC_MINE, SharedOf<shared<I0>>>("3 handles of shared<I>", 9);
	suite<MC_MINE, Four<SharedOf<shared<I0>>>>("4 handles of shared<I>", 7);
	suite<MC_MINE, WithArgs>("3 handles of shared<I> with arguments", 8);
	suite<MC_MINE, SharedOf<atomic_shared<I0>>>("3 handles of atomic_shared<I>", 9);
	suite<MC_MINE, Four<SharedOf<atomic_shared<I0>>>>("4 handles of atomic_shared<I>", 6);
	suite<MC_MINE, SharedOf<atomic_shared<threaded<I0>>>>("3 handles of atomic_shared<threaded<I>>", 8);
	suite<MC_MINE, SharedOf<shared<freelist<0, 16, I0>>>>("3 handles of shared<freelist<0,16,I>>", 8);
	suite<MC_MINE, TypedOf<int, double, shared<I0>>>("3 handles of type_allocator<int, shared<I>>", 8);
	suite<MC_MINE, TypedArgs>("3 handles of type_allocator<int, shared<I>> with arguments", 7);
	suite<MC_MINE, TypedOf<long, char, atomic_shared<threaded<I0>>>>("3 handles of type_shared_threaded<long, I>", 7);
	many<MC_MINE, shared<I0>>("many handles of shared<I>");
	many<MC_MINE, atomic_shared<I0>>("many handles of atomic_shared<I>");
	many<MC_MINE, ktl::type_allocator<int, shared<I0>>>("many handles of type_allocator<int, shared<I>>");
	suite<MC_MINE, TypedOf<char, short, atomic_shared<I0>>>("3 handles of type_allocator<char, atomic_shared<I>>", 7);
}
