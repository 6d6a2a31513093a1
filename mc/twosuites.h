// The suites over two containers, shared by C05, C06 and C07
#pragma once
#include "twoslot.h"
namespace conts
{
	template<bool Mine, int CHECKS, Kind K, class T, class A = TAlloc<T>, class Comp = ByKey>
	void two(const char* name, size_t max, size_t keys, size_t states, size_t tmax, size_t tkeys, size_t tstates)
	{
		if constexpr (Mine)
		{
			size_t mx = mc::thorough() ? tmax : max, ks = mc::thorough() ? tkeys : keys;
			mc::Bounds b;
			b.dfs = mc::thorough() ? 4 : 3;
			b.depth = 200;
			b.maxStates = mc::thorough() ? tstates : states;
			mc::add(name, b, [mx, ks]() -> mc::System* { return new TwoSys<K, T, A, Comp, CHECKS>(mx, ks); });
		}
	}
}
