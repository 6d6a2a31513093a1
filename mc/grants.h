// Requests of every magnitude: parts that grant everything without providing it, so that sizes no machine has can be followed
// through a composition. Nothing but the link of a free list is ever stored in these blocks.
#pragma once
#include "allocsys.h"

namespace mc::grants
{
	struct Ledger { int askedOf = -1, returnedTo = -1, asks = 0, returns = 0; size_t asked = 0, returned = 0; const void* p = nullptr; unsigned refuse = 0; };
	inline Ledger& ledger() { static Ledger l; return l; }
	template<int N, bool OWNS = true>
	struct Grant
	{
		static char* place() { alignas(64) static char c[64]; return c; }
		void* allocate(size_t n)
		{
			Ledger& l = ledger();
			l.asks++;
			if (l.refuse >> N & 1) return nullptr;
			l.askedOf = N;
			l.asked = n;
			return place();
		}
		void deallocate(void* p, size_t n)
		{
			Ledger& l = ledger();
			l.returns++;
			l.returnedTo = N;
			l.returned = n;
			l.p = p;
			if (p != place()) fail("part %d was given back a pointer that is not its own", N);
		}
		template<bool B = OWNS, typename = std::enable_if_t<B>> bool owns(void* p) const { return p == place(); }
		bool operator==(const Grant&) const noexcept { return true; }
		bool operator!=(const Grant&) const noexcept { return false; }
	};
	inline std::vector<size_t> magnitudes(std::initializer_list<size_t> around)
	{
		std::set<size_t> s;
		for (size_t n = 0; n <= 66; n++) s.insert(n);
		for (int k = 7; k < 64; k++) for (size_t d = 0; d < 5; d++) s.insert((size_t(1) << k) + d - 2);
		for (size_t a : around)
			for (size_t hi : { size_t(0), size_t(1) << 8, size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 33, size_t(1) << 48, size_t(1) << 63 })
				for (size_t d = 0; d < 5; d++) s.insert(hi + a + d - 2);
		for (size_t d = 0; d < 66; d++) s.insert(~size_t(0) - d);
		return std::vector<size_t>(s.begin(), s.end());
	}
	// route(n): the part that must serve n bytes, -1 if it must be refused. fixed(n): the size it must be asked for
	template<class A, class R, class F>
	bool follow(Cases& e, const char* name, std::initializer_list<size_t> around, bool keeps, R route, F fixed)
	{
		for (size_t n : magnitudes(around))
			for (unsigned refuse : { 0u, 1u })
			{
				if (!e.next("%s: %zu bytes%s", name, n, refuse ? ", the first part refuses" : "")) continue;
				Ledger& l = ledger();
				l = Ledger();
				l.refuse = refuse;
				{
					A a;
					int want = route(n, refuse != 0);
					auto p = a.allocate(n);
					e.step();
					if ((p != nullptr) != (want >= 0)) { fail("allocate(%zu) %s", n, p ? "succeeded" : "failed"); return false; }
					if (p)
					{
						if (l.askedOf != want) { fail("allocate(%zu) was served by part %d instead of part %d", n, l.askedOf, want); return false; }
						if (l.asked != fixed(n)) { fail("allocate(%zu) asked for %zu bytes", n, l.asked); return false; }
						a.deallocate(p, n);
						if (failed()) return false;
					}
					if (p && !keeps && l.returns != 1) { fail("the block of %zu bytes was given back %d times", n, l.returns); return false; }
				}
				if (l.askedOf >= 0)
				{
					if (l.returns != 1) { fail("the block of %zu bytes was given back %d times", n, l.returns); return false; }
					if (l.returnedTo != l.askedOf) { fail("the block of %zu bytes of part %d was given back to part %d", n, l.askedOf, l.returnedTo); return false; }
					if (l.returned != l.asked) { fail("the block obtained with %zu bytes was given back with %zu", l.asked, l.returned); return false; }
				}
				if (!e.ok()) return false;
			}
		return true;
	}
	inline void all_magnitudes(Cases& e)
	{
		using namespace ktl;
		using A = Grant<0>;
		using B = Grant<1>;
		using C = Grant<2>;
		using N = Grant<0, false>;
		using M = Grant<1, false>;
		constexpr size_t G4 = (size_t(1) << 32) + 8, TOP = ~size_t(0);
		auto same = [](size_t n) { return n; };
		auto first = [](size_t, bool r) { return r ? -1 : 0; };
		auto seg = [](size_t t) { return [t](size_t n, bool r) { return n > t ? 1 : r ? -1 : 0; }; };
		(void)(follow<threaded<A>>(e, "threaded<part>", {}, false, first, same)
			&& follow<shared<A>>(e, "shared<part>", {}, false, first, same)
			&& follow<atomic_shared<threaded<A>>>(e, "atomic_shared<threaded<part>>", {}, false, first, same)
			&& follow<global<A>>(e, "global<part>", {}, false, first, same)
			&& follow<type_allocator<char, A>>(e, "type_allocator<char,part>", {}, false, first, same)
			&& follow<cascading<A>>(e, "cascading<part>", {}, false, first, same)
			&& follow<fallback<A, B>>(e, "fallback<part,part>", {}, false, [](size_t, bool r) { return r ? 1 : 0; }, same)
			&& follow<fallback<A, fallback<B, C>>>(e, "fallback<part,fallback<part,part>>", {}, false, [](size_t, bool r) { return r ? 1 : 0; }, same)
			&& follow<segragator<0, N, M>>(e, "segragator<0>", { 0 }, false, seg(0), same)
			&& follow<segragator<16, N, M>>(e, "segragator<16>", { 16 }, false, seg(16), same)
			&& follow<segragator<300, N, M>>(e, "segragator<300>", { 300 }, false, seg(300), same)
			&& follow<segragator<70000, N, M>>(e, "segragator<70000>", { 70000 }, false, seg(70000), same)
			&& follow<segragator<G4, N, M>>(e, "segragator<2^32+8>", { G4 }, false, seg(G4), same)
			&& follow<segragator<TOP - 1, N, M>>(e, "segragator<2^64-2>", { TOP - 1 }, false, seg(TOP - 1), same)
			&& follow<segragator<16, N, segragator<G4, M, C>>>(e, "segragator<16,part,segragator<2^32+8,part,part>>", { 16, G4 }, false, [=](size_t n, bool r) { return n <= 16 ? r ? -1 : 0 : n <= G4 ? 1 : 2; }, same)
			&& follow<freelist<0, 16, A>>(e, "freelist<0,16>", { 16 }, true, [](size_t n, bool r) { return r || n == 0 || n > 16 ? -1 : 0; }, [](size_t) { return size_t(16); })
			&& follow<freelist<16, 300, A>>(e, "freelist<16,300>", { 16, 300 }, true, [](size_t n, bool r) { return r || n <= 16 || n > 300 ? -1 : 0; }, [](size_t) { return size_t(300); })
			&& follow<freelist<70000, G4, A>>(e, "freelist<70000,2^32+8>", { 70000, G4 }, true, [](size_t n, bool r) { return r || n <= 70000 || n > G4 ? -1 : 0; }, [](size_t) { return G4; })
			&& follow<freelist<G4, TOP, A>>(e, "freelist<2^32+8,2^64-1>", { G4 }, true, [](size_t n, bool r) { return r || n <= G4 ? -1 : 0; }, [](size_t) { return TOP; })
			&& follow<segragator<64, freelist<0, 64, A>, M>>(e, "segragator<64,freelist<0,64>,part>", { 64 }, true, [](size_t n, bool r) { return n > 64 ? 1 : r || n == 0 ? -1 : 0; }, [](size_t n) { return n > 64 ? n : size_t(64); }));
	}
}
