// PARTS: 8
// packed_ptr: every sequence of updates, for every alignment and many bit counts
#include "mc.h"
#include <ktl/ktl.h>
#include <ktl/containers/packed_ptr.h>
using namespace mc;

struct Update { int what; uint64_t v; int width; }; // what: 0 set_ptr, 1 set_int

template<class P> static P asPtr(uint64_t v) { return reinterpret_cast<P>(uintptr_t(v)); }

template<class PP, class P, unsigned Bits>
struct Run
{
	static uint64_t lowBits(uint64_t v) { return Bits >= 64 ? v : v & ((uint64_t(1) << Bits) - 1); }
	static void put(PP& p, const Update& u)
	{
		if (u.what == 0) p.set_ptr(asPtr<P>(u.v));
		else switch (u.width)
		{
		case 8: p.set_int(uint8_t(u.v)); break;
		case 16: p.set_int(uint16_t(u.v)); break;
		case 32: p.set_int(uint32_t(u.v)); break;
		default: p.set_int(uint64_t(u.v)); break;
		}
	}
	// the value an integer of that width carries
	static uint64_t carried(const Update& u) { return u.width == 64 ? u.v : u.v & ((uint64_t(1) << u.width) - 1); }
	static bool right(const PP& p, uint64_t ptr, uint64_t num, std::string& why)
	{
		char t[200];
		if (p.get_ptr() != asPtr<P>(ptr)) { snprintf(t, sizeof t, "get_ptr() is %#lx instead of %#lx", (unsigned long)reinterpret_cast<uintptr_t>(p.get_ptr()), (unsigned long)ptr); why = t; return false; }
		uint64_t n = lowBits(num);
		uint64_t g8 = p.template get_int<uint8_t>(), g16 = p.template get_int<uint16_t>(), g32 = p.template get_int<uint32_t>(), g64 = p.template get_int<uint64_t>();
		if (g8 != uint8_t(n) || g16 != uint16_t(n) || g32 != uint32_t(n) || g64 != n) { snprintf(t, sizeof t, "get_int() is %#lx instead of %#lx", (unsigned long)g64, (unsigned long)n); why = t; return false; }
		return true;
	}
	static std::string text(const Update& u)
	{
		char t[80];
		if (u.what == 0) snprintf(t, sizeof t, "set_ptr(%#lx)", (unsigned long)u.v); else snprintf(t, sizeof t, "set_int<%d bits>(%#lx)", u.width, (unsigned long)u.v);
		return t;
	}
	static void all(Cases& e, const char* name, uint64_t align)
	{
		std::vector<Update> ups;
		std::set<uint64_t> ptrs;
		uint64_t m = ~(align - 1);
		for (uint64_t p : { uint64_t(0), align, m, uint64_t(0x5555555555555555) & m, uint64_t(0xAAAAAAAAAAAAAAAA) & m, uint64_t(0x00007FFF12345678) & m }) ptrs.insert(p);
		for (uint64_t p : ptrs) ups.push_back(Update{ 0, p, 0 });
		for (int w : { 8, 16, 32, 64 })
		{
			std::set<uint64_t> vals;
			uint64_t mask = w == 64 ? ~uint64_t(0) : (uint64_t(1) << w) - 1;
			uint64_t top = Bits ? uint64_t(1) << (Bits - 1) : 0, over = Bits < 64 ? uint64_t(1) << Bits : 0;
			for (uint64_t v : { uint64_t(0), uint64_t(1), top, over, top | 1, ~uint64_t(0), uint64_t(0xA5C396E15A3C691E) }) vals.insert(v & mask);
			for (uint64_t v : vals) ups.push_back(Update{ 1, v, w });
		}
		size_t depth = thorough() ? 3 : 2;
		for (int ctor = 0; ctor < 3; ctor++)
			for (size_t first = 0; first < ups.size(); first++)
			{
				if (!e.next("%s, %s, first %s", name, ctor == 0 ? "default constructed" : ctor == 1 ? "constructed with a pointer and an integer" : "copied and assigned", text(ups[first]).c_str())) continue;
				std::vector<size_t> ix;
				std::vector<Update> seq;
				// all sequences starting with `first`, up to 1 + depth updates, each built anew
				std::function<bool(size_t)> go = [&](size_t left) -> bool
				{
					// play
					{
						uint64_t ptr = 0, num = 0;
						PP p;
						std::string why;
						if (ctor == 1) { ptr = m; num = 0xA5C396E15A3C691E; p = PP(asPtr<P>(ptr), uint64_t(num)); }
						if (!right(p, ptr, num, why)) { fail("after construction: %s", why.c_str()); return false; }
						for (auto& u : seq)
						{
							if (ctor == 2) { PP q(p); put(q, u); if (!right(p, ptr, num, why)) { fail("changing a copy changed the original: %s", why.c_str()); return false; } p = q; }
							else put(p, u);
							if (u.what == 0) ptr = u.v; else num = carried(u);
							if (!right(p, ptr, num, why))
							{
								std::string s;
								for (auto& x : seq) s += text(x) + "; ";
								fail("after %s%s", s.c_str(), why.c_str());
								return false;
							}
						}
						e.step();
						sh()->histories++;
					}
					if (!left) return true;
					for (auto& u : ups) { seq.push_back(u); bool ok = go(left - 1); seq.pop_back(); if (!ok) return false; }
					return true;
				};
				seq.push_back(ups[first]);
				go(depth);
				// the constructor itself, with every combination of pointer and integer
				if (first == 0)
					for (uint64_t p : ptrs)
						for (auto& u : ups)
						{
							if (u.what == 0) continue;
							std::string why;
							auto test = [&](auto v) { PP x(asPtr<P>(p), v); if (!right(x, p, uint64_t(v), why)) fail("constructed with %#lx and %s: %s", (unsigned long)p, text(u).c_str(), why.c_str()); };
							if (u.width == 8) test(uint8_t(u.v)); else if (u.width == 16) test(uint16_t(u.v)); else if (u.width == 32) test(uint32_t(u.v)); else test(uint64_t(u.v));
							e.step();
						}
				if (!e.ok()) return;
			}
	}
};

template<class P, unsigned Bits, uint64_t Align>
static void one(const char* type)
{
	{
		static char name[120];
		snprintf(name, sizeof name, "packed_ptr<%s, %u bits, alignment 2^%d>", type, Bits, __builtin_ctzll(Align));
		add_cases(name, [](Cases& e) { Run<ktl::packed_ptr<P, Bits, Align>, P, Bits>::all(e, "", Align); });
	}
}
template<unsigned K>
static void alignment()
{
	if constexpr (K % MC_PARTS == MC_PART)
	{
		constexpr uint64_t A = uint64_t(1) << K;
		one<int*, K, A>("int*");
		if constexpr (K >= 1) one<int*, K - 1, A>("int*");
		if constexpr (K >= 2) one<const void*, 1, A>("const void*");
		if constexpr (K >= 3) one<char**, K / 2, A>("char**");
		if constexpr (K >= 4) one<double*, 0, A>("double*");
	}
}
template<unsigned... K> static void alignments(std::integer_sequence<unsigned, K...>) { (alignment<K>(), ...); }
struct alignas(16) Sixteen { char c[16]; };

MC_SUITES
{
	alignments(std::make_integer_sequence<unsigned, 64>());
	if constexpr (MC_PART == 0)
	{
		add_cases("packed_ptr<double*, 3>, alignment of the type", [](Cases& e) { Run<ktl::packed_ptr<double*, 3>, double*, 3>::all(e, "", 8); });
		add_cases("packed_ptr<const Sixteen*, 4>, alignment of the type", [](Cases& e) { Run<ktl::packed_ptr<const Sixteen*, 4>, const Sixteen*, 4>::all(e, "", 16); });
		add_cases("packed_ptr<short*, 1>, alignment of the type", [](Cases& e) { Run<ktl::packed_ptr<short*, 1>, short*, 1>::all(e, "", 2); });
		add_cases("packed_ptr<char*, 0>, alignment of the type", [](Cases& e) { Run<ktl::packed_ptr<char*, 0>, char*, 0>::all(e, "", 1); });
	}
}
