// PARTS: 6
// Building, copying and moving composites of parts whose constructors throw; comparing parts whose comparison throws
#include "buildsys.h"
#define SUFFIX ", parts built with exceptions"
namespace
{
	using Text = conf::Text;
	using mc::Cases;
	// One of the two comparisons may throw
	template<bool EqCalm, bool NeCalm>
	struct Moody
	{
		static inline bool armed = false;
		Moody() noexcept {}
		void* allocate(size_t) { return nullptr; }
		void deallocate(void*, size_t) {}
		bool owns(void*) const { return false; }
		bool operator==(const Moody&) const noexcept(EqCalm) { if constexpr (!EqCalm) if (armed) throw mc::parts::Refusal{ 1 }; return true; }
		bool operator!=(const Moody&) const noexcept(NeCalm) { if constexpr (!NeCalm) if (armed) throw mc::parts::Refusal{ 2 }; return false; }
	};
	template<class M, class F> void compare(mc::Cases& e, const char* mood, const char* name, F with)
	{
		for (int op = 0; op < 2; op++)
		{
			if (!e.next("%s of parts whose %s: %s", name, mood, op ? "a != b" : "a == b")) continue;
			with([&](const auto& a, const auto& b)
			{
				bool r = op != 0, thrown = false;
				M::armed = true;
				try { r = op ? a != b : a == b; }
				catch (const mc::parts::Refusal&) { thrown = true; }
				M::armed = false;
				e.step();
				if (!thrown && r != (op == 0)) mc::fail("equal allocators compared unequal");
				try { r = op ? a != b : a == b; } catch (...) { mc::fail("an exception was thrown twice"); } // locks are free again
			});
			if (!e.ok()) return;
		}
	}
	template<class M> void compare_all(mc::Cases& e, const char* mood)
	{
		using namespace ktl;
		using O = overflow<M, Text>;
		compare<M>(e, mood, "fallback", [](auto use) { fallback<M, M> a, b; use(a, b); });
		compare<M>(e, mood, "segragator", [](auto use) { segragator<16, M, M> a, b; use(a, b); });
		compare<M>(e, mood, "freelist", [](auto use) { freelist<0, 16, M> a, b; use(a, b); });
		compare<M>(e, mood, "threaded", [](auto use) { threaded<M> a, b; use(a, b); });
		compare<M>(e, mood, "overflow", [](auto use) { Text t; O a(t), b(t); use(a, b); });
		compare<M>(e, mood, "reference", [](auto use) { M one; reference<M> a(one), b(one); use(a, b); });
		compare<M>(e, mood, "shared", [](auto use) { shared<M> a, b(a); use(a, b); });
		compare<M>(e, mood, "atomic_shared<threaded>", [](auto use) { atomic_shared<threaded<M>> a, b(a); use(a, b); });
		compare<M>(e, mood, "type_allocator", [](auto use) { type_allocator<int, M> a, b; use(a, b); });
		compare<M>(e, mood, "type_allocator<shared<fallback>>", [](auto use) { type_allocator<int, shared<fallback<M, M>>> a, b(a); use(a, b); });
		compare<M>(e, mood, "freelist<overflow>", [](auto use) { Text t; freelist<0, 16, O> a(t), b(t); use(a, b); });
	}
}
MC_SUITES
{
	BUILT_SUITES(true)
	if constexpr (MC_MINE)
		mc::add_cases("comparisons that throw", [](mc::Cases& e)
		{
			compare_all<Moody<true, false>>(e, "inequality throws");
			compare_all<Moody<false, true>>(e, "equality throws");
			compare_all<Moody<false, false>>(e, "comparisons throw");
		});
}
