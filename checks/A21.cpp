// PARTS: 6
// Construction arguments, copies, moves and accessors reach the parts of every composition
#include "buildsys.h"
#define SUFFIX ""
namespace
{
	using namespace mc;
	using mc::parts::Part;
	using mc::parts::journal;

	// Handles to allocators that exist independently of them: references to one of two, or the static one
	template<class H>
	class ViewSys : public System
	{
	public:
		template<class X> struct Is { static constexpr bool global = false, typed = false; };
		template<class X> struct Is<ktl::global<X>> { static constexpr bool global = true, typed = false; };
		template<class T, class X> struct Is<ktl::type_allocator<T, X>> { static constexpr bool global = Is<X>::global, typed = true; };
		static constexpr bool GLOBAL = Is<H>::global, TYPED = Is<H>::typed;
		template<class X> struct Target;
		template<class X> struct Target<ktl::global<X>> { using type = X; };
		template<class X> struct Target<ktl::reference<X>> { using type = X; };
		template<class T, class X> struct Target<ktl::type_allocator<T, X>> { using type = typename Target<X>::type; };
		using T = typename Target<H>::type;
		using G = ktl::global<T>;
		enum { BUILD = 1, COPY, MOVE, COPY_ASSIGN, MOVE_ASSIGN, DESTROY, SET, WRITE, CONVERT };
		static constexpr int SLOTS = 3, NONE = -1;
		Obj<T> t[2];
		Obj<H> h[SLOTS];
		int to[SLOTS], val[2] = { 30, 31 };
		ViewSys() { for (int& x : to) x = NONE; }
		void start() override
		{
			world().onReset = reset_pools;
			if constexpr (GLOBAL) { journal() = mc::parts::Journal(); rebuild(30); }
			else
			{
				journal() = mc::parts::Journal();
				for (int i = 0; i < 2; i++) t[i].make(30 + i);
			}
		}
		void rebuild(int v)
		{
			G g;
			T& s = g.get_allocator();
			journal().at[journal().live++] = &s; // it exists since the program was started
			s.~T();
			::new (static_cast<void*>(&s)) T(v);
			world().extra.emplace_back(reinterpret_cast<const char*>(&s), sizeof s);
		}
		void ops(std::vector<Op>& o) const override
		{
			auto add = [&](int c, int a, int b = 0) { Op q; q.c = int16_t(c); q.a = int16_t(a); q.b = int16_t(b); o.push_back(q); };
			bool free = false;
			for (int i = 0; i < SLOTS; i++)
			{
				if (to[i] == NONE)
				{
					if (free) continue;
					free = true;
					for (int k = 0; k < (GLOBAL ? 1 : 2); k++) add(BUILD, i, k);
					for (int s = 0; s < SLOTS; s++)
						if (to[s] != NONE) { add(COPY, s, i); add(MOVE, s, i); if (TYPED) add(CONVERT, s, i); }
					continue;
				}
				add(DESTROY, i);
				add(WRITE, i);
				if (GLOBAL && !TYPED) add(SET, i);
				for (int s = 0; s < SLOTS; s++)
					if (to[s] != NONE) { add(COPY_ASSIGN, s, i); if (s != i) add(MOVE_ASSIGN, s, i); }
			}
		}
		std::string describe(const Op& o) const override
		{
			auto nm = [](int s) { return std::string(1, char('p' + s)); };
			switch (o.c)
			{
			case BUILD: return nm(o.a) + (GLOBAL ? "()" : o.b ? "(second)" : "(first)");
			case COPY: return nm(o.b) + "(" + nm(o.a) + ")";
			case MOVE: return nm(o.b) + "(move(" + nm(o.a) + "))";
			case CONVERT: return nm(o.b) + "(another type(" + nm(o.a) + "))";
			case COPY_ASSIGN: return nm(o.b) + " = " + nm(o.a);
			case MOVE_ASSIGN: return nm(o.b) + " = move(" + nm(o.a) + ")";
			case DESTROY: return "destroy " + nm(o.a);
			case SET: return nm(o.a) + ".set_allocator(...)";
			default: return nm(o.a) + ".get_allocator() is changed";
			}
		}
		int turn = 0;
		static constexpr T& target(H& x) { if constexpr (TYPED) return x.get_allocator().get_allocator(); else return x.get_allocator(); }
		static constexpr const T& target(const H& x) { if constexpr (TYPED) return x.get_allocator().get_allocator(); else return x.get_allocator(); }
		void apply(const Op& o, bool) override
		{
			int s = o.a, d = o.b;
			switch (o.c)
			{
			case BUILD:
				if constexpr (GLOBAL) h[s].make();
				else h[s].make(*t[d]);
				to[s] = d;
				break;
			case COPY: { const H& x = *h[s]; h[d].make(x); to[d] = to[s]; break; }
			case MOVE: h[d].make(std::move(*h[s])); to[d] = to[s]; break;
			case COPY_ASSIGN: { const H& x = *h[s]; if (&(*h[d] = x) != &*h[d]) fail("assignment does not return the destination"); to[d] = to[s]; break; }
			case MOVE_ASSIGN: if (&(*h[d] = std::move(*h[s])) != &*h[d]) fail("assignment does not return the destination"); to[d] = to[s]; break;
			case DESTROY: h[s].destroy(); to[s] = NONE; break;
			case SET:
				if constexpr (GLOBAL && !TYPED)
				{
					T v(40 + turn % 2);
					h[s]->set_allocator(std::move(v));
					if (v.val != mc::parts::MOVED) fail("set_allocator() did not move from its argument");
					val[0] = 40 + turn++ % 2;
				}
				break;
			case WRITE:
				target(*h[s]).val = 50 + turn % 2;
				val[to[s]] = 50 + turn++ % 2;
				break;
			case CONVERT:
				if constexpr (TYPED)
				{
					struct Wide { char c[48]; };
					typename std::allocator_traits<H>::template rebind_alloc<Wide> w(std::as_const(*h[s]));
					h[d].make(std::move(w));
					to[d] = to[s];
				}
				break;
			}
		}
		void check() override
		{
			auto& j = journal();
			for (int i = 0; i < SLOTS; i++)
			{
				if (to[i] == NONE) continue;
				H& x = *h[i];
				const T* want;
				if constexpr (GLOBAL) want = &G().get_allocator();
				else want = &*t[to[i]];
				if (&target(x) != want || &target(std::as_const(x)) != want) { fail("get_allocator() of %c is not the allocator it refers to", 'p' + i); return; }
				j.server = j.returned = nullptr;
				auto* p = x.allocate(16);
				if (!p) { fail("%c does not serve requests", 'p' + i); return; }
				if (j.server != want) { fail("%c was served by another allocator than the one it refers to", 'p' + i); return; }
				if (!x.owns(p)) { fail("%c does not own its own block", 'p' + i); return; }
				int v = j.value;
				x.deallocate(p, 16);
				if (failed()) return;
				if (j.returned != want) { fail("the block was given back to another allocator"); return; }
				if (v != val[to[i]]) { fail("the allocator %c refers to was built from %d instead of %d", 'p' + i, v, val[to[i]]); return; }
			}
			int exist = GLOBAL ? 1 : 2;
			if (j.live != exist) fail("%d parts exist, expected %d", j.live, exist);
		}
		void key(Hash& q) override
		{
			for (int x : to) q.word(uint64_t(int64_t(x)));
			for (int v : val) q.word(uint64_t(v));
			q.word(uint64_t(turn % 2));
			world().key(q);
		}
		void finish() override
		{
			for (int i = 0; i < SLOTS; i++) if (to[i] != NONE && !failed()) h[i].destroy();
			if constexpr (!GLOBAL) for (int i = 0; i < 2; i++) if (!failed()) t[i].destroy();
			if (!failed() && journal().live != (GLOBAL ? 1 : 0)) fail("%d parts remain", journal().live);
		}
	};
	template<bool Mine, class H> void views(const char* name)
	{
		if constexpr (Mine)
		{
			Bounds b;
			b.dfs = 3;
			b.depth = thorough() ? 20 : 12;
			b.maxStates = thorough() ? 200000 : 6000;
			add(name, b, []() -> System* { return new ViewSys<H>(); });
		}
	}
}
MC_SUITES
{
	BUILT_SUITES(false)
	using Q1 = Part<1, true>;
	built<MC_MINE, Made<ktl::freelist<0, 16, Q0>, One, PARTS, false, false, false, true, true, true>>("freelist<0,16,calm part>");
	built<MC_MINE, Made<ktl::threaded<Q0>, One, PARTS, false, true, false, false, false, true>>("threaded<calm part>");
	built<MC_MINE, Made<ktl::overflow<Q0, Text>, One, PARTS, true, true, true, true, false, true>>("overflow<calm part>");
	built<MC_MINE, Made<ktl::shared<Q0>, One, SHARES, false, true, true, true, true, true>>("shared<calm part>");
	built<MC_MINE, Made<ktl::atomic_shared<Q0>, One, SHARES, false, true, true, true, true, true>>("atomic_shared<calm part>");
	built<MC_MINE, Made<ktl::fallback<Q0, Q1>, Two, PARTS, false, true, true, true, true, true>>("fallback<calm part,calm part>");
	built<MC_MINE, Made<ktl::segragator<16, Q0, Q1>, Two, PARTS, false, true, true, true, true, true>>("segragator<16,calm part,calm part>", 16, 17);
	views<MC_MINE, ktl::reference<Part<0>>>("reference<part>");
	views<MC_MINE, ktl::reference<Part<0, true>>>("reference<part that promises not to throw>");
	views<MC_MINE, ktl::global<Part<0>>>("global<part>");
	views<MC_MINE, ktl::global<Part<0, true>>>("global<part that promises not to throw>");
	views<MC_MINE, ktl::type_allocator<double, ktl::reference<Part<0>>>>("type_allocator<double,reference<part>>");
	views<MC_MINE, ktl::type_allocator<double, ktl::global<Part<0>>>>("type_allocator<double,global<part>>");
}
