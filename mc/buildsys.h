// Allocators built from arguments, copied, moved, assigned, converted: what arrives in the parts they are composed of.
#pragma once
#include "allocsys.h"
#include <array>
#include <tuple>
#include <utility>

namespace mc::parts
{
	using Text = conf::Text;
	struct Journal
	{
		int live = 0;                 // parts that exist
		const void* at[64] = {};
		int passed = 0, armed = -1;   // points passed; the one that throws
		unsigned refuse = 0;          // parts that refuse
		int served = -1, value = 0;   // the last part that allocated, and its value
		const void* server = nullptr; // its address
		const void* returned = nullptr;
	};
	inline Journal& journal() { static Journal j; return j; }
	struct Refusal { int code; };
	inline void point()
	{
		Journal& j = journal();
		if (j.passed++ == j.armed) throw Refusal{ 42 };
	}
	struct Token // move-only
	{
		int v;
		explicit Token(int x) noexcept : v(x) {}
		Token(Token&& o) noexcept : v(o.v) { o.v = -1; }
		Token(const Token&) = delete;
	};
	enum { UNSET = 5, MOVED = -1, GONE = -7, EITHER = 1 << 20 }; // EITHER + v: v, or moved from
	inline bool agrees(int got, int want) { return got == want || (want >= EITHER && (got == MOVED || got == want - EITHER)); }

	// An allocator that knows the arguments it was built from
	template<int K, bool CALM = false>
	struct Part
	{
		int val;
		const void* block = nullptr;
		void enter()
		{
			Journal& j = journal();
			for (int i = 0; i < j.live; i++) if (j.at[i] == this) fail("two parts were constructed at the same place");
			if (j.live < 64) j.at[j.live++] = this;
		}
		Part() : val(UNSET) { point(); enter(); }
		explicit Part(int v) : val(v) { point(); enter(); }
		Part(int& lv, Token t) : val(lv * 10 + t.v) { point(); lv = 99; enter(); }
		Part(const Part& o) noexcept(CALM) : val(o.val) { if (!CALM) point(); enter(); }
		Part(Part&& o) noexcept(CALM) : val(o.val) { if (!CALM) point(); o.val = MOVED; enter(); }
		Part& operator=(const Part& o) noexcept(CALM) { val = o.val; return *this; }
		Part& operator=(Part&& o) noexcept(CALM) { int v = o.val; o.val = MOVED; val = v; return *this; }
		~Part()
		{
			Journal& j = journal();
			for (int i = 0; i < j.live; i++)
				if (j.at[i] == this)
				{
					j.at[i] = j.at[--j.live];
					val = GONE;
					return;
				}
			fail("a part was destroyed that does not exist");
		}
		void* allocate(size_t n)
		{
			Journal& j = journal();
			if (j.refuse >> K & 1) return nullptr;
			void* p = ::malloc(n ? n : 1);
			block = p;
			j.served = K;
			j.value = val;
			j.server = this;
			return p;
		}
		void deallocate(void* p, size_t)
		{
			if (p != block) fail("part %d was given back a block that is not its own", K);
			journal().returned = this;
			block = nullptr;
			::free(p);
		}
		bool owns(void* p) const { return p == block; }
		bool operator==(const Part& o) const noexcept { return val == o.val; }
		bool operator!=(const Part& o) const noexcept { return val != o.val; }
	};

	// What construction arguments are taken from
	template<bool CALM>
	struct Env
	{
		int lv;
		Token token;
		Part<0, CALM> a;
		Part<1, CALM> b;
		int base;
		explicit Env(int serial) : lv(3 + serial), token(4), a(50 + serial), b(60 + serial), base(serial) {}
	};
	struct Want { int val[3] = { UNSET, UNSET, UNSET }; bool lv = false, token = false, a = false, b = false; };

	// One part: the forms in which it can be built. make(args...) builds the object under test.
	struct One
	{
		static constexpr int parts = 1, forms = 6;
		static const char* name(int f) { static const char* s[] = { "()", "(int)", "(int lvalue, move-only)", "(const part)", "(rvalue part)", "(part)" }; return s[f]; }
		template<class E, class F> static Want build(int f, E& e, F make)
		{
			Want w;
			switch (f)
			{
			case 0: make(); break;
			case 1: make(7 + e.base); w.val[0] = 7 + e.base; break;
			case 2: w.val[0] = e.lv * 10 + e.token.v; w.lv = w.token = true; make(e.lv, std::move(e.token)); break;
			case 3: w.val[0] = e.a.val; make(std::as_const(e.a)); break;
			case 4: w.val[0] = e.a.val; w.a = true; make(std::move(e.a)); break;
			case 5: w.val[0] = e.a.val; make(e.a); break;
			}
			return w;
		}
	};
	struct Two
	{
		static constexpr int parts = 2, forms = 12;
		static const char* name(int f)
		{
			static const char* s[] = { "()", "(int)", "(int, int)", "(tuple(int))", "(tuple(int lvalue, move-only))", "(tuple(int), tuple(int lvalue, move-only))", "(tuple(int lvalue, move-only), tuple(int))",
				"(const part, rvalue part)", "(rvalue part)", "(tuple(), tuple(int))", "(tuple(), tuple())", "(rvalue part, part)" };
			return s[f];
		}
		template<class E, class F> static Want build(int f, E& e, F make)
		{
			Want w;
			int s = e.base;
			switch (f)
			{
			case 0: make(); break;
			case 1: make(7 + s); w.val[0] = 7 + s; break;
			case 2: make(7 + s, 8 + s); w.val[0] = 7 + s; w.val[1] = 8 + s; break;
			case 3: make(std::tuple<int>(7 + s)); w.val[0] = 7 + s; break;
			case 4: w.val[0] = e.lv * 10 + e.token.v; w.lv = w.token = true; make(std::tuple<int&, Token>(e.lv, std::move(e.token))); break;
			case 5: w.val[0] = 7 + s; w.val[1] = e.lv * 10 + e.token.v; w.lv = w.token = true; make(std::tuple<int>(7 + s), std::tuple<int&, Token&&>(e.lv, std::move(e.token))); break;
			case 6: w.val[1] = 7 + s; w.val[0] = e.lv * 10 + e.token.v; w.lv = w.token = true; make(std::tuple<int&, Token&&>(e.lv, std::move(e.token)), std::tuple<int>(7 + s)); break;
			case 7: w.val[0] = e.a.val; w.val[1] = e.b.val; w.b = true; make(std::as_const(e.a), std::move(e.b)); break;
			case 8: w.val[0] = e.a.val; w.a = true; make(std::move(e.a)); break;
			case 9: w.val[1] = 7 + s; make(std::tuple<>(), std::tuple<int>(7 + s)); break;
			case 10: make(std::tuple<>(), std::tuple<>()); break;
			case 11: w.val[0] = e.a.val; w.val[1] = e.b.val; w.a = true; make(std::move(e.a), e.b); break;
			}
			return w;
		}
	};
	// The first of the two parts is composed itself
	template<class Inner>
	struct LeftThree
	{
		static constexpr int parts = 3, forms = 4;
		static const char* name(int f) { static const char* s[] = { "()", "(rvalue composite, int)", "(tuple(int, int), tuple(int))", "(tuple(int lvalue -> 1st, int), tuple(int))" }; return s[f]; }
		template<class E, class F> static Want build(int f, E& e, F make)
		{
			Want w;
			int s = e.base;
			if (f) { w.val[0] = 7 + s; w.val[1] = 8 + s; w.val[2] = 9 + s; }
			switch (f)
			{
			case 0: make(); break;
			case 1: { Inner in(7 + s, 8 + s); make(std::move(in), 9 + s); break; }
			case 2: make(std::tuple<int, int>(7 + s, 8 + s), std::tuple<int>(9 + s)); break;
			case 3: { int x = 7 + s; make(std::tuple<int&, int>(x, 8 + s), std::tuple<int>(9 + s)); break; }
			}
			return w;
		}
	};
	template<class Inner>
	struct RightThree
	{
		static constexpr int parts = 3, forms = 4;
		static const char* name(int f) { static const char* s[] = { "()", "(int, rvalue composite)", "(tuple(int), tuple(int, int))", "(int)" }; return s[f]; }
		template<class E, class F> static Want build(int f, E& e, F make)
		{
			Want w;
			int s = e.base;
			if (f) { w.val[0] = 7 + s; w.val[1] = 8 + s; w.val[2] = 9 + s; }
			switch (f)
			{
			case 0: make(); break;
			case 1: { Inner in(8 + s, 9 + s); make(7 + s, std::move(in)); break; }
			case 2: make(std::tuple<int>(7 + s), std::tuple<int, int>(8 + s, 9 + s)); break;
			case 3: w.val[1] = w.val[2] = UNSET; make(7 + s); break;
			}
			return w;
		}
	};

	template<class A, class = void> struct HasGet : std::false_type {};
	template<class A> struct HasGet<A, std::void_t<decltype(std::declval<A&>().get_allocator())>> : std::true_type {};
	template<class A, class = void> struct HasStream : std::false_type {};
	template<class A> struct HasStream<A, std::void_t<decltype(std::declval<A&>().get_stream())>> : std::true_type {};
	template<class A, class = void> struct IsTyped : std::false_type {};
	template<class A> struct IsTyped<A, std::void_t<typename A::value_type>> : std::true_type {};

	struct Any { char c; template<class... X> Any(X&&...) noexcept : c(0) {} };
	enum Kind { PARTS, SHARES, TYPED }; // moving moves the parts; handles; typed: moving copies
	// Allocator, its forms, what it shares, whether the arguments follow a stream, whether it is asked by allocating
	template<class A, class Forms_, Kind KIND, bool STREAM = false, bool ASK = true, bool COPY = true, bool MOVE = true, bool ASSIGN = true, bool CALM = false>
	struct Made
	{
		using type = A;
		using Forms = Forms_;
		static constexpr Kind kind = KIND;
		static constexpr bool stream = STREAM, ask = ASK, copies = COPY, moves = MOVE, assigns = ASSIGN, calm = CALM;
	};

	template<class S, bool THROWS>
	class BuildSys : public System
	{
	public:
		using A = typename S::type;
		using Forms = typename S::Forms;
		enum { BUILD = 1, COPY, MOVE, COPY_ASSIGN, MOVE_ASSIGN, DESTROY, CONVERT, CONVERT_MOVE };
		static constexpr int SLOTS = 3, NONE = -1, EMPTY = -2;
		int slots;
		size_t sizes[3];
		Obj<Text> text;
		Obj<A> x[SLOTS];
		int group[SLOTS];                 // what the slot holds: an index into `vals`; EMPTY: a handle that was moved from
		std::vector<std::array<int, 3>> vals;
		BuildSys(int n, size_t s0, size_t s1, size_t s2) : slots(n), sizes{ s0, s1, s2 } { for (int& g : group) g = NONE; }
		void start() override
		{
			world().onReset = reset_pools;
			journal() = Journal();
			text.make();
		}
		void ops(std::vector<Op>& o) const override
		{
			auto add = [&](int c, int a, int b = 0, int d = -1) { Op q; q.c = int16_t(c); q.a = int16_t(a); q.b = int16_t(b); q.d = int16_t(d); o.push_back(q); };
			int arms = THROWS ? 2 * Forms::parts : 0;
			bool free = false;
			for (int i = 0; i < slots; i++)
			{
				if (group[i] == NONE)
				{
					if (free) continue; // empty slots are interchangeable
					free = true;
					for (int t = -1; t < arms; t++)
					{
						for (int f = 0; f < Forms::forms; f++) add(BUILD, i, f, t);
						for (int s = 0; s < slots; s++)
						{
							if (group[s] == NONE) continue;
							if (S::copies) add(COPY, s, i, t);
							if (S::moves) add(MOVE, s, i, t);
							if (IsTyped<A>::value && group[s] >= 0) { add(CONVERT, s, i, t); add(CONVERT_MOVE, s, i, t); }
						}
					}
					continue;
				}
				add(DESTROY, i);
				if (S::assigns)
					for (int s = 0; s < slots; s++)
					{
						if (group[s] == NONE) continue;
						if (S::copies) add(COPY_ASSIGN, s, i);
						if (S::moves && s != i) add(MOVE_ASSIGN, s, i);
					}
			}
		}
		std::string describe(const Op& o) const override
		{
			auto nm = [](int s) { return std::string(1, char('p' + s)); };
			std::string t = o.d >= 0 ? " [construction #" + std::to_string(o.d) + " of a part throws]" : "";
			switch (o.c)
			{
			case BUILD: return nm(o.a) + (S::stream ? "(stream, ...)" : "") + Forms::name(o.b) + t;
			case COPY: return nm(o.b) + "(" + nm(o.a) + ")" + t;
			case MOVE: return nm(o.b) + "(move(" + nm(o.a) + "))" + t;
			case COPY_ASSIGN: return nm(o.b) + " = " + nm(o.a);
			case MOVE_ASSIGN: return nm(o.b) + " = move(" + nm(o.a) + ")";
			case DESTROY: return "destroy " + nm(o.a);
			case CONVERT: return nm(o.b) + "(another type(" + nm(o.a) + "))" + t;
			default: return nm(o.b) + "(move(another type(move(" + nm(o.a) + "))))" + t;
			}
		}
		int fresh(const std::array<int, 3>& v) { vals.push_back(v); return int(vals.size()) - 1; }
		// the contents of slot s go to slot d
		void handed(int s, int d, bool moved)
		{
			int from = group[s];
			if (S::kind == SHARES || from == EMPTY)
			{
				if (moved && !IsTyped<A>::value) group[s] = EMPTY;
				group[d] = from;
				return;
			}
			if (s == d) return;
			auto v = vals[size_t(from)];
			if (group[d] >= 0) vals[size_t(group[d])] = v; else group[d] = fresh(v);
			if (moved && S::kind == PARTS) vals[size_t(from)] = { MOVED, MOVED, MOVED };
		}
		template<class F> void guarded(int arm, F fn)
		{
			Journal& j = journal();
			j.passed = 0;
			j.armed = arm;
			bool thrown = false, wrong = false;
			int before = j.live;
			try { fn(); }
			catch (const Refusal& r) { thrown = true; wrong = r.code != 42; }
			catch (...) { thrown = wrong = true; }
			j.armed = -1;
			if (failed()) return;
			if (wrong) fail("another exception arrived than was thrown");
			else if (thrown != (arm >= 0 && j.passed > arm)) fail(thrown ? "an exception came from nowhere" : "the exception did not arrive");
			else if (thrown && j.live != before) fail("%d parts exist after the exception, %d before", j.live, before);
		}
		void apply(const Op& o, bool) override
		{
			int s = o.a, d = o.b;
			switch (o.c)
			{
			case BUILD:
			{
				Env<S::calm> e(100 * (s + 1));
				Want w;
				bool made = false;
				guarded(o.d, [&]
				{
					x[s].make_with([&](void* m)
					{
						A* r = nullptr;
						w = Forms::build(o.b, e, [&](auto&&... args)
						{
							if constexpr (S::stream) r = ::new (m) A(*text, std::forward<decltype(args)>(args)...);
							else r = ::new (m) A(std::forward<decltype(args)>(args)...);
						});
						return r;
					});
					made = true;
				});
				if (!made || failed()) break;
				group[s] = fresh({ w.val[0], w.val[1], w.val[2] });
				int serial = 100 * (s + 1);
				if (w.lv ? e.lv != 99 : e.lv != 3 + serial) fail(w.lv ? "the part did not get a reference to the argument" : "an argument was changed");
				else if ((e.token.v == -1) != w.token) fail("the move-only argument was not handed on once");
				else if (e.a.val != (w.a ? int(MOVED) : 50 + serial) || e.b.val != (w.b ? int(MOVED) : 60 + serial)) fail("a part passed as an argument was %s", w.a || w.b ? "copied instead of moved" : "moved from");
				break;
			}
			case COPY: guarded(o.d, [&] { if constexpr (S::copies) { const A& src = *x[s]; x[d].make(src); } handed(s, d, false); }); break;
			case MOVE:
			{
				bool made = false;
				guarded(o.d, [&] { if constexpr (S::moves) x[d].make(std::move(*x[s])); handed(s, d, true); made = true; });
				// Some parts of the source may have been moved from before another part threw
				if (!made && S::kind == PARTS && group[s] >= 0)
					for (int& v : vals[size_t(group[s])]) if (v != MOVED && v < EITHER) v += EITHER;
				break;
			}
			case COPY_ASSIGN:
				if constexpr (S::copies && S::assigns) { const A& src = *x[s]; if (&(*x[d] = src) != &*x[d]) fail("assignment does not return the destination"); }
				handed(s, d, false);
				break;
			case MOVE_ASSIGN:
				if constexpr (S::moves && S::assigns) { if (&(*x[d] = std::move(*x[s])) != &*x[d]) fail("assignment does not return the destination"); }
				handed(s, d, true);
				break;
			case DESTROY:
				group[s] = NONE;
				x[s].destroy();
				break;
			case CONVERT:
			case CONVERT_MOVE:
				guarded(o.d, [&]
				{
					if constexpr (IsTyped<A>::value)
					{
						struct Wide { char c[48]; };
						using R = typename std::allocator_traits<A>::template rebind_alloc<Wide>;
						if (o.c == CONVERT) { const A& src = *x[s]; const R r(src); x[d].make(r); }
						else { R r(std::move(*x[s])); x[d].make(std::move(r)); }
					}
					handed(s, d, false); // converting always copies
				});
				break;
			}
		}
		template<class B> void* get(B& b, size_t n)
		{
			if constexpr (IsTyped<B>::value) return b.allocate(n / sizeof(typename B::value_type));
			else return b.allocate(n);
		}
		template<class B> void put(B& b, void* p, size_t n)
		{
			if constexpr (IsTyped<B>::value) b.deallocate(static_cast<typename B::value_type*>(p), n / sizeof(typename B::value_type));
			else b.deallocate(p, n);
		}
		// the accessors lead to the part that serves
		template<class B> void accessors(B& b)
		{
			const B& c = b;
			if constexpr (HasStream<B>::value) if (&b.get_stream() != &*text || &c.get_stream() != &*text) fail("get_stream() is not the stream that was given");
			if constexpr (HasGet<B>::value)
			{
				if (&b.get_allocator() != &c.get_allocator()) { fail("get_allocator() differs for const and non-const access"); return; }
				accessors(b.get_allocator());
			}
			else found = &b;
		}
		template<int K, bool C> void reached(Part<K, C>& p) { value = p.val; }
		template<class B> void reached(B&) { value = 0; direct = false; }
		template<class B> void innermost(B& b) { if constexpr (HasGet<B>::value) innermost(b.get_allocator()); else reached(b); }
		const void* found = nullptr;
		int value = 0;
		bool direct = true;
		void check() override
		{
			Journal& j = journal();
			int want = 0;
			for (int i = 0; i < slots; i++)
			{
				if (group[i] == NONE || group[i] == EMPTY) continue;
				bool first = true;
				for (int k = 0; k < i; k++) first = first && group[k] != group[i];
				if (first) want += Forms::parts;
				auto& v = vals[size_t(group[i])];
				A& a = *x[i];
				accessors(a);
				if (failed()) return;
				direct = true;
				innermost(a);
				if (direct && !agrees(value, v[0])) { fail("the part of %c holds %d instead of %d", 'p' + i, value, v[0]); return; }
				if constexpr (S::ask)
					for (int k = 0; k < Forms::parts; k++)
					{
						j.refuse = ~(1u << k);
						j.server = j.returned = nullptr;
						void* p = get(a, sizes[k]);
						j.refuse = 0;
						if (!p || j.served != k || !j.server) { fail("part %d of %c does not serve requests", k, 'p' + i); return; }
						if (direct && j.server != found) { fail("get_allocator() leads to another allocator than the one that serves"); return; }
						int got = j.value;
						put(a, p, sizes[k]);
						if (failed()) return;
						if (j.returned != j.server) { fail("the block was not given back to part %d", k); return; }
						if (!agrees(got, v[size_t(k)])) { fail("part %d of %c was built from %d instead of %d", k, 'p' + i, got, v[size_t(k)]); return; }
					}
			}
			if (j.live != want) { fail("%d parts exist, expected %d", j.live, want); return; }
			if (text->n) fail("a report was written although everything is balanced: %s", text->s);
		}
		void key(Hash& h) override
		{
			for (int i = 0; i < slots; i++)
			{
				h.word(uint64_t(group[i] < 0 ? group[i] : 0));
				for (int k = 0; k < i; k++) h.word(group[k] == group[i]);
				if (group[i] >= 0) for (int v : vals[size_t(group[i])]) h.word(uint64_t(int64_t(v)));
			}
			world().key(h);
		}
		void finish() override
		{
			for (int i = 0; i < slots; i++) if (group[i] != NONE && !failed()) x[i].destroy();
			if (failed()) return;
			if (journal().live) fail("%d parts remain", journal().live);
			else if (world().sys_live()) fail("%zu system blocks remain", world().sys_live());
			else if (text->n) fail("a report was written although everything is balanced: %s", text->s);
		}
	};

	template<bool Mine, class S, bool THROWS = false>
	void built(const char* name, size_t s0 = 16, size_t s1 = 16, size_t s2 = 16)
	{
		if constexpr (Mine)
		{
			Bounds b;
			b.dfs = thorough() ? 3 : 2;
			b.depth = thorough() ? 12 : 6;
			b.maxStates = thorough() ? 200000 : THROWS ? 3000 : 6000;
			int slots = THROWS && !thorough() ? 2 : 3;
			add(name, b, [=]() -> System* { return new BuildSys<S, THROWS>(slots, s0, s1, s2); });
		}
	}

	using P0 = Part<0>;
	using P1 = Part<1>;
	using P2 = Part<2>;
	using FB = ktl::fallback<P0, P1>;
	using SG = ktl::segragator<16, P0, P1>;
	template<class A, class F, bool ASK = true> using Free = Made<A, F, PARTS, false, ASK, false, true, true>;
	template<class A, class F, bool STREAM = false, bool ASK = true> using Fixed = Made<A, F, PARTS, STREAM, ASK, false, false, false>;
	template<class A, class F, bool ASK = true> using Over = Made<A, F, PARTS, true, ASK, true, true, false>;
	template<class A, class F, bool STREAM = false, bool ASK = true> using Handle = Made<A, F, SHARES, STREAM, ASK>;
	template<class A, class F, bool STREAM = false> using Typed = Made<A, F, TYPED, STREAM, true, true, true, true, true>;
	using Q0 = Part<0, true>;
	using QF = ktl::fallback<Part<0, true>, Part<1, true>>;
}
#define BUILT_SUITES(THROWS) \
	using namespace mc::parts; \
	built<MC_MINE, Free<ktl::freelist<0, 16, P0>, One, false>, THROWS>("freelist<0,16,part>" SUFFIX); \
	built<MC_MINE, Fixed<ktl::threaded<P0>, One>, THROWS>("threaded<part>" SUFFIX); \
	built<MC_MINE, Over<ktl::overflow<P0, Text>, One>, THROWS>("overflow<part>" SUFFIX); \
	built<MC_MINE, Handle<ktl::shared<P0>, One>, THROWS>("shared<part>" SUFFIX); \
	built<MC_MINE, Handle<ktl::atomic_shared<P0>, One>, THROWS>("atomic_shared<part>" SUFFIX); \
	built<MC_MINE, Typed<ktl::type_allocator<double, Q0>, One>, THROWS>("type_allocator<double,part>" SUFFIX); \
	built<MC_MINE, Typed<ktl::type_allocator<Any, Q0>, One>, THROWS>("type_allocator<type built from anything,part>" SUFFIX); \
	built<MC_MINE, Made<FB, Two, PARTS>, THROWS>("fallback<part,part>" SUFFIX); \
	built<MC_MINE, Made<SG, Two, PARTS>, THROWS>("segragator<16,part,part>" SUFFIX, 16, 17); \
	built<MC_MINE, Made<ktl::fallback<FB, P2>, LeftThree<FB>, PARTS>, THROWS>("fallback<fallback<part,part>,part>" SUFFIX); \
	built<MC_MINE, Made<ktl::fallback<P0, ktl::fallback<P1, P2>>, RightThree<ktl::fallback<P1, P2>>, PARTS>, THROWS>("fallback<part,fallback<part,part>>" SUFFIX); \
	built<MC_MINE, Made<ktl::segragator<16, FB, P2>, LeftThree<FB>, PARTS>, THROWS>("segragator<16,fallback<part,part>,part>" SUFFIX, 16, 16, 17); \
	built<MC_MINE, Made<ktl::segragator<16, P0, ktl::segragator<32, P1, P2>>, RightThree<ktl::segragator<32, P1, P2>>, PARTS>, THROWS>("segragator<16,part,segragator<32,part,part>>" SUFFIX, 16, 32, 48); \
	built<MC_MINE, Made<ktl::fallback_builder_min<P0, P1, P2>, LeftThree<FB>, PARTS>, THROWS>("fallback_builder_min<part,part,part>" SUFFIX); \
	built<MC_MINE, Made<ktl::fallback_builder_max<P0, P1, P2>, RightThree<ktl::fallback<P1, P2>>, PARTS>, THROWS>("fallback_builder_max<part,part,part>" SUFFIX); \
	built<MC_MINE, Handle<ktl::shared<FB>, Two>, THROWS>("shared<fallback<part,part>>" SUFFIX); \
	built<MC_MINE, Fixed<ktl::threaded<SG>, Two>, THROWS>("threaded<segragator<16,part,part>>" SUFFIX, 16, 17); \
	built<MC_MINE, Typed<ktl::type_allocator<char, QF>, Two>, THROWS>("type_allocator<char,fallback<part,part>>" SUFFIX); \
	built<MC_MINE, Over<ktl::overflow<FB, Text>, Two>, THROWS>("overflow<fallback<part,part>>" SUFFIX); \
	built<MC_MINE, Free<ktl::freelist<0, 64, FB>, Two, false>, THROWS>("freelist<0,64,fallback<part,part>>" SUFFIX); \
	built<MC_MINE, Handle<ktl::shared<ktl::threaded<P0>>, One>, THROWS>("shared<threaded<part>>" SUFFIX); \
	built<MC_MINE, Handle<ktl::atomic_shared<ktl::threaded<ktl::freelist<0, 16, P0>>>, One, false, false>, THROWS>("atomic_shared<threaded<freelist<0,16,part>>>" SUFFIX); \
	built<MC_MINE, Handle<ktl::shared<ktl::overflow<P0, Text>>, One, true>, THROWS>("shared<overflow<part>>" SUFFIX); \
	built<MC_MINE, Fixed<ktl::threaded<ktl::overflow<P0, Text>>, One, true>, THROWS>("threaded<overflow<part>>" SUFFIX); \
	built<MC_MINE, Made<ktl::freelist<0, 64, ktl::overflow<P0, Text>>, One, PARTS, true, false, false, true, false>, THROWS>("freelist<0,64,overflow<part>>" SUFFIX); \
	built<MC_MINE, Handle<ktl::type_allocator<long, ktl::shared<P0>>, One>, THROWS>("type_allocator<long,shared<part>>" SUFFIX); \
	built<MC_MINE, Handle<ktl::type_allocator<long, ktl::shared<ktl::overflow<FB, Text>>>, Two, true>, THROWS>("type_allocator<long,shared<overflow<fallback<part,part>>>>" SUFFIX);
