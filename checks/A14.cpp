// PARTS: 8
// Objects constructed and destroyed through allocators whose parts do or do not customise construction.
#include "allocsys.h"
using namespace mc;
using namespace conf;

// ---- objects that record how they were constructed ---------------------------------------------------------------
struct Events { int built = 0, dead = 0; const void* at = nullptr; int how = 0; };
inline Events ev;
inline void built(const void* p, int how) { ev.built++; ev.at = p; ev.how = how; }
inline void dead(const void* p) { ev.dead++; ev.at = p; }
enum { DEFAULT = 1, VALUE, TWO, COPY, MOVE };
struct Token // move-only
{
	int v;
	explicit Token(int x) : v(x) {}
	Token(Token&& o) noexcept : v(o.v) { o.v = -1; }
	Token(const Token&) = delete;
};
struct alignas(8) Thing
{
	int a = 0, b = 0;
	Thing() { built(this, DEFAULT); }
	explicit Thing(int x) : a(x) { built(this, VALUE); }
	Thing(int& x, Token t) : a(x), b(t.v) { x = 99; built(this, TWO); }
	Thing(const Thing& o) : a(o.a), b(o.b) { built(this, COPY); }
	Thing(Thing&& o) noexcept : a(o.a), b(o.b) { o.a = o.b = -1; built(this, MOVE); }
	~Thing() { dead(this); a = b = 0; }
};
enum { KINDS = 6 };
static const char* const kindName[KINDS] = { "()", "(7)", "(int lvalue, move-only)", "(lvalue)", "(const lvalue)", "(rvalue)" };

// Direct: through the allocator. Traits: through allocator_traits of a typed allocator that refers to it.
struct Direct
{
	static constexpr const char* name = "";
	template<class A, class... X> static void construct(A& a, Thing* p, X&&... x) { a.construct(p, std::forward<X>(x)...); }
	template<class A> static void destroy(A& a, Thing* p) { a.destroy(p); }
};
struct Typed
{
	static constexpr const char* name = ", typed reference";
	template<class A> using T = ktl::type_allocator<Thing, ktl::reference<A>>;
	template<class A, class... X> static void construct(A& a, Thing* p, X&&... x) { T<A> t(a); t.construct(p, std::forward<X>(x)...); }
	template<class A> static void destroy(A& a, Thing* p) { T<A> t(a); t.destroy(p); }
};
struct Traits
{
	static constexpr const char* name = ", allocator_traits";
	template<class A> using T = ktl::type_allocator<Thing, ktl::reference<A>>;
	template<class A, class... X> static void construct(A& a, Thing* p, X&&... x) { T<A> t(a); std::allocator_traits<T<A>>::construct(t, p, std::forward<X>(x)...); }
	template<class A> static void destroy(A& a, Thing* p) { T<A> t(a); std::allocator_traits<T<A>>::destroy(t, p); }
};

// Spec: type, make(mem, ids, text), pools, sizes
template<class Spec, class How, bool Ctor, bool Dtor>
class ConsSys : public System
{
public:
	using A = typename Spec::type;
	enum { ALLOC = 1, FREE, CONSTRUCT, DESTROY };
	struct B { char* p; size_t n; bool has[2]; };
	size_t maxLive;
	Obj<Text> text;
	Obj<A> a;
	std::vector<int> ids;
	std::vector<B> live;
	std::vector<size_t> sizes = Spec::sizes();
	explicit ConsSys(size_t ml) : maxLive(ml) {}
	void start() override
	{
		world().onReset = reset_pools;
		pools().strict = true;
		Spec::setup();
		for (int i = 0; i < Spec::pools; i++) ids.push_back(new_pool(1024, Spec::blocks(i), 256));
		text.make();
		a.make_with([this](void* m) { return Spec::make(m, ids, *text); });
	}
	void ops(std::vector<Op>& o) const override
	{
		Op q;
		if (live.size() < maxLive) for (size_t i = 0; i < sizes.size(); i++) { q.c = ALLOC; q.a = int16_t(i); o.push_back(q); }
		for (size_t i = 0; i < live.size(); i++)
		{
			q = Op();
			q.a = int16_t(i);
			if (!live[i].has[0] && !live[i].has[1]) { q.c = FREE; o.push_back(q); }
			for (int k = 0; k < 2; k++)
			{
				if (sizeof(Thing) + 16 * size_t(k) > live[i].n) continue;
				q.b = int16_t(k);
				if (live[i].has[k]) { q.c = DESTROY; q.d = 0; o.push_back(q); }
				else for (int d = 0; d < KINDS; d++) { q.c = CONSTRUCT; q.d = int16_t(d); o.push_back(q); }
			}
		}
	}
	std::string describe(const Op& o) const override
	{
		switch (o.c)
		{
		case ALLOC: return "allocate(" + std::to_string(sizes[size_t(o.a)]) + ")";
		case FREE: return "deallocate(block #" + std::to_string(o.a) + ")";
		case CONSTRUCT: return std::string("construct") + kindName[o.d] + " at byte " + std::to_string(16 * o.b) + " of block #" + std::to_string(o.a);
		default: return "destroy the object at byte " + std::to_string(16 * o.b) + " of block #" + std::to_string(o.a);
		}
	}
	int poolAt(const void* p)
	{
		for (int i = 0; i < pools().used; i++) if (pools().p[i].area && pools().p[i].area->contains(p)) return i;
		return -1;
	}
	void hooked(const void* p, int flag, bool ctor)
	{
		int id = poolAt(p);
		int want = id >= 0 && (pools().p[id].flags & flag) ? 1 : 0;
		const char* what = ctor ? "construction" : "destruction";
		if (hooks().constructs != (ctor ? want : 0) || hooks().destroys != (ctor ? 0 : want))
		{
			fail("the customised %s ran %d times and the customised %s %d times, expected %d and 0 (memory of part %d)",
				what, ctor ? hooks().constructs : hooks().destroys, ctor ? "destruction" : "construction", ctor ? hooks().destroys : hooks().constructs, want, id);
			return;
		}
		if (want && hooks().pool != id) { fail("the customised %s of part %d ran for memory of part %d", what, hooks().pool, id); return; }
		if (want && hooks().at != p) fail("the customised %s ran at the wrong address", what);
	}
	void apply(const Op& o, bool) override
	{
		A& x = *a;
		ev = Events();
		hooks() = HookLog();
		switch (o.c)
		{
		case ALLOC:
		{
			size_t n = sizes[size_t(o.a)];
			char* p = static_cast<char*>(x.allocate(n));
			if (!p) return;
			memset(p, 0, n);
			live.push_back(B{ p, n, { false, false } });
			return;
		}
		case FREE:
		{
			B b = live[size_t(o.a)];
			live.erase(live.begin() + o.a);
			memset(b.p, 0, b.n);
			x.deallocate(b.p, b.n);
			break;
		}
		case CONSTRUCT:
		{
			Thing* p = reinterpret_cast<Thing*>(live[size_t(o.a)].p + 16 * o.b);
			live[size_t(o.a)].has[o.b] = true;
			alignas(Thing) char mem[sizeof(Thing)];
			Thing* src = ::new (static_cast<void*>(mem)) Thing(5);
			src->b = 6;
			ev = Events();
			int lv = 3, how = 0, wa = 0, wb = 0;
			switch (o.d)
			{
			case 0: How::construct(x, p); how = DEFAULT; break;
			case 1: How::construct(x, p, 7); how = VALUE; wa = 7; break;
			case 2:
			{
				Token t(4);
				How::construct(x, p, lv, std::move(t));
				how = TWO; wa = 3; wb = 4;
				if (t.v != -1) fail("the move-only argument was not handed on");
				if (lv != 99) fail("the constructor did not get a reference to the lvalue argument");
				break;
			}
			case 3: How::construct(x, p, *src); how = COPY; wa = 5; wb = 6; break;
			case 4: { const Thing& c = *src; How::construct(x, p, c); how = COPY; wa = 5; wb = 6; break; }
			case 5: How::construct(x, p, std::move(*src)); how = MOVE; wa = 5; wb = 6; break;
			}
			if (ev.built != 1 || ev.dead != 0) { fail("construct() ran %d constructors and %d destructors", ev.built, ev.dead); return; }
			if (ev.at != p) { fail("construct(%p) constructed the object at %p", (void*)p, ev.at); return; }
			if (ev.how != how) { fail("construct() ran constructor %d instead of %d", ev.how, how); return; }
			if (p->a != wa || p->b != wb) { fail("construct() passed the wrong arguments: (%d, %d) instead of (%d, %d)", p->a, p->b, wa, wb); return; }
			if (o.d == 3 && (src->a != 5 || src->b != 6)) { fail("construct() changed its argument"); return; }
			if (Ctor) hooked(p, CTOR, true);
			if (!failed() && how != MOVE && (src->a != 5 || src->b != 6)) fail("construct() moved from an lvalue");
			break;
		}
		case DESTROY:
		{
			Thing* p = reinterpret_cast<Thing*>(live[size_t(o.a)].p + 16 * o.b);
			How::destroy(x, p);
			live[size_t(o.a)].has[o.b] = false;
			if (ev.dead != 1 || ev.built != 0) { fail("destroy() ran %d destructors and %d constructors", ev.dead, ev.built); return; }
			if (ev.at != p) { fail("destroy(%p) destroyed the object at %p", (void*)p, ev.at); return; }
			if (Dtor) hooked(p, DTOR, false);
			memset(p, 0, sizeof(Thing));
			break;
		}
		}
	}
	void key(Hash& h) override
	{
		h.word(live.size());
		for (auto& b : live) { h.word(uint64_t(uintptr_t(b.p))); h.word(b.n); h.word(uint64_t(b.has[0] + 2 * b.has[1])); }
		world().key(h);
	}
	void finish() override
	{
		while (!live.empty() && !failed())
		{
			Op o;
			for (int k = 0; k < 2 && !failed(); k++)
				if (live.back().has[k]) { o = Op(); o.c = DESTROY; o.a = int16_t(live.size() - 1); o.b = int16_t(k); apply(o, false); }
			if (failed()) return;
			o = Op(); o.c = FREE; o.a = int16_t(live.size() - 1);
			apply(o, false);
		}
		if (failed()) return;
		a.destroy();
		if (pools_live() || pools().instancesLive) fail("blocks or instances remain");
		else if (text->n) fail("a report was written although everything is balanced: %s", text->s);
	}
};

struct Base
{
	static void setup() { pools().instBytes = 96; pools().instBlocks = 2; pools().instMax = 64; }
	static size_t blocks(int) { return 1; }
	static std::vector<size_t> sizes() { return { 8, 40 }; }
	static constexpr int pools_ = 0;
};
#define IDS std::vector<int>& i, Text& t
constexpr int O = OWNS | MAXS;
template<int P, int F> struct Fb : Base
{
	using type = fallback<Leaf<P>, Leaf<F>>;
	static constexpr int pools = 2;
	static type* make(void* m, IDS) { (void)t; return ::new (m) type(PoolId{ i[0] }, PoolId{ i[1] }); }
};
template<int P, int F> struct Seg : Base
{
	using type = segragator<16, Leaf<P>, Leaf<F>>;
	static constexpr int pools = 2;
	static type* make(void* m, IDS) { (void)t; return ::new (m) type(PoolId{ i[0] }, PoolId{ i[1] }); }
};
template<template<class> class W, int P> struct Wrap1 : Base
{
	using type = W<Leaf<P>>;
	static constexpr int pools = 1;
	static size_t blocks(int) { return 3; }
	static type* make(void* m, IDS) { (void)t; return ::new (m) type(PoolId{ i[0] }); }
};
template<class A> using Free64 = freelist<0, 64, A>;
template<class A> using Shr = shared<A>;
template<class A> using Over = overflow<A, Text>;
template<class A> using SharedThreaded = atomic_shared<threaded<A>>;
template<int P> struct OverOf : Base
{
	using type = overflow<Leaf<P>, Text>;
	static constexpr int pools = 1;
	static size_t blocks(int) { return 3; }
	static type* make(void* m, IDS) { return ::new (m) type(t, PoolId{ i[0] }); }
};
template<int P> struct FreeOverOf : Base
{
	using type = freelist<0, 64, overflow<Leaf<P>, Text>>;
	static constexpr int pools = 1;
	static size_t blocks(int) { return 3; }
	static type* make(void* m, IDS) { return ::new (m) type(t, PoolId{ i[0] }); }
};
template<class C> struct Default : Base
{
	using type = C;
	static constexpr int pools = 0;
	static type* make(void* m, IDS) { (void)t; (void)i; return ::new (m) type(); }
};
template<int P, int Q, int R> struct FbFb : Base
{
	using type = fallback<fallback<Leaf<P>, Leaf<Q>>, Leaf<R>>;
	static constexpr int pools = 3;
	static type* make(void* m, IDS) { (void)t; return ::new (m) type(std::tuple<Leaf<P>, Leaf<Q>>(Leaf<P>(PoolId{ i[0] }), Leaf<Q>(PoolId{ i[1] })), std::tuple<PoolId>(PoolId{ i[2] })); }
};
template<int P, int Q, int R> struct FbRight : Base
{
	using type = fallback<Leaf<P>, fallback<Leaf<Q>, Leaf<R>>>;
	static constexpr int pools = 3;
	static type* make(void* m, IDS) { (void)t; return ::new (m) type(std::tuple<PoolId>(PoolId{ i[0] }), std::tuple<Leaf<Q>, Leaf<R>>(Leaf<Q>(PoolId{ i[1] }), Leaf<R>(PoolId{ i[2] }))); }
};
template<int P, int Q, int R, int S> struct SegFb : Base
{
	using type = segragator<16, fallback<Leaf<P>, Leaf<Q>>, fallback<Leaf<R>, Leaf<S>>>;
	static constexpr int pools = 4;
	static type* make(void* m, IDS)
	{
		(void)t;
		return ::new (m) type(std::tuple<PoolId, PoolId>(PoolId{ i[0] }, PoolId{ i[1] }), std::tuple<PoolId, PoolId>(PoolId{ i[2] }, PoolId{ i[3] }));
	}
};
template<int P, int F> struct FreeInFb : Base
{
	using type = fallback<freelist<0, 64, Leaf<P>>, Leaf<F>>;
	static constexpr int pools = 2;
	static type* make(void* m, IDS) { (void)t; return ::new (m) type(PoolId{ i[0] }, PoolId{ i[1] }); }
};
template<int P, int F> struct OverInFb : Base
{
	using type = fallback<Leaf<P>, overflow<Leaf<F>, Text>>;
	static constexpr int pools = 2;
	static type* make(void* m, IDS) { return ::new (m) type(std::tuple<PoolId>(PoolId{ i[0] }), std::tuple<Text&, PoolId>(t, PoolId{ i[1] })); }
};
template<int F> struct NullFb : Base
{
	using type = fallback<null_allocator, Leaf<F>>;
	static constexpr int pools = 1;
	static type* make(void* m, IDS) { (void)t; return ::new (m) type(null_allocator(), PoolId{ i[0] }); }
};
// a reference to an allocator kept elsewhere
template<class A> struct RefOf : Base
{
	using type = ktl::reference<A>;
	static constexpr int pools = 1;
	static size_t blocks(int) { return 3; }
	static inline A* target = nullptr;
	static type* make(void* m, IDS)
	{
		(void)t;
		void* q = world().objects.alloc(sizeof(A), alignof(A), 0, 0);
		target = ::new (q) A(PoolId{ i[0] });
		return ::new (m) type(*target);
	}
};

// the static allocator behind global handles, set anew for every execution
template<class A, int Parts> struct Late : A
{
	Late() : Late(std::make_index_sequence<Parts>()) {}
	template<size_t... I> explicit Late(std::index_sequence<I...>) : A(PoolId{ int(I) }...) {}
};
template<class A, int Parts> struct GlobOf : Base
{
	using type = ktl::global<Late<A, Parts>>;
	static constexpr int pools = Parts;
	static size_t blocks(int) { return Parts > 1 ? 1 : 3; }
	static type* make(void* m, IDS)
	{
		(void)t; (void)i; // the pools are numbered from 0
		type* r = ::new (m) type();
		if constexpr (std::is_move_assignable_v<A>) r->set_allocator(Late<A, Parts>());
		else
		{
			auto& target = r->get_allocator();
			using L = Late<A, Parts>;
			target.~L();
			::new (static_cast<void*>(&target)) L();
		}
		return r;
	}
};

template<bool Mine, class Spec, class How = Direct, bool Ctor = true, bool Dtor = true>
static void suite(const char* name)
{
	if constexpr (Mine)
	{
		size_t live = thorough() ? 3 : 2;
		Bounds b;
		b.dfs = thorough() ? 4 : 3;
		b.depth = thorough() ? 12 : 8;
		b.maxStates = thorough() ? 200000 : 6000;
		add(std::string(name) + How::name, b, [live]() -> System* { return new ConsSys<Spec, How, Ctor, Dtor>(live); });
	}
}

// ---- many instances: each object is built and destroyed by the instance that holds it ----------------------------------
struct Tally { int built = 0, dead = 0; const void* by = nullptr; };
inline Tally tally;
template<bool Ctor, bool Dtor>
struct Cell : ktl::linear_allocator<32>
{
	template<class T, class... X> std::enable_if_t<Ctor && sizeof(T) != 0, void> construct(T* p, X&&... x)
	{
		if (!this->owns(p)) fail("an instance constructs an object in a block of another one");
		tally.built++; tally.by = this;
		::new (static_cast<void*>(p)) T(std::forward<X>(x)...);
	}
	template<class T> std::enable_if_t<Dtor && sizeof(T) != 0, void> destroy(T* p)
	{
		if (!this->owns(p)) fail("an instance destroys an object in a block of another one");
		tally.dead++;
		p->~T();
	}
};
template<bool Mine, class How, class A, bool Ctor, bool Dtor>
static void deep(const char* name)
{
	if constexpr (Mine)
		add_cases(std::string("many instances, ") + name + How::name, [](Cases& e)
		{
			std::vector<size_t> counts;
			for (size_t i = 1; i <= (thorough() ? 80 : 24); i++) counts.push_back(i);
			for (size_t i : { 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257 }) counts.push_back(i);
			for (size_t n : counts)
				for (int form = 0; form < 4; form++)
				{
					static const char* const forms[] = { "newest first", "oldest first", "the even ones first", "built again and again" };
					if (!e.next("%zu objects of 32 bytes, destroyed %s", n, forms[form])) continue;
					mc::world().active(false);
					{
						A a;
						std::vector<Thing*> at;
						auto build = [&](Thing* p, int v)
						{
							ev = Events(); tally = Tally();
							How::construct(a, p, v);
							if (ev.built != 1 || ev.at != p || ev.how != VALUE || p->a != v) fail("object %d was constructed %d times", v, ev.built);
							else if (tally.built != (Ctor ? 1 : 0)) fail("object %d was constructed by %d of the instances that provide construct()", v, tally.built);
						};
						auto end = [&](Thing* p, size_t v)
						{
							ev = Events(); tally = Tally();
							if (p->a != int(v)) { fail("object %zu was changed", v); return; }
							How::destroy(a, p);
							if (ev.dead != 1 || ev.at != p) fail("object %zu was destroyed %d times", v, ev.dead);
							else if (tally.dead != (Dtor ? 1 : 0)) fail("object %zu was destroyed by %d of the instances that provide destroy()", v, tally.dead);
						};
						for (size_t i = 0; i < n && !failed(); i++)
						{
							Thing* p = static_cast<Thing*>(a.allocate(32));
							if (!p) { fail("block %zu was refused", i); break; }
							at.push_back(p);
							build(p, int(i));
						}
						std::vector<size_t> order;
						for (size_t i = 0; i < n; i++) order.push_back(form == 0 ? n - 1 - i : form == 2 ? (2 * i < n ? 2 * i : 2 * (i - (n + 1) / 2) + 1) : i);
						if (form == 3) for (size_t k = 0; k < n && !failed(); k++) { end(at[k], k); if (!failed()) build(at[k], int(k)); }
						for (size_t k : order) if (!failed()) end(at[k], k);
						for (size_t k : order) if (!failed()) a.deallocate(at[k], 32);
						e.step(2 * n);
					}
					mc::world().active(true);
					if (!e.ok()) return;
				}
		});
}

MC_SUITES
{
	// which part customises: both, first, second; the typed and the traits route to it
#define THREE(T, n) suite<MC_MINE, T, Direct>(n); suite<MC_MINE, T, Typed>(n); suite<MC_MINE, T, Traits>(n);
#define ONE(T, n) suite<MC_MINE, T, Direct>(n);
#define C_(...) __VA_ARGS__
	THREE(C_(Fb<O | CONS, CONS>), "fallback<L*,L*>")
	THREE(C_(Fb<O | CONS, O>), "fallback<L*,L>")
	THREE(C_(Fb<O, CONS>), "fallback<L,L*>")
	suite<MC_MINE, Fb<O, O>, Traits>("fallback<L,L>");
	THREE(C_(Seg<O | CONS, CONS>), "segragator<16,L*,L*>")
	THREE(C_(Seg<O | CONS, O>), "segragator<16,L*,L>")
	THREE(C_(Seg<O, CONS>), "segragator<16,L,L*>")
	suite<MC_MINE, Seg<O, O>, Traits>("segragator<16,L,L>");
	// parts that customise only one of the two
	ONE(C_(Fb<O | CTOR, DTOR>), "fallback<L*ctor,L*dtor>")
	ONE(C_(Fb<O | DTOR, CTOR>), "fallback<L*dtor,L*ctor>")
	ONE(C_(Seg<O | CTOR, DTOR>), "segragator<16,L*ctor,L*dtor>")
	ONE(C_(Seg<O | DTOR, CTOR>), "segragator<16,L*dtor,L*ctor>")
	suite<MC_MINE, Fb<O | CTOR, O>, Traits>("fallback<L*ctor,L>");
	suite<MC_MINE, Fb<O, DTOR>, Traits>("fallback<L,L*dtor>");
	// single-part wrappers
	THREE(C_(Wrap1<Free64, O | CONS>), "freelist<0,64,L*>")
	suite<MC_MINE, Wrap1<Free64, O>, Traits>("freelist<0,64,L>");
	ONE(C_(Wrap1<Shr, O | CONS>), "shared<L*>")
	ONE(C_(Wrap1<SharedThreaded, O | CONS>), "atomic_shared<threaded<L*>>")
	ONE(C_(Wrap1<threaded, O | CONS>), "threaded<L*>")
	suite<MC_MINE, Wrap1<threaded, O | CTOR>, Traits>("threaded<L*ctor>");
	suite<MC_MINE, RefOf<Leaf<O | CONS>>, Direct>("reference<L*>");
	suite<MC_MINE, RefOf<Leaf<O | CTOR>>, Traits>("reference<L*ctor>");
	suite<MC_MINE, RefOf<Leaf<O | DTOR>>, Traits>("reference<L*dtor>");
	suite<MC_MINE, Wrap1<threaded, O | DTOR>, Traits>("threaded<L*dtor>");
	suite<MC_MINE, Wrap1<Shr, O | CTOR>, Traits>("shared<L*ctor>");
	suite<MC_MINE, Wrap1<Shr, O | DTOR>, Traits>("shared<L*dtor>");
	suite<MC_MINE, Wrap1<SharedThreaded, O>, Traits>("atomic_shared<threaded<L>>");
	suite<MC_MINE, Wrap1<Free64, O | CTOR>, Traits>("freelist<0,64,L*ctor>");
	suite<MC_MINE, Wrap1<Free64, O | DTOR>, Traits>("freelist<0,64,L*dtor>");
	THREE(C_(GlobOf<Leaf<O | CONS>, 1>), "global<L*>")
	suite<MC_MINE, GlobOf<Leaf<O>, 1>, Traits>("global<L>");
	suite<MC_MINE, GlobOf<Leaf<O | CTOR>, 1>, Traits>("global<L*ctor>");
	suite<MC_MINE, GlobOf<Leaf<O | DTOR>, 1>, Traits>("global<L*dtor>");
	ONE(C_(GlobOf<fallback<Leaf<O | CONS>, Leaf<O>>, 2>), "global<fallback<L*,L>>")
	ONE(C_(GlobOf<threaded<Leaf<O | CONS>>, 1>), "global<threaded<L*>>")
	THREE(C_(Default<cascading<Inst<O | CONS>>>), "cascading<I*>")
	suite<MC_MINE, Default<cascading<Inst<O>>>, Traits>("cascading<I>");
	suite<MC_MINE, Default<cascading<Inst<O | CTOR>>>, Traits>("cascading<I*ctor>");
	THREE(C_(OverOf<O | CONS>), "overflow<L*>")
	THREE(C_(OverOf<O>), "overflow<L>")
	ONE(C_(FreeOverOf<O>), "freelist<0,64,overflow<L>>")
	ONE(C_(FreeOverOf<O | CONS>), "freelist<0,64,overflow<L*>>")
	// nests
	ONE(C_(FbFb<O | CONS, O, CONS>), "fallback<fallback<L*,L>,L*>")
	ONE(C_(FbFb<O, O | CONS, O>), "fallback<fallback<L,L*>,L>")
	ONE(C_(FbFb<O, O, CONS>), "fallback<fallback<L,L>,L*>")
	ONE(C_(FbRight<O | CONS, O, CONS>), "fallback<L*,fallback<L,L*>>")
	ONE(C_(FbRight<O, O | CONS, O>), "fallback<L,fallback<L*,L>>")
	ONE(C_(FbRight<O | CONS, O, O>), "fallback<L*,fallback<L,L>>")
	ONE(C_(SegFb<O | CONS, O, O, CONS>), "segragator<16,fallback<L*,L>,fallback<L,L*>>")
	ONE(C_(SegFb<O, O | CONS, O | CONS, O>), "segragator<16,fallback<L,L*>,fallback<L*,L>>")
	ONE(C_(SegFb<O, O, O | CONS, O>), "segragator<16,fallback<L,L>,fallback<L*,L>>")
	ONE(C_(FreeInFb<O | CONS, O>), "fallback<freelist<0,64,L*>,L>")
	ONE(C_(FreeInFb<O, CONS>), "fallback<freelist<0,64,L>,L*>")
	ONE(C_(OverInFb<O, O>), "fallback<L,overflow<L>>")
	ONE(C_(OverInFb<O | CONS, CONS>), "fallback<L*,overflow<L*>>")
	ONE(C_(NullFb<CONS>), "fallback<null,L*>")
	ONE(C_(Default<cascading<fallback<Inst<O | CONS>, Inst<O>>>>), "cascading<fallback<I*,I>>")
	ONE(C_(Default<cascading<freelist<0, 64, Inst<O | CONS>>>>), "cascading<freelist<0,64,I*>>")
	ONE(C_(Default<freelist<0, 64, cascading<Inst<O | CONS>>>>), "freelist<0,64,cascading<I*>>")
	ONE(C_(Default<shared<fallback<cascading<Inst<O | CONS>>, Inst<O>>>>), "shared<fallback<cascading<I*>,I>>")
	deep<MC_MINE, Direct, cascading<Cell<true, true>>, true, true>("cascading<C*>");
	deep<MC_MINE, Typed, cascading<Cell<true, true>>, true, true>("cascading<C*>");
	deep<MC_MINE, Traits, cascading<Cell<true, true>>, true, true>("cascading<C*>");
	deep<MC_MINE, Traits, cascading<Cell<true, false>>, true, false>("cascading<C*ctor>");
	deep<MC_MINE, Traits, cascading<Cell<false, true>>, false, true>("cascading<C*dtor>");
	deep<MC_MINE, Direct, ktl::freelist<0, 32, cascading<Cell<true, true>>>, true, true>("freelist<0,32,cascading<C*>>");
	deep<MC_MINE, Direct, ktl::fallback<cascading<Cell<true, true>>, ktl::mallocator>, true, true>("fallback<cascading<C*>,mallocator>");
	deep<MC_MINE, Direct, ktl::segragator<16, ktl::linear_allocator<64>, cascading<Cell<true, true>>>, true, true>("segragator<16,linear,cascading<C*>>");
	deep<MC_MINE, Typed, ktl::shared<cascading<Cell<true, true>>>, true, true>("shared<cascading<C*>>");
	deep<MC_MINE, Direct, ktl::threaded<cascading<Cell<true, true>>>, true, true>("threaded<cascading<C*>>");
}
