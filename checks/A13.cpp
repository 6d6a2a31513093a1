// PARTS: 8
// Equality of allocators: separate instances, shareable handles, moved containers of memory.
#include "handlesys.h"
#include "holdsys.h"
using namespace mc;
using namespace conf;

// ---- (a) two or three separate instances of one configuration -----------------------------------------------
template<class A> struct stateless : std::false_type {};   // separate instances are interchangeable
template<> struct stateless<mallocator> : std::true_type {};
template<> struct stateless<null_allocator> : std::true_type {};
template<class A> struct stateless<global<A>> : std::true_type {};
template<size_t L0, size_t H, class A> struct stateless<freelist<L0, H, A>> : stateless<A> {};
template<class A, class S> struct stateless<overflow<A, S>> : stateless<A> {};
template<class A> struct must_equal : std::false_type {};
template<> struct must_equal<mallocator> : std::true_type {};
template<> struct must_equal<null_allocator> : std::true_type {};
template<class A> struct must_equal<global<A>> : std::true_type {};

template<class C, int N>
class PairSys : public System
{
public:
	using A = typename C::A;
	enum { ALLOC = 1, FREE = 2 };
	struct B { char* p; size_t n; int who; };
	AllocParams prm;
	std::unique_ptr<C> c[N];
	bool handed[N] = {};
	std::vector<B> live;
	explicit PairSys(const AllocParams& p) : prm(p) {}
	~PairSys() { if (failed()) for (auto& x : c) x.release(); }
	void start() override { for (auto& x : c) x = std::make_unique<C>(); }
	void ops(std::vector<Op>& o) const override
	{
		Op q;
		if (live.size() < prm.maxLive)
			for (int w = 0; w < N; w++)
				for (size_t i = 0; i < prm.sizes.size(); i++) { q.c = ALLOC; q.a = int16_t(w); q.b = int16_t(i); o.push_back(q); }
		for (size_t i = 0; i < live.size(); i++) { q.c = FREE; q.a = int16_t(i); q.b = 0; o.push_back(q); }
	}
	std::string describe(const Op& o) const override
	{
		if (o.c == ALLOC) return std::string(1, char('x' + o.a)) + ".allocate(" + std::to_string(prm.sizes[size_t(o.b)]) + ")";
		return "deallocate(block #" + std::to_string(o.a) + ")";
	}
	void apply(const Op& o, bool) override
	{
		if (o.c == FREE)
		{
			B b = live[size_t(o.a)];
			live.erase(live.begin() + o.a);
			memset(b.p, 0, b.n);
			c[b.who]->get().deallocate(b.p, b.n);
			return;
		}
		size_t n = prm.sizes[size_t(o.b)];
		char* p = static_cast<char*>(c[o.a]->get().allocate(n));
		if (!p) return;
		handed[o.a] = true;
		live.push_back(B{ p, n, o.a });
	}
	void check() override
	{
		for (int s = 0; s < N; s++)
			for (int t = 0; t <= s; t++)
			{
				const A& x = c[s]->get();
				const A& y = c[t]->get();
				bool eq = x == y, eq2 = y == x, ne = x != y, ne2 = y != x;
				if (s == t && !eq) { fail("%c does not compare equal to itself", 'x' + s); return; }
				if (eq != eq2 || ne != ne2) { fail("equality of %c and %c is not symmetric", 'x' + s, 'x' + t); return; }
				if (eq == ne) { fail("'not equal' is not the negation of 'equal' for %c and %c", 'x' + s, 'x' + t); return; }
				if (s == t) continue;
				if (must_equal<A>::value && !eq) { fail("%c and %c compare unequal although all of them are interchangeable", 'x' + s, 'x' + t); return; }
				if (!stateless<A>::value && eq && (handed[s] || handed[t])) { fail("%c and %c have separate state but compare equal", 'x' + s, 'x' + t); return; }
			}
	}
	void key(Hash& h) override
	{
		h.word(live.size());
		for (auto& b : live) { h.word(uint64_t(uintptr_t(b.p))); h.word(b.n); h.word(uint64_t(b.who)); }
		for (bool b : handed) h.word(b);
		for (auto& x : c) x->key(h);
		world().key(h);
	}
	void finish() override
	{
		while (!live.empty() && !failed()) { c[live.back().who]->get().deallocate(live.back().p, live.back().n); live.pop_back(); }
		if (failed()) return;
		for (auto& x : c) x->destroy();
	}
};

// ---- (b) shareable handles ---------------------------------------------------------------------------------------
template<class T> struct TwoTargets
{
	Obj<T> t[2];
	TwoTargets() { pools().instBytes = 64; pools().instBlocks = 3; pools().instMax = 64; t[0].make(); t[1].make(); }
	void key(Hash&) {}
};
template<class Alloc, class T>
struct FixedSpec
{
	using type = Alloc;
	using Env = TwoTargets<T>;
	static constexpr int slots = 3, fixed = 2, instances = 1;
	static constexpr bool moveCopies = false, separate = true, nilDistinct = false, rebinds = false;
	static constexpr size_t size = 16, unit = 1;
	static type* create(void* m, Env& e, int t) { return ::new (m) type(*e.t[t]); }
	static int core(type&) { return -1; }
	static const void* address(type&) { return nullptr; }
};
template<class E, class Other, class Alloc, class T>
struct FixedTyped : FixedSpec<ktl::type_allocator<E, Alloc>, T>
{
	using type = ktl::type_allocator<E, Alloc>;
	using rebound = ktl::type_allocator<Other, Alloc>;
	static constexpr bool moveCopies = true, rebinds = true;
	static constexpr size_t size = 2, unit = sizeof(E);
	static type* create(void* m, TwoTargets<T>& e, int t) { return ::new (m) type(*e.t[t]); }
	static int core(type&) { return -1; }
};
template<class Alloc>
struct Stateless
{
	using type = Alloc;
	using Env = NoEnv;
	static constexpr int slots = 3, fixed = 1, instances = 0;
	static constexpr bool moveCopies = true, separate = false, nilDistinct = false, rebinds = false;
	static constexpr size_t size = 16, unit = 1;
	static type* create(void* m, Env&, int) { return ::new (m) type(); }
	static int core(type&) { return -1; }
	static const void* address(type&) { return nullptr; }
};
template<class Alloc, class Other>
struct StatelessTyped : Stateless<Alloc>
{
	using rebound = Other;
	static constexpr bool rebinds = true;
	static constexpr size_t size = 2, unit = sizeof(typename Alloc::value_type);
};
// a null allocator hands out nothing
template<class S> struct NoAlloc : S {};

template<bool Mine, class C, int N>
static void pairs(const char* name, size_t live, std::vector<size_t> sizes)
{
	if constexpr (Mine)
	{
		AllocParams p{ sizes, N == 2 ? (thorough() ? 3u : 2u) : 2u };
		if (live < p.maxLive) p.maxLive = live;
		Bounds b;
		b.dfs = thorough() ? 4 : 2;
		b.depth = (thorough() ? 10 : 6) - (N == 3);
		b.maxStates = thorough() ? 200000 : 8000;
		add(std::string(N == 2 ? "2 x " : "3 x ") + name, b, [p]() -> System* { return new PairSys<C, N>(p); });
	}
}
template<bool Mine, class Spec>
static void handles(const char* name, int depth)
{
	if constexpr (Mine)
	{
		Bounds b;
		b.dfs = thorough() ? 5 : 3;
		b.depth = depth + (thorough() ? 4 : 0);
		b.maxStates = thorough() ? 600000 : 20000;
		add(std::string("handles of ") + name, b, []() -> System* { return new HandleSys<Spec, EQUALITY>(); });
	}
}
struct Casc
{
	using type = cascading<Inst<OWNS | MAXS>>;
	static constexpr int slots = 3;
	static constexpr bool asked = true;
	static constexpr size_t freshMin = 0, freshMax = 64;
	static void setup() { pools().instBytes = 64; pools().instBlocks = 2; pools().instMax = 64; }
	static type* make(void* m, int) { return ::new (m) type(); }
};
struct Free
{
	using type = freelist<0, 16, Leaf<OWNS>>;
	static constexpr int slots = 3;
	static constexpr size_t min = 0, max = 16;
	static void setup() { new_pool(256, 4, 64); }
	static type* make(void* m, int) { return ::new (m) type(PoolId{ 0 }); }
};
template<bool Mine, class S, int F>
static void moved(const char* name, std::vector<size_t> sizes, size_t live, int depth)
{
	if constexpr (Mine)
	{
		HoldParams p{ sizes, live, false };
		Bounds b;
		b.dfs = thorough() ? 5 : 3;
		b.depth = depth + (thorough() ? 3 : 0);
		b.maxStates = thorough() ? 400000 : 30000;
		add(std::string("moved ") + name, b, [p]() -> System* { return new HoldSys<S, F>(p); });
	}
}

MC_SUITES
{
#define X(name, C, live, sizes) pairs<MC_MINE, typename strip<void C>::type, 2>(name, live, std::vector<size_t>{ MC_UNPAREN sizes });
	KTL_REAL_CONFS(X)
#undef X
	pairs<MC_MINE, Plain<cascading<linear_allocator<32>>, 32>, 3>("cascading<linear<32>>", 2, { 1, 32 });
	pairs<MC_MINE, Plain<linear_allocator<64>, 64>, 3>("linear<64>", 2, { 1, 32 });
	pairs<MC_MINE, Plain<null_allocator, 0>, 3>("null", 2, { 1, 32 });
	pairs<MC_MINE, Plain<fallback<linear_allocator<32>, mallocator>, INF>, 3>("fallback<linear<32>,mallocator>", 2, { 1, 33 });
	pairs<MC_MINE, Plain<segragator<16, mallocator, linear_allocator<32>>, 32>, 2>("segragator<16,mallocator,linear<32>>", 2, { 1, 32 });
	pairs<MC_MINE, Plain<segragator<16, linear_allocator<32>, linear_allocator<64>>, 64>, 2>("segragator<16,linear<32>,linear<64>>", 2, { 1, 32 });
	pairs<MC_MINE, Plain<threaded<cascading<linear_allocator<32>>>, 32>, 2>("threaded<cascading<linear<32>>>", 2, { 1, 32 });

	using I0 = Inst<OWNS | MAXS>;
	handles<MC_MINE, SharedOf<shared<I0>>>("shared<I>", 7);
	handles<MC_MINE, SharedOf<atomic_shared<I0>>>("atomic_shared<I>", 7);
	handles<MC_MINE, SharedOf<atomic_shared<threaded<I0>>>>("atomic_shared<threaded<I>>", 7);
	handles<MC_MINE, SharedOf<shared<freelist<0, 16, I0>>>>("shared<freelist<0,16,I>>", 7);
	handles<MC_MINE, TypedOf<int, double, shared<I0>>>("type_allocator<int, shared<I>>", 6);
	handles<MC_MINE, TypedOf<double, char, atomic_shared<threaded<I0>>>>("type_allocator<double, atomic_shared<threaded<I>>>", 6);
	handles<MC_MINE, FixedSpec<reference<linear_allocator<64>>, linear_allocator<64>>>("reference<linear<64>>", 6);
	handles<MC_MINE, FixedSpec<reference<threaded<linear_allocator<64>>>, threaded<linear_allocator<64>>>>("reference<threaded<linear<64>>>", 6);
	handles<MC_MINE, FixedSpec<reference<cascading<I0>>, cascading<I0>>>("reference<cascading<I>>", 6);
	handles<MC_MINE, FixedSpec<ktl::stack_allocator<64>, ktl::stack<64>>>("stack_allocator<64>", 6);
	handles<MC_MINE, FixedTyped<int, double, reference<linear_allocator<64>>, linear_allocator<64>>>("type_allocator<int, reference<linear<64>>>", 5);
	handles<MC_MINE, FixedTyped<int, double, ktl::stack_allocator<64>, ktl::stack<64>>>("type_allocator<int, stack_allocator<64>>", 5);
	handles<MC_MINE, Stateless<mallocator>>("mallocator", 7);
	handles<MC_MINE, Stateless<global<mallocator>>>("global<mallocator>", 7);
	handles<MC_MINE, StatelessTyped<ktl::type_allocator<int, mallocator>, ktl::type_allocator<double, mallocator>>>("type_allocator<int, mallocator>", 6);
	handles<MC_MINE, StatelessTyped<ktl::type_allocator<int, global<mallocator>>, ktl::type_allocator<double, global<mallocator>>>>("type_allocator<int, global<mallocator>>", 6);

	moved<MC_MINE, Casc, CASCADE | MOVES | EQUAL>("cascading<I>", { 1, 64 }, 3, 6);
	moved<MC_MINE, Free, FREELIST | MOVES | EQUAL>("freelist<0,16,L>", { 1, 16 }, 3, 6);
}
