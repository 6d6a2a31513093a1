// PARTS: 4
// Typed allocators: object counts, byte counts, rebinding.
#include "allocsys.h"
using namespace mc;
using namespace conf;

template<size_t N> struct Bytes { char c[N]; };
struct Wide { double d[2]; int i; };        // 24 bytes
static constexpr size_t M = ~size_t(0);

// counts around every point where count * size wraps around
static std::vector<size_t> wraps(size_t s, int upTo)
{
	std::vector<size_t> v{ M, M - 1, M / s + 1, M / s + 2, M / 2 + 1, (size_t(1) << 32), (size_t(1) << 32) + 1 };
	for (int m = 1; m < upTo && size_t(m) < s; m++)
	{
		size_t q = size_t(((unsigned __int128)(m) << 64) / s);  // largest with q*s < m * 2^64 (or equal)
		for (int d = -1; d <= 3; d++) v.push_back(q + size_t(d));
	}
	return v;
}
static bool fits(size_t n, size_t s) { return (unsigned __int128)n * s <= M; }

// ---- histories with rebinding ---------------------------------------------------------------------------------
template<class W> struct Maker; // how the wrapped allocator is made from pool 0
template<> struct Maker<L> { static L make() { return L(PoolId{ 0 }); } };
template<> struct Maker<shared<L>> { static shared<L> make() { return shared<L>(PoolId{ 0 }); } };
template<> struct Maker<atomic_shared<threaded<L>>> { static atomic_shared<threaded<L>> make() { return atomic_shared<threaded<L>>(PoolId{ 0 }); } };
template<> struct Maker<fallback<L, L>> { static fallback<L, L> make() { return fallback<L, L>(PoolId{ 0 }, PoolId{ 0 }); } };

template<class W>
class TypedSys : public System
{
public:
	template<class T> using TA = ktl::type_allocator<T, W>;
	using Base = TA<int>;
	enum { ALLOC = 1, FREE };
	struct Kind
	{
		size_t size;
		void* (*alloc)(Base&, size_t, int);
		void (*free)(Base&, void*, size_t, int);
		size_t (*max)(Base&);
		bool (*owns)(Base&, void*);
	};
	template<class T, class F>
	static auto with(Base& b, int via, F f)
	{
		switch (via)
		{
		default: { TA<T> t(b); return f(t); }
		case 1: { Base c(b); TA<T> t(std::move(c)); TA<T> u(c); return f(u); } // the source stays what it was
		case 2: { typename std::allocator_traits<Base>::template rebind_alloc<T> t(b); return f(t); }
		case 3: { TA<Bytes<5>> x(b); typename TA<Bytes<5>>::template rebind<T>::other t(x); TA<T> u(t); TA<T> v(std::move(u)); t = v; u = std::move(t); return f(u); }
		}
	}
	template<class T>
	static Kind kind()
	{
		return Kind{ sizeof(T),
			[](Base& b, size_t n, int via) { return with<T>(b, via, [&](TA<T>& t) -> void* { return t.allocate(n); }); },
			[](Base& b, void* p, size_t n, int via) { with<T>(b, via, [&](TA<T>& t) { t.deallocate(static_cast<T*>(p), n); return 0; }); },
			[](Base& b) { return with<T>(b, 0, [&](TA<T>& t) -> size_t { return t.max_size(); }); },
			[](Base& b, void* p) { return with<T>(b, 0, [&](TA<T>& t) { return t.owns(static_cast<T*>(p)); }); } };
	}
	std::vector<Kind> kinds{ kind<char>(), kind<int>(), kind<Bytes<3>>(), kind<Bytes<12>>(), kind<Wide>(), kind<Bytes<19>>() };
	std::vector<size_t> counts{ 0, 1, 2, 5, 8, M, 0 /* smallest count whose bytes wrap to less than one object */ };
	struct B { char* p; size_t n; int k; };
	size_t maxLive;
	Obj<Base> base;
	std::vector<B> live;
	explicit TypedSys(size_t ml) : maxLive(ml) {}
	size_t count(int k, int i) const { return i == 6 ? M / kinds[size_t(k)].size + 1 : counts[size_t(i)]; }
	void start() override
	{
		world().onReset = reset_pools;
		pools().strict = true;
		new_pool(160, 3, 100);
		base.make(Maker<W>::make());
	}
	void ops(std::vector<Op>& o) const override
	{
		Op q;
		if (live.size() < maxLive)
			for (size_t k = 0; k < kinds.size(); k++)
				for (size_t i = 0; i < counts.size(); i++)
				{
					if (i == 6 && kinds[k].size == 1) continue;
					q.c = ALLOC; q.a = int16_t(k); q.b = int16_t(i); q.d = int16_t((k + i) % 4); o.push_back(q);
				}
		for (size_t i = 0; i < live.size(); i++) for (int v = 0; v < 4; v++) { q = Op(); q.c = FREE; q.a = int16_t(i); q.d = int16_t(v); o.push_back(q); }
	}
	std::string describe(const Op& o) const override
	{
		static const char* via[] = { "copy-converted", "move-converted", "traits-rebound", "twice-rebound" };
		if (o.c == ALLOC) return "allocate(" + std::to_string(count(o.a, o.b)) + ") objects of " + std::to_string(kinds[size_t(o.a)].size) + " bytes through a " + via[o.d] + " allocator";
		return "deallocate(block #" + std::to_string(o.a) + ") through a " + std::string(via[o.d]) + " allocator";
	}
	void apply(const Op& o, bool) override
	{
		if (o.c == FREE)
		{
			B b = live[size_t(o.a)];
			live.erase(live.begin() + o.a);
			memset(b.p, 0, b.n * kinds[size_t(b.k)].size);
			Pool& p = pools().p[0];
			uint64_t d = p.deallocs;
			kinds[size_t(b.k)].free(*base, b.p, b.n, o.d);
			if (!failed() && p.deallocs != d + 1) fail("deallocate(%zu objects of %zu bytes) returned %d blocks", b.n, kinds[size_t(b.k)].size, int(p.deallocs - d));
			return;
		}
		Kind& k = kinds[size_t(o.a)];
		size_t n = count(o.a, o.b);
		Pool& pool = pools().p[0];
		bool can = fits(n, k.size) && n * k.size <= 100 && pool.liveBytes + n * k.size <= pool.capBytes && pool.area->blocks.size() < pool.capBlocks;
		char* p = static_cast<char*>(k.alloc(*base, n, o.d));
		if (!p && can) { fail("allocate(%zu objects of %zu bytes) failed although the wrapped allocator can provide %zu bytes", n, k.size, n * k.size); return; }
		if (p && !can) { fail("allocate(%zu objects of %zu bytes) succeeded although the wrapped allocator cannot provide them", n, k.size); return; }
		if (!p) return;
		if (pool.lastSize != n * k.size) { fail("allocate(%zu objects of %zu bytes) asked for %zu bytes", n, k.size, pool.lastSize); return; }
		if (n && !world().covers(p, n * k.size)) { fail("allocate(%zu objects of %zu bytes) returned a pointer to something else", n, k.size); return; }
		for (size_t i = 0; i < n * k.size; i++) p[i] = char(i + 1);
		live.push_back(B{ p, n, o.a });
	}
	void check() override
	{
		for (auto& k : kinds)
			if (k.max(*base) != 100 / k.size) { fail("max_size() is %zu objects of %zu bytes although the wrapped maximum is 100 bytes", k.max(*base), k.size); return; }
		Area* ar = pools().p[0].area;
		for (auto& k : kinds)
			for (char* q : { ar->base - 1, ar->base, ar->base + 50, ar->base + ar->size - 1, ar->base + ar->size })
				if (k.owns(*base, q) != ar->contains(q)) { fail("owns() of a typed allocator differs from the wrapped allocator's answer"); return; }
		for (auto& b : live)
			for (size_t i = 0; i < b.n * kinds[size_t(b.k)].size; i++) if (b.p[i] != char(i + 1)) { fail("a live block changed"); return; }
	}
	void key(Hash& h) override
	{
		h.word(live.size());
		for (auto& b : live) { h.word(uint64_t(uintptr_t(b.p))); h.word(b.n); h.word(uint64_t(b.k)); }
		world().key(h);
	}
	void finish() override
	{
		while (!live.empty() && !failed()) { Op o; o.c = FREE; o.a = int16_t(live.size() - 1); apply(o, false); }
		if (failed()) return;
		base.destroy();
		if (pools_live()) fail("%zu blocks were never given back", pools_live());
	}
};
template<bool Mine, class W>
static void hist(const char* name)
{
	if constexpr (Mine)
	{
		size_t live = thorough() ? 3 : 2;
		Bounds b;
		b.dfs = 2 + thorough();
		b.depth = thorough() ? 8 : 5;
		b.maxStates = thorough() ? 100000 : 15000;
		add(name, b, [live]() -> System* { return new TypedSys<W>(live); });
	}
}

// ---- every count, one type -----------------------------------------------------------------------------------------
template<class T>
static bool counts(Cases& e)
{
	constexpr size_t s = sizeof(T);
	std::vector<size_t> ns;
	for (size_t n = 0; n <= 70; n++) ns.push_back(n);
	for (size_t n : wraps(s, thorough() ? 4096 : 300)) ns.push_back(n);
	for (size_t cap : { size_t(0), size_t(1), s - 1, s, s + 1, 2 * s, 100 * s, size_t(4000) })
	{
		if (cap > 4000) cap = 4000;
		for (size_t n : ns)
		{
			if (!e.next("%zu objects of %zu bytes, %zu bytes available", n, s, cap)) continue;
			pools().strict = true;
			int id = new_pool(cap, 4, cap);
			Obj<ktl::type_allocator<T, L>> a;
			a.make(PoolId{ id });
			bool can = fits(n, s) && n * s <= cap;
			T* p = a->allocate(n);
			e.step();
			if (p && !can) fail("allocate(%zu objects of %zu bytes) succeeded although only %zu bytes exist", n, s, cap);
			if (!p && can) fail("allocate(%zu objects of %zu bytes) failed although %zu bytes exist", n, s, cap);
			if (p && pools().p[id].lastSize != n * s) fail("allocate(%zu objects of %zu bytes) asked for %zu bytes", n, s, pools().p[id].lastSize);
			if (a->max_size() != cap / s) fail("max_size() is %zu objects of %zu bytes although the wrapped maximum is %zu bytes", a->max_size(), s, cap);
			if (p && !failed())
			{
				a->deallocate(p, n);
				if (pools().p[id].liveBytes || pools_live()) fail("deallocate() did not return the block");
			}
			a.destroy();
			if (!e.ok()) return false;
		}
	}
	return true;
}
// ---- every count, over an allocator that grants everything (nothing is ever stored in its blocks) ----------------------
struct Grants
{
	static inline size_t asked = 0, returned = 0, top = 0;
	static inline int calls = 0;
	static void* place() { alignas(64) static char c[64]; return c; }
	void* allocate(size_t n) { asked = n; calls++; return place(); }
	void deallocate(void* p, size_t n) { if (p != place()) fail("deallocate() passed another pointer on"); returned = n; }
	size_t max_size() const { return top; }
	bool operator==(const Grants&) const { return true; }
	bool operator!=(const Grants&) const { return false; }
};
template<class T>
static bool granted(Cases& e)
{
	constexpr size_t s = sizeof(T);
	std::vector<size_t> ns;
	for (size_t n = 0; n <= 300; n++) ns.push_back(n);
	for (int k = 8; k < 64; k++) for (size_t d = 0; d < 5; d++) { ns.push_back((size_t(1) << k) + d - 2); if (s > 1) ns.push_back((size_t(1) << k) / s + d - 2); }
	for (size_t d = 0; d < 5; d++) ns.push_back(M / s - d);
	for (size_t n : wraps(s, thorough() ? 4096 : 300)) ns.push_back(n);
	for (size_t n : ns)
	{
		if (!e.next("%zu objects of %zu bytes", n, s)) continue;
		ktl::type_allocator<T, Grants> a;
		Grants::calls = 0;
		Grants::asked = Grants::returned = 1;
		T* p = a.allocate(n);
		e.step();
		if ((p != nullptr) != fits(n, s)) fail("allocate(%zu objects of %zu bytes) %s", n, s, p ? "succeeded" : "failed although the wrapped allocator grants everything");
		if (!fits(n, s)) { if (Grants::calls) fail("the wrapped allocator was asked for %zu bytes", Grants::asked); }
		else if (p)
		{
			if (Grants::calls != 1 || Grants::asked != n * s) fail("the wrapped allocator was asked %d times, for %zu bytes instead of %zu", Grants::calls, Grants::asked, n * s);
			a.deallocate(p, n);
			if (Grants::returned != n * s) fail("%zu bytes were returned instead of %zu", Grants::returned, n * s);
		}
		Grants::top = n;
		if (a.max_size() != n / s) fail("max_size() is %zu although the wrapped maximum is %zu", size_t(a.max_size()), n);
		if (!e.ok()) return false;
	}
	return true;
}
// ---- the shorthands over real allocators ----------------------------------------------------------------------------
template<class T, class A>
static bool real(Cases& e, const char* name, A& a, size_t max, size_t gran)
{
	// what `max` bytes in units of `gran` can hold
	for (size_t n = 0; n <= 40; n++)
	{
		size_t bytes = n * sizeof(T), need = (bytes + gran - 1) / gran * gran;
		T* p = a.allocate(n);
		e.step();
		if (need <= max && !p && n) fail("%s: allocate(%zu) of %zu-byte objects failed although %zu bytes exist", name, n, sizeof(T), max);
		if (bytes > max && p) fail("%s: allocate(%zu) of %zu-byte objects succeeded although only %zu bytes exist", name, n, sizeof(T), max);
		if (p && n && !world().covers(p, bytes)) fail("%s: allocate(%zu) of %zu-byte objects returned less memory", name, n, sizeof(T));
		if (p) { memset(static_cast<void*>(p), 1, bytes); a.deallocate(p, n); }
		if (failed()) return false;
	}
	for (size_t n : wraps(sizeof(T), 100))
	{
		if (fits(n, sizeof(T)) && n * sizeof(T) <= max) continue;
		e.step();
		if (a.allocate(n)) { fail("%s: allocate(%zu) of %zu-byte objects succeeded", name, n, sizeof(T)); return false; }
	}
	return true;
}
template<class T>
static bool shorthands(Cases& e)
{
#define CASE(name, max, gran, ...) if (e.next(name " with %zu-byte objects", sizeof(T))) { __VA_ARGS__; real<T>(e, name, *a, max, gran); a.destroy(); if (!e.ok()) return false; }
	CASE("type_linear_allocator", 96, 16, Obj<ktl::type_linear_allocator<T, 96>> a; a.make())
	CASE("type_shared_linear_allocator", 96, 16, Obj<ktl::type_shared_linear_allocator<T, 96>> a; a.make())
	CASE("type_reference_linear_allocator", 96, 16, Obj<linear_allocator<96>> t; t.make(); Obj<ktl::type_reference_linear_allocator<T, 96>> a; a.make(*t))
	CASE("type_stack_allocator", 96, 16, Obj<ktl::stack<96>> t; t.make(); Obj<ktl::type_stack_allocator<T, 96>> a; a.make(*t))
	CASE("type_shared_stack_allocator", 96, 16, Obj<ktl::stack<96>> t; t.make(); Obj<ktl::type_shared_stack_allocator<T, 96>> a; a.make(*t))
	CASE("type_mallocator", 1 << 20, 1, Obj<ktl::type_mallocator<T>> a; a.make())
	CASE("type_freelist_allocator", 32, 1, Obj<ktl::type_freelist_allocator<T, 0, 32, linear_allocator<32>>> a; a.make())
	CASE("type_shared_freelist_allocator", 32, 1, Obj<ktl::type_shared_freelist_allocator<T, 0, 32, linear_allocator<32>>> a; a.make())
	CASE("type_cascading_allocator", 96, 16, Obj<ktl::type_cascading_allocator<T, linear_allocator<96>>> a; a.make())
	CASE("type_shared_cascading_allocator", 96, 16, Obj<ktl::type_shared_cascading_allocator<T, linear_allocator<96>>> a; a.make())
	CASE("type_fallback_allocator", 96, 16, Obj<ktl::type_fallback_allocator<T, linear_allocator<32>, linear_allocator<96>>> a; a.make())
	CASE("type_shared_fallback_allocator", 96, 16, Obj<ktl::type_shared_fallback_allocator<T, linear_allocator<32>, linear_allocator<96>>> a; a.make())
	CASE("type_segragator_allocator", 96, 16, Obj<ktl::type_segragator_allocator<T, 16, linear_allocator<16>, linear_allocator<96>>> a; a.make())
	CASE("type_shared_segragator_allocator", 96, 16, Obj<ktl::type_shared_segragator_allocator<T, 16, linear_allocator<16>, linear_allocator<96>>> a; a.make())
	CASE("type_reference_segragator_allocator", 96, 16, Obj<ktl::segragator<16, linear_allocator<16>, linear_allocator<96>>> t; t.make(); Obj<ktl::type_reference_segragator_allocator<T, 16, linear_allocator<16>, linear_allocator<96>>> a; a.make(*t))
	CASE("type_overflow_allocator", 96, 16, Obj<Text> x; x.make(); Obj<ktl::type_overflow_allocator<T, linear_allocator<224>, Text>> a; a.make(*x))
	CASE("type_shared_overflow_allocator", 96, 16, Obj<Text> x; x.make(); Obj<ktl::type_shared_overflow_allocator<T, linear_allocator<224>, Text>> a; a.make(*x))
	CASE("type_shared", 96, 16, Obj<ktl::type_shared<T, linear_allocator<96>>> a; a.make())
	CASE("type_atomic_shared", 96, 16, Obj<ktl::type_atomic_shared<T, linear_allocator<96>>> a; a.make())
	CASE("type_shared_threaded", 96, 16, Obj<ktl::type_shared_threaded<T, linear_allocator<96>>> a; a.make())
	return true;
}

// ---- every shorthand behaves as the composition it stands for --------------------------------------------------------
template<class A, class = void> struct Max_ : std::false_type {};
template<class A> struct Max_<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};
template<class A, class = void> struct Owns_ : std::false_type {};
template<class A> struct Owns_<A, std::void_t<decltype(std::declval<const A&>().owns(std::declval<typename A::value_type*>()))>> : std::true_type {};
// X is the shorthand, Y the composition, each over parts of its own
template<class A, class B> struct pick_ { using X = A; using Y = B; };
template<class X, class Y>
static bool same(Cases& e, X& x, Y& y, const std::vector<int>& ops, const std::vector<size_t>& sizes)
{
	using T = typename Y::value_type;
	struct B { T *p, *q; size_t n; };
	std::vector<B> live;
	auto get = [&](auto& a, size_t n) -> T*
	{
		if constexpr (std::is_copy_constructible_v<Y>) { auto copy(a); return copy.allocate(n); } // handles of the same allocator
		else return a.allocate(n);
	};
	for (int o : ops)
	{
		if (o < int(sizes.size()))
		{
			size_t n = sizes[size_t(o)];
			T *p = get(x, n), *q = get(y, n);
			if (!p != !q) { fail("allocate(%zu) %s, unlike the composition", n, p ? "succeeds" : "fails"); return false; }
			if (p) live.push_back({ p, q, n });
		}
		else if (!live.empty())
		{
			B b = o == int(sizes.size()) ? live.back() : live.front();
			live.erase(o == int(sizes.size()) ? live.end() - 1 : live.begin());
			x.deallocate(b.p, b.n);
			y.deallocate(b.q, b.n);
		}
		if constexpr (Max_<Y>::value) if (x.max_size() != y.max_size()) { fail("max_size() is %zu, that of the composition is %zu", size_t(x.max_size()), size_t(y.max_size())); return false; }
		if constexpr (Owns_<Y>::value)
			for (B& b : live) if (b.n && x.owns(b.p) != y.owns(b.q)) { fail("owns() differs from the composition"); return false; }
	}
	while (!live.empty()) { x.deallocate(live.back().p, live.back().n); y.deallocate(live.back().q, live.back().n); live.pop_back(); }
	e.step(ops.size());
	return !failed();
}
template<class F>
static bool every(Cases& e, const char* name, size_t object, F f)
{
	const std::vector<size_t> sizes{ 1, 2, 3, 5, 8, 14 };
	int k = int(sizes.size()) + 2;
	for (int a = 0; a < k - 2; a++)
		for (int b = 0; b < k; b++)
		{
			if (!e.next("%s with %zu-byte objects, histories that begin with %d, %d", name, object, a, b)) continue;
			int rest = thorough() ? 4 : 3, count = 1;
			for (int i = 0; i < rest; i++) count *= k;
			for (int c = 0; c < count; c++)
			{
				std::vector<int> ops{ a, b };
				for (int i = 0, r = c; i < rest; i++) { ops.push_back(r % k); r /= k; }
				if (!f(ops, sizes)) break;
			}
			if (!e.ok()) return false;
		}
	return true;
}
template<class T>
static bool alike(Cases& e)
{
	using namespace ktl;
	using L1 = linear_allocator<64>; using L2 = linear_allocator<112>;
#define P_(...) __VA_ARGS__
#define PLAIN(name, ...) if (!every(e, name, sizeof(T), [&](const std::vector<int>& ops, const std::vector<size_t>& sizes) { typedef pick_<__VA_ARGS__> K; Obj<typename K::X> x; x.make(); Obj<typename K::Y> y; y.make(); bool r = same(e, *x, *y, ops, sizes); if (r) { x.destroy(); y.destroy(); } return r; })) return false;
#define OVER(name, part, ...) if (!every(e, name, sizeof(T), [&](const std::vector<int>& ops, const std::vector<size_t>& sizes) { typedef pick_<__VA_ARGS__> K; Obj<part> s, t; s.make(); t.make(); Obj<typename K::X> x; x.make(*s); Obj<typename K::Y> y; y.make(*t); bool r = same(e, *x, *y, ops, sizes); if (r) { x.destroy(); y.destroy(); s.destroy(); t.destroy(); } return r; })) return false;
	PLAIN("type_linear_allocator", type_linear_allocator<T, 112>, type_allocator<T, linear_allocator<112>>)
	PLAIN("type_shared_linear_allocator", type_shared_linear_allocator<T, 112>, type_allocator<T, shared<linear_allocator<112>>>)
	OVER("type_reference_linear_allocator", L2, type_reference_linear_allocator<T, 112>, type_allocator<T, reference<linear_allocator<112>>>)
	OVER("type_stack_allocator", stack<112>, type_stack_allocator<T, 112>, type_allocator<T, ktl::stack_allocator<112>>)
	OVER("type_shared_stack_allocator", stack<112>, type_shared_stack_allocator<T, 112>, type_allocator<T, shared<ktl::stack_allocator<112>>>)
	PLAIN("type_mallocator", type_mallocator<T>, type_allocator<T, mallocator>)
	PLAIN("type_freelist_allocator", type_freelist_allocator<T, 8, 40, L2>, type_allocator<T, freelist<8, 40, L2>>)
	PLAIN("type_shared_freelist_allocator", type_shared_freelist_allocator<T, 8, 40, L2>, type_allocator<T, shared<freelist<8, 40, L2>>>)
	PLAIN("type_cascading_allocator", type_cascading_allocator<T, L1>, type_allocator<T, cascading<L1>>)
	PLAIN("type_shared_cascading_allocator", type_shared_cascading_allocator<T, L1>, type_allocator<T, shared<cascading<L1>>>)
	PLAIN("type_fallback_allocator", type_fallback_allocator<T, L1, L2>, type_allocator<T, fallback<L1, L2>>)
	PLAIN("type_shared_fallback_allocator", type_shared_fallback_allocator<T, L2, L1>, type_allocator<T, shared<fallback<L2, L1>>>)
	PLAIN("type_segragator_allocator", type_segragator_allocator<T, 24, L1, L2>, type_allocator<T, segragator<24, L1, L2>>)
	PLAIN("type_shared_segragator_allocator", type_shared_segragator_allocator<T, 24, L2, L1>, type_allocator<T, shared<segragator<24, L2, L1>>>)
	OVER("type_reference_segragator_allocator", P_(segragator<24, L1, L2>), type_reference_segragator_allocator<T, 24, L1, L2>, type_allocator<T, reference<segragator<24, L1, L2>>>)
	using Guarded = linear_allocator<480>;
	OVER("type_overflow_allocator", Text, type_overflow_allocator<T, Guarded, Text>, type_allocator<T, overflow<Guarded, Text>>)
	OVER("type_shared_overflow_allocator", Text, type_shared_overflow_allocator<T, Guarded, Text>, type_allocator<T, shared<overflow<Guarded, Text>>>)
	PLAIN("type_shared", type_shared<T, L2>, type_allocator<T, shared<L2>>)
	PLAIN("type_atomic_shared", type_atomic_shared<T, L2>, type_allocator<T, atomic_shared<L2>>)
	PLAIN("type_shared_threaded", type_shared_threaded<T, L2>, type_allocator<T, atomic_shared<threaded<L2>>>)
	return true;
}

MC_SUITES
{
	hist<MC_MINE, L>("rebinding histories over L");
	hist<MC_MINE, shared<L>>("rebinding histories over shared<L>");
	hist<MC_MINE, atomic_shared<threaded<L>>>("rebinding histories over atomic_shared<threaded<L>>");
	hist<MC_MINE, fallback<L, L>>("rebinding histories over fallback<L,L>");
	if constexpr (MC_MINE) add_cases("shorthands and compositions, 1-byte objects", [](Cases& e) { alike<char>(e); });
	if constexpr (MC_MINE) add_cases("shorthands and compositions, 8-byte objects", [](Cases& e) { alike<double>(e); });
	if constexpr (MC_MINE) add_cases("shorthands and compositions, 12-byte objects", [](Cases& e) { alike<Bytes<12>>(e); });
	constexpr bool c = MC_MINE, s1 = MC_MINE, s2 = MC_MINE;
	if constexpr (c)
		add_cases("every count", [](Cases& e)
		{
			(void)(counts<char>(e) && counts<Bytes<2>>(e) && counts<Bytes<3>>(e) && counts<int>(e) && counts<Bytes<5>>(e) && counts<Bytes<6>>(e) && counts<Bytes<7>>(e)
				&& counts<double>(e) && counts<Bytes<12>>(e) && counts<Bytes<16>>(e) && counts<Bytes<19>>(e) && counts<Wide>(e) && counts<Bytes<100>>(e) && counts<Bytes<255>>(e)
				&& counts<Bytes<256>>(e) && counts<Bytes<1000>>(e) && counts<Bytes<4096>>(e));
		});
	if constexpr (MC_MINE)
		add_cases("every count, wrapped allocator without limit", [](Cases& e)
		{
			(void)(granted<char>(e) && granted<Bytes<2>>(e) && granted<Bytes<3>>(e) && granted<int>(e) && granted<Bytes<5>>(e) && granted<Bytes<7>>(e) && granted<double>(e)
				&& granted<Bytes<12>>(e) && granted<Bytes<16>>(e) && granted<Bytes<19>>(e) && granted<Wide>(e) && granted<Bytes<100>>(e) && granted<Bytes<256>>(e) && granted<Bytes<4096>>(e));
		});
	if constexpr (s1)
		add_cases("shorthands, odd objects", [](Cases& e) { (void)(shorthands<char>(e) && shorthands<Bytes<3>>(e) && shorthands<Bytes<19>>(e)); });
	if constexpr (s2)
		add_cases("shorthands, even objects", [](Cases& e) { (void)(shorthands<int>(e) && shorthands<double>(e) && shorthands<Wide>(e)); });
}
