// PARTS: 6
// max_size() in every reachable state: before the first allocation, full, emptied, moved from and moved to.
#include "allocsys.h"
#include "scalealloc.h"
using namespace mc;
using namespace conf;
static constexpr size_t M = ~size_t(0);

// ---- one allocator, all allocation histories -----------------------------------------------------------------------
template<class C>
class MaxSys : public AllocBase
{
public:
	using A = typename C::A;
	std::unique_ptr<C> c;
	size_t max = 0;
	explicit MaxSys(const AllocParams& p) : AllocBase(p, 0, C::hardMax) {}
	~MaxSys() { if (failed()) c.release(); }
	void* doAlloc(size_t n) override { return c->get().allocate(n); }
	void doFree(void* p, size_t n) override { c->get().deallocate(p, n); }
	void start() override
	{
		pools().strict = false;
		c = std::make_unique<C>();
		size_t before = world().sys_live();
		const A& a = c->get();
		max = a.max_size();
		if (world().sys_live() != before) fail("asking for max_size() kept system memory");
	}
	// The requests around the reported maximum belong to the alphabet
	static std::vector<size_t> around() { return { 0, 1, 2, 15, 16, 17, 128, 64, M / 2 + 1, M - 15, M }; }
	void ops(std::vector<Op>& o) const override
	{
		AllocBase::ops(o);
		if (live.size() < prm.maxLive)
			for (size_t i = 0; i < around().size(); i++) { Op x; x.c = NEAR; x.a = int16_t(i); o.push_back(x); }
	}
	std::string describe(const Op& o) const override
	{
		if (o.c != NEAR) return AllocBase::describe(o);
		size_t d = around()[size_t(o.a)];
		return d > 1000 ? "allocate(" + std::to_string(d) + ")" : "allocate(max_size() + " + std::to_string(d) + ")";
	}
	size_t size(const Op& o) const
	{
		if (o.c == ALLOC) return prm.sizes[size_t(o.a)];
		size_t d = around()[size_t(o.a)];
		return d > 1000 ? d : max + d;
	}
	enum { NEAR = 3 };
	void apply(const Op& o, bool) override
	{
		if (o.c == FREE) { release(size_t(o.a)); return; }
		size_t n = size(o);
		char* p = static_cast<char*>(doAlloc(n));
		if (!p) return;
		if (n > max) { fail("allocate(%zu) succeeded although max_size() is %zu", n, max); return; }
		insert(LiveBlock{ p, world().covers(p, n) ? n : 0 });
	}
	void release(size_t i) { AllocBase::release(i); }
	void check() override
	{
		const A& a = c->get();
		size_t now = a.max_size();
		if (now != max) fail("max_size() was %zu and is now %zu", max, now);
	}
	void key(Hash& h) override { keyLive(h); c->key(h); world().key(h); }
	void finish() override
	{
		while (!live.empty() && !failed()) { release(0); if (!failed()) check(); }
		if (!failed()) c->destroy();
	}
};

template<bool Mine, class C>
static void suite(const char* name, size_t live, std::vector<size_t> sizes)
{
	if constexpr (Mine)
		if constexpr (has_max<typename C::A>)
		{
			// Requests of size 0 tell nothing here
			sizes.erase(std::remove(sizes.begin(), sizes.end(), size_t(0)), sizes.end());
			AllocParams p{ sizes, thorough() ? live + 1 : live };
			Bounds b;
			b.dfs = thorough() ? 3 : 2;
			b.depth = thorough() ? 24 : 14;
			b.maxStates = thorough() ? 300000 : 8000;
			add(name, b, [p]() -> System* { return new MaxSys<C>(p); });
		}
}

// ---- two allocators that are moved ---------------------------------------------------------------------------------
// IDLE    may be moved only before its first use (raw allocators)
// BUSY    may be moved at any time, the source is left empty
// HANDLE  may be moved and copied at any time, the source must not be used until it is assigned
enum { IDLE, BUSY, HANDLE };
template<class Alloc, int KIND>
class MoveMax : public System
{
public:
	enum { ALLOC = 1, FREE, MOVE, ASSIGN, COPY, COPYASSIGN, DROP };
	struct Slot { bool used = false, dead = false; };
	std::vector<size_t> sizes;
	Obj<Alloc> a[2];
	Slot s[2];
	struct B { char* p; size_t n; int slot; };
	std::vector<B> live;
	size_t max = 0;
	explicit MoveMax(std::vector<size_t> z) : sizes(std::move(z)) {}
	void start() override
	{
		pools().strict = false;
		a[0].make();
		max = maxOf(0);
	}
	size_t maxOf(int i) { const Alloc& x = *a[i]; return x.max_size(); }
	int liveOf(int i) const { int n = 0; for (auto& b : live) n += b.slot == i; return n; }
	bool movable(int i) const { return a[i] && !s[i].dead && (KIND != IDLE || !s[i].used); }
	void ops(std::vector<Op>& o) const override
	{
		auto put = [&](int c, int x, int y = 0) { Op p; p.c = int16_t(c); p.a = int16_t(x); p.b = int16_t(y); o.push_back(p); };
		for (int i = 0; i < 2; i++)
		{
			int j = 1 - i;
			if (!a[i]) continue;
			if (!s[i].dead && live.size() < 3) for (size_t k = 0; k < sizes.size() + 2; k++) put(ALLOC, i, int(k));
			if (movable(i) && !a[j]) put(MOVE, i);
			if (movable(i) && a[j] && (KIND == HANDLE || liveOf(j) == 0) && (KIND != IDLE || !s[j].used)) put(ASSIGN, i);
			if (KIND == HANDLE && !s[i].dead && !a[j]) put(COPY, i);
			if (KIND == HANDLE && !s[i].dead && a[j]) put(COPYASSIGN, i);
			if (a[j] && (KIND == HANDLE ? (s[i].dead || !s[j].dead) : liveOf(i) == 0)) put(DROP, i);
		}
		for (size_t i = 0; i < live.size(); i++) if (live[i].slot >= 0) put(FREE, int(i));
	}
	std::string describe(const Op& o) const override
	{
		std::string x(1, char('a' + o.a)), y(1, char('b' - o.a));
		switch (o.c)
		{
		case ALLOC: return x + ".allocate(" + (size_t(o.b) < sizes.size() ? std::to_string(sizes[size_t(o.b)]) : size_t(o.b) == sizes.size() ? "max_size() + 1" : "max_size() + 17") + ")";
		case FREE: return "deallocate(block #" + std::to_string(o.a) + ")";
		case MOVE: return y + "(move(" + x + "))";
		case ASSIGN: return y + " = move(" + x + ")";
		case COPY: return y + "(" + x + ")";
		case COPYASSIGN: return y + " = " + x;
		default: return "destroy " + x;
		}
	}
	// All handles of one group share their blocks: a handle suite keeps a single group by construction
	void apply(const Op& o, bool) override
	{
		int i = o.a, j = 1 - i;
		switch (o.c)
		{
		case ALLOC:
		{
			size_t n = size_t(o.b) < sizes.size() ? sizes[size_t(o.b)] : size_t(o.b) == sizes.size() ? max + 1 : max + 17;
			s[i].used = true;
			char* p = static_cast<char*>(a[i]->allocate(n));
			if (!p) return;
			if (n > max) { fail("allocate(%zu) succeeded although max_size() is %zu", n, max); return; }
			live.push_back(B{ p, n, i });
			return;
		}
		case FREE:
		{
			B b = live[size_t(o.a)];
			live.erase(live.begin() + o.a);
			a[via(b.slot)]->deallocate(b.p, b.n);
			return;
		}
		case MOVE: a[j].make(std::move(*a[i])); s[j] = s[i]; hand(i, j); break;
		case ASSIGN: if constexpr (std::is_move_assignable_v<Alloc>) { *a[j] = std::move(*a[i]); s[j] = s[i]; hand(i, j); } break;
		case COPY: if constexpr (KIND == HANDLE) { a[j].make(static_cast<const Alloc&>(*a[i])); s[j] = s[i]; } break;
		case COPYASSIGN: if constexpr (KIND == HANDLE) { *a[j] = static_cast<const Alloc&>(*a[i]); s[j] = s[i]; } break;
		case DROP: a[i].destroy(); s[i] = Slot(); if (KIND == HANDLE) hand(i, j); break;
		}
	}
	int via(int slot) { return KIND == HANDLE && (!a[slot] || s[slot].dead) ? 1 - slot : slot; }
	void hand(int i, int j)
	{
		for (auto& b : live) if (b.slot == i) b.slot = j;
		if (a[i]) { s[i].dead = KIND == HANDLE; s[i].used = false; }
	}
	void check() override
	{
		for (int i = 0; i < 2; i++)
			if (a[i] && !s[i].dead && maxOf(i) != max) fail("max_size() of %c is %zu, but it was %zu at first", 'a' + i, maxOf(i), max);
	}
	void key(Hash& h) override
	{
		for (int i = 0; i < 2; i++) h.word(uint64_t(bool(a[i])) * 4 + s[i].used * 2 + s[i].dead);
		for (auto& b : live) { h.word(uint64_t(reinterpret_cast<uintptr_t>(b.p))); h.word(b.n); h.word(uint64_t(b.slot)); }
		world().key(h);
	}
	void finish() override
	{
		while (!live.empty() && !failed()) { Op o; o.c = FREE; o.a = 0; apply(o, false); if (!failed()) check(); }
		for (int i = 0; i < 2; i++) if (a[i] && !failed()) a[i].destroy();
	}
};
template<bool Mine, class A, int KIND>
static void moves(const char* name, std::vector<size_t> sizes)
{
	if constexpr (Mine)
	{
		Bounds b;
		b.dfs = thorough() ? 5 : 4;
		b.depth = thorough() ? 24 : 14;
		b.maxStates = thorough() ? 300000 : 15000;
		add(name, b, [sizes]() -> System* { return new MoveMax<A, KIND>(sizes); });
	}
}
// An instance type that reports a maximum of its own
using MI = Inst<OWNS | MAXS>;

// ---- typed allocators: the maximum in objects ----------------------------------------------------------------------
template<class T, class W>
struct TypedOf
{
	struct A
	{
		ktl::type_allocator<T, W> t;
		void* allocate(size_t n) { return t.allocate(n); }
		void deallocate(void* p, size_t n) { t.deallocate(static_cast<T*>(p), n); }
		size_t max_size() const { return t.max_size(); }
	};
	static constexpr size_t hardMax = INF;
	Obj<A> a;
	TypedOf() { a.make(); }
	A& get() { return *a; }
	void destroy() { a.destroy(); }
	void key(Hash&) {}
};
template<size_t N> struct Chars { char c[N]; };

MC_SUITES
{
#define X(name, C, live, sizes) suite<MC_MINE, typename strip<void C>::type>(name, live, std::vector<size_t>{ MC_UNPAREN sizes });
	KTL_REAL_CONFS(X)
	KTL_PROBED_CONFS(X)
#undef X
	suite<MC_MINE, Plain<segragator<16, linear_allocator<32>, linear_allocator<96>>, 96>>("segragator<16,linear<32>,linear<96>>", 4, { 1, 16, 17 });
	suite<MC_MINE, Plain<segragator<64, linear_allocator<96>, linear_allocator<32>>, 96>>("segragator<64,linear<96>,linear<32>>", 4, { 1, 32, 64, 65 });
	suite<MC_MINE, Plain<fallback<linear_allocator<96>, linear_allocator<32>>, 96>>("fallback<linear<96>,linear<32>>", 4, { 1, 32, 33, 64, 65 });
	suite<MC_MINE, Plain<cascading<segragator<16, linear_allocator<32>, linear_allocator<64>>>, 64>>("cascading<segragator<16,linear<32>,linear<64>>>", 4, { 1, 17 });
	suite<MC_MINE, Plain<cascading<cascading<linear_allocator<32>>>, 32>>("cascading<cascading<linear<32>>>", 4, { 1, 17 });
	suite<MC_MINE, Plain<freelist<8, 64, cascading<linear_allocator<64>>>, 64>>("freelist<8,64,cascading<linear<64>>>", 4, { 9, 64 });
	suite<MC_MINE, Plain<fallback<cascading<linear_allocator<32>>, linear_allocator<64>>, 64>>("fallback<cascading<linear<32>>,linear<64>>", 4, { 1, 17, 64 });
	suite<MC_MINE, Plain<threaded<cascading<linear_allocator<32>>>, 32>>("threaded<cascading<linear<32>>>", 4, { 1, 17 });
	suite<MC_MINE, Plain<shared<cascading<linear_allocator<32>>>, 32>>("shared<cascading<linear<32>>>", 4, { 1, 17 });

	suite<MC_MINE, TypedOf<Chars<3>, linear_allocator<64>>>("type_allocator<3 bytes,linear<64>>", 4, { 1, 5 });
	suite<MC_MINE, TypedOf<Chars<24>, shared<linear_allocator<96>>>>("type_allocator<24 bytes,shared<linear<96>>>", 4, { 1, 3 });
	suite<MC_MINE, TypedOf<double, cascading<linear_allocator<40>>>>("type_allocator<double,cascading<linear<40>>>", 4, { 1, 3 });
	suite<MC_MINE, TypedOf<Chars<64>, cascading<linear_allocator<64>>>>("type_allocator<64 bytes,cascading<linear<64>>>", 4, { 1 });
	suite<MC_MINE, TypedOf<Chars<64>, linear_allocator<40>>>("type_allocator<64 bytes,linear<40>>", 4, { 1 });

	moves<MC_MINE, cascading<linear_allocator<32>>, BUSY>("moving cascading<linear<32>>", { 1, 17, 32 });
	moves<MC_MINE, cascading<linear_allocator<40>>, BUSY>("moving cascading<linear<40>>", { 1, 17, 40 });
	moves<MC_MINE, cascading<freelist<0, 16, linear_allocator<32>>>, BUSY>("moving cascading<freelist<0,16,linear<32>>>", { 1, 16 });
	moves<MC_MINE, cascading<fallback<linear_allocator<32>, linear_allocator<64>>>, BUSY>("moving cascading<fallback<linear<32>,linear<64>>>", { 1, 64 });
	moves<MC_MINE, cascading<MI>, BUSY>("moving cascading<I>", { 1, 64 });
	moves<MC_MINE, fallback<cascading<linear_allocator<32>>, cascading<linear_allocator<64>>>, BUSY>("moving fallback<cascading<linear<32>>,cascading<linear<64>>>", { 1, 33, 64 });
	moves<MC_MINE, segragator<16, cascading<linear_allocator<32>>, cascading<linear_allocator<64>>>, BUSY>("moving segragator<16,cascading<linear<32>>,cascading<linear<64>>>", { 16, 17, 64 });
	moves<MC_MINE, cascading<cascading<linear_allocator<32>>>, BUSY>("moving cascading<cascading<linear<32>>>", { 1, 32 });
	moves<MC_MINE, linear_allocator<40>, IDLE>("moving linear<40>", { 1, 40 });
	moves<MC_MINE, freelist<0, 16, linear_allocator<64>>, IDLE>("moving freelist<0,16,linear<64>>", { 1, 16 });
	moves<MC_MINE, fallback<linear_allocator<32>, linear_allocator<64>>, IDLE>("moving fallback<linear<32>,linear<64>>", { 1, 64 });
	moves<MC_MINE, segragator<16, linear_allocator<32>, linear_allocator<64>>, IDLE>("moving segragator<16,linear<32>,linear<64>>", { 16, 64 });
	moves<MC_MINE, shared<linear_allocator<40>>, HANDLE>("moving shared<linear<40>>", { 1, 40 });
	moves<MC_MINE, atomic_shared<cascading<linear_allocator<32>>>, HANDLE>("moving atomic_shared<cascading<linear<32>>>", { 1, 32 });
	constexpr size_t G = (size_t(1) << 32) + 64;
	if constexpr (MC_MINE) add_cases("linear_allocator<65536>", [](Cases& e) { scale::largest<linear_allocator<65536>, 65536>(e); });
	if constexpr (MC_MINE) add_cases("linear_allocator<2^32+64>", [](Cases& e) { scale::largest<linear_allocator<G>, G>(e); });
	if constexpr (MC_MINE) add_cases("stack_allocator<65536>", [](Cases& e) { scale::largest<ktl::stack_allocator<65536>, 65536>(e); });
	if constexpr (MC_MINE) add_cases("stack_allocator<2^32+64>", [](Cases& e) { scale::largest<ktl::stack_allocator<G>, G>(e); });
}
