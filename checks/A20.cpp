// PARTS: 7
// Exceptions thrown by parts, customisations and constructors, at every point of every short history
#include "allocsys.h"
using namespace mc;
using namespace conf;

// ---- where exceptions come from -----------------------------------------------------------------------------------
struct Boom { int serial; };
struct Plan { unsigned mask = 0; int count = 0, thrown = 0; };
inline Plan& plan() { static Plan p; return p; }
inline void point()
{
	Plan& p = plan();
	int i = p.count++;
	if (i < 31 && (p.mask >> i & 1)) { p.thrown++; throw Boom{ p.thrown }; }
}

// CALM: allocate() promises not to throw; STEADY: constructing throws only if the object's constructor does
enum : int { CALM = 64, STEADY = 128 };

// Like the parts of probe.h, but whatever may throw does so when the plan says so
template<int Flags>
class ThrowBase
{
public:
	void* allocate(size_t n) noexcept((Flags & CALM) != 0) { if (!(Flags & CALM)) point(); return pool_alloc(m_Id, n); }
	void deallocate(void* p, size_t n) { pool_dealloc(m_Id, p, n); }
	template<int F = Flags, typename = std::enable_if_t<(F & OWNS) != 0>>
	bool owns(void* p) const { return pool_owns(m_Id, p); }
	template<int F = Flags, typename = std::enable_if_t<(F & MAXS) != 0>>
	size_t max_size() const { return pools().p[m_Id].maxBlock; }
	template<typename T, typename... Args>
	std::enable_if_t<(Flags & CTOR) != 0 && sizeof(T) != 0 && std::is_constructible_v<T, Args...>> construct(T* p, Args&&... args) noexcept((Flags & STEADY) != 0 && std::is_nothrow_constructible_v<T, Args...>)
	{
		if (!(Flags & STEADY)) point();
		::new (static_cast<void*>(p)) T(std::forward<Args>(args)...);
	}
	template<typename T>
	std::enable_if_t<(Flags & DTOR) != 0 && sizeof(T) != 0> destroy(T* p) { p->~T(); }
	int id() const { return m_Id; }
protected:
	int m_Id = -1;
};
template<int Flags>
class ThrowLeaf : public ThrowBase<Flags>
{
public:
	ThrowLeaf(PoolId p) noexcept { this->m_Id = p.id; }
	bool operator==(const ThrowLeaf& o) const noexcept { return this->m_Id == o.m_Id; }
	bool operator!=(const ThrowLeaf& o) const noexcept { return this->m_Id != o.m_Id; }
};
template<int Flags>
class ThrowInst : public ThrowBase<Flags>
{
public:
	ThrowInst()
	{
		point();
		Pools& s = pools();
		this->m_Id = new_pool(s.instBytes, s.instBlocks, s.instMax);
		s.instancesLive++;
	}
	explicit ThrowInst(PoolId) : ThrowInst() {}
	ThrowInst(const ThrowInst&) = delete;
	ThrowInst& operator=(const ThrowInst&) = delete;
	~ThrowInst()
	{
		Pools& s = pools();
		Pool& p = s.p[this->m_Id];
		if (p.destroyed) { fail("instance %d was destroyed twice", this->m_Id); return; }
		if (!p.area->blocks.empty()) fail("an instance with live blocks was destroyed");
		p.destroyed = true;
		s.instancesLive--;
	}
	bool operator==(const ThrowInst& o) const noexcept { return this == &o; }
	bool operator!=(const ThrowInst& o) const noexcept { return this != &o; }
};
using TL = ThrowLeaf<OWNS | MAXS>;
using TC = ThrowLeaf<OWNS | MAXS | CONS>;
struct Born : TL // creating it may throw, moving it does not
{
	Born() : TL(PoolId{ 0 }) { point(); }
	Born(PoolId p) : TL(p) { point(); }
};
using CL = ThrowLeaf<OWNS | MAXS | CALM>;
using CC = ThrowLeaf<OWNS | MAXS | CONS | CALM | STEADY>;
using SC = ThrowLeaf<OWNS | MAXS | CONS | STEADY>;
using TI = ThrowInst<OWNS | MAXS>;
using TIN = ThrowInst<OWNS>;
using TIC = ThrowInst<OWNS | MAXS | CONS>;

// ---- objects ------------------------------------------------------------------------------------------------------
inline std::set<const void*>& things() { static std::set<const void*> s; return s; }
template<bool Quiet>
struct Object
{
	int v, w;
	Object(int v) noexcept(Quiet) : v(v), w(~v) { if (!Quiet) point(); things().insert(this); }
	Object(const Object&) = delete;
	~Object() { if (!things().erase(this)) fail("an object was destroyed that does not exist"); }
};
using Loud = Object<false>;
using Mute = Object<true>;

template<class A, class T, class = void> struct Constructs : std::false_type {};
template<class A, class T> struct Constructs<A, T, std::void_t<decltype(std::declval<A&>().construct(std::declval<T*>(), 1))>> : std::true_type {};
template<class A, class T, class = void> struct Destroys : std::false_type {};
template<class A, class T> struct Destroys<A, T, std::void_t<decltype(std::declval<A&>().destroy(std::declval<T*>()))>> : std::true_type {};

// ---- histories ----------------------------------------------------------------------------------------------------
// X sees everything, Y only what does not throw; they must not differ.
template<class C>
class ThrowSys : public System
{
public:
	using A = typename C::A;
	enum { ALLOC = 1, FREE, CONSTRUCT, DESTROY };
	struct Pair { char* x; char* y; size_t n; int object; }; // object: 0 none, 1 loud, 2 mute
	std::vector<size_t> sizes;
	size_t maxLive;
	int masks, idle; // idle: how many instances without blocks may exist
	std::unique_ptr<C> x, y;
	std::vector<Pair> live;
	int thrown = 0, serial = 0;
	ThrowSys(std::vector<size_t> s, size_t m, int masks, int idle) : sizes(std::move(s)), maxLive(m), masks(masks), idle(idle) {}
	~ThrowSys() { if (failed()) { x.release(); y.release(); } }
	void start() override
	{
		plan() = Plan();
		things().clear();
		pools().strict = true;
		pools().split = true;
		world().onReset = reset_pools;
		world().side = 0; x = std::make_unique<C>();
		world().side = 1; y = std::make_unique<C>();
		world().side = 0;
	}
	void ops(std::vector<Op>& o) const override
	{
		auto add = [&](int c, size_t a, int b, int d = 0) { Op q; q.c = int16_t(c); q.a = int16_t(a); q.b = int16_t(b); q.d = int16_t(d); o.push_back(q); };
		if (live.size() < maxLive) for (size_t i = 0; i < sizes.size(); i++) for (int m = 0; m < masks; m++) add(ALLOC, i, m);
		for (size_t i = 0; i < live.size(); i++)
		{
			if (!live[i].object) add(FREE, i, 0);
			if (live[i].object) add(DESTROY, i, 0);
			else if (Constructs<A, Loud>::value && live[i].n >= sizeof(Loud))
				for (int m = 0; m < 4; m++) { add(CONSTRUCT, i, m, 1); if (m < 2) add(CONSTRUCT, i, m, 2); }
		}
	}
	std::string describe(const Op& o) const override
	{
		std::string s, b = "block #" + std::to_string(o.a);
		switch (o.c)
		{
		case ALLOC: s = "allocate(" + std::to_string(sizes[size_t(o.a)]) + ")"; break;
		case FREE: return "deallocate(" + b + ")";
		case DESTROY: return "destroy(object in " + b + ")";
		default: s = std::string("construct(") + (o.d == 1 ? "object" : "object that does not throw") + " in " + b + ")";
		}
		if (o.b) s += " with an exception at point";
		for (int i = 0; i < 4; i++) if (o.b >> i & 1) s += " " + std::to_string(i + 1);
		return s;
	}
	// Runs f with the plan armed; false if it threw
	template<class F>
	bool guarded(int mask, F f)
	{
		plan() = Plan();
		plan().mask = unsigned(mask);
		bool out = true;
		try { f(); }
		catch (const Boom& b) { out = false; if (b.serial != 1) fail("an exception was replaced by another"); }
		catch (...) { out = false; fail("another exception than the one thrown reached the caller"); }
		int n = plan().thrown;
		plan() = Plan();
		if (!failed() && out && n) fail("the exception thrown inside did not reach the caller");
		if (!failed() && !out && !n) fail("an exception reached the caller although nothing threw");
		if (!out) thrown++;
		return out;
	}
	void fill(char* p, size_t n, size_t from = 0) { for (size_t i = from; i < n; i++) p[i] = char(pat(p, n, i)); }
	void release(Pair b)
	{
		memset(b.x, 0, b.n);
		memset(b.y, 0, b.n);
		world().side = 0; x->get().deallocate(b.x, b.n);
		world().side = 1; y->get().deallocate(b.y, b.n);
		world().side = 0;
	}
	template<class T> void build(A& a, char* p, int v) { if constexpr (Constructs<A, T>::value) a.construct(reinterpret_cast<T*>(p), v); }
	template<class T> void wreck(A& a, char* p)
	{
		if constexpr (Destroys<A, T>::value) a.destroy(reinterpret_cast<T*>(p));
		else reinterpret_cast<T*>(p)->~T();
	}
	void drop(Pair& b)
	{
		if (b.object == 1) { wreck<Loud>(x->get(), b.x); wreck<Loud>(y->get(), b.y); }
		else { wreck<Mute>(x->get(), b.x); wreck<Mute>(y->get(), b.y); }
		if (things().count(b.x) || things().count(b.y)) fail("destroy() did not destroy the object");
		b.object = 0;
		fill(b.x, b.n);
		fill(b.y, b.n);
	}
	void apply(const Op& o, bool) override
	{
		switch (o.c)
		{
		case ALLOC:
		{
			size_t n = sizes[size_t(o.a)];
			char* p = nullptr;
			if (!guarded(o.b, [&] { p = static_cast<char*>(x->get().allocate(n)); }) || failed()) return;
			world().side = 1;
			char* q = static_cast<char*>(y->get().allocate(n));
			world().side = 0;
			if (!p != !q) { fail("allocate(%zu) %s after %d exceptions, but %s if what threw is never asked for", n, p ? "succeeds" : "fails", thrown, p ? "fails" : "succeeds"); return; }
			if (!p) return;
			if (!world().covers(p, n) || !world().covers(q, n)) { fail("allocate(%zu) returned something that is not a block of that size", n); return; }
			for (auto& b : live) if (b.x < p + n && p < b.x + b.n) { fail("allocate(%zu) returned a block that overlaps a live one", n); return; }
			fill(p, n);
			fill(q, n);
			live.push_back(Pair{ p, q, n, 0 });
			return;
		}
		case FREE: { Pair b = live[size_t(o.a)]; live.erase(live.begin() + o.a); release(b); return; }
		case DESTROY: drop(live[size_t(o.a)]); return;
		default:
		{
			Pair& b = live[size_t(o.a)];
			int v = ++serial;
			auto at = [&](A& a, char* p) { if (o.d == 1) build<Loud>(a, p, v); else build<Mute>(a, p, v); };
			bool ok = guarded(o.b, [&] { at(x->get(), b.x); });
			if (failed()) return;
			if (things().count(b.x) != size_t(ok)) { fail(ok ? "construct() did not construct the object" : "an object exists although its construction threw"); return; }
			if (!ok) { fill(b.x, b.n); return; }
			at(y->get(), b.y);
			b.object = o.d;
			if (reinterpret_cast<Loud*>(b.x)->v != v || reinterpret_cast<Loud*>(b.x)->w != ~v) fail("the object was constructed from other arguments");
			reinterpret_cast<Loud*>(b.x)->v = reinterpret_cast<Loud*>(b.y)->v = 1; // not part of the state
			reinterpret_cast<Loud*>(b.x)->w = reinterpret_cast<Loud*>(b.y)->w = 1;
		}
		}
	}
	void check() override
	{
		for (auto& b : live)
			for (size_t i = b.object ? sizeof(Loud) : 0; i < b.n; i++)
				if (static_cast<unsigned char>(b.x[i]) != pat(b.x, b.n, i)) { fail("byte %zu of the live block %p (%zu bytes) changed", i, (void*)b.x, b.n); return; }
		if constexpr (has_owns<A>)
			for (auto& b : live)
				if (!x->get().owns(b.x) || !x->get().owns(b.x + b.n - 1)) { fail("a live block is no longer owned"); return; }
		if constexpr (has_max<A>)
			if (x->get().max_size() != y->get().max_size()) { fail("max_size() changed by an exception"); return; }
		std::string dx = x->diagnostics(), dy = y->diagnostics();
		if (dx != dy) { fail("the diagnostics differ: '%s' and, without what threw, '%s'", dx.c_str(), dy.c_str()); return; }
		if (idle)
		{
			int empty = 0;
			for (int i = 0; i < pools().used; i += 2)
				if (pools().p[i].inUse && !pools().p[i].destroyed && pools().p[i].area->blocks.empty()) empty++;
			if (empty > idle) fail("%d instances without live blocks exist", empty);
		}
	}
	void key(Hash& h) override
	{
		for (auto& b : live) { h.word(uint64_t(uintptr_t(b.x))); h.word(uint64_t(uintptr_t(b.y))); h.word(b.n); h.word(uint64_t(b.object)); }
		h.word(thrown != 0);
		x->key(h); y->key(h);
		world().key(h);
	}
	void finish() override
	{
		for (auto& b : live) if (b.object && !failed()) drop(b);
		while (!live.empty() && !failed()) { Pair b = live.back(); live.pop_back(); release(b); }
		if (failed()) return;
		world().side = 0; x->destroy();
		world().side = 1; y->destroy();
		world().side = 0;
		if (failed()) return;
		if (!x->diagnostics().empty()) { fail("the final diagnostics are '%s' although everything was released", x->diagnostics().c_str()); return; }
		if (!world().sys.blocks.empty()) fail("%zu system blocks were never given back", world().sys.blocks.size());
		else if (pools().instancesLive) fail("%d instances were never destroyed", pools().instancesLive);
		else if (pools_live()) fail("%zu blocks of the parts were never given back", pools_live());
		else if (!things().empty()) fail("%zu objects were never destroyed", things().size());
	}
};

// ---- compositions -------------------------------------------------------------------------------------------------
template<class T, int Pools, size_t HardMax, int Blocks = 2, size_t Bytes = 64>
struct Of : SpecBase
{
	using type = T;
	static constexpr int pools = Pools;
	static constexpr size_t hardMax = HardMax;
	static size_t blocks(int) { return size_t(Blocks); }
	static size_t bytes(int) { return Bytes; }
	static size_t maxBlock(int) { return Bytes; }
	static type* make(void* m, std::vector<int>& i, Text&)
	{
		if constexpr (Pools == 0) return ::new (m) type();
		else if constexpr (Pools == 1) return ::new (m) type(PoolId{ i[0] });
		else return ::new (m) type(PoolId{ i[0] }, PoolId{ i[1] });
	}
};
template<class T, int Pools, size_t HardMax>
struct OfOver : Of<T, Pools, HardMax, 3, 1024>
{
	static T* make(void* m, std::vector<int>& i, Text& t) { if constexpr (Pools) return ::new (m) T(t, PoolId{ i[0] }); else return ::new (m) T(t); }
};
struct ThrowFallback3 : Of<fallback<TC, fallback<TL, TC>>, 3, 64, 1>
{
	static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(std::tuple<PoolId>(PoolId{ i[0] }), std::tuple<PoolId, PoolId>(PoolId{ i[1] }, PoolId{ i[2] })); }
};
struct ThrowNest : Of<segragator<16, fallback<freelist<0, 16, TC>, TC>, fallback<TL, TC>>, 4, 64, 1>
{
	static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(std::tuple<PoolId, PoolId>(PoolId{ i[0] }, PoolId{ i[1] }), std::tuple<PoolId, PoolId>(PoolId{ i[2] }, PoolId{ i[3] })); }
};
struct ThrowCascFallback : Of<fallback<cascading<TI>, TC>, 1, 64>
{
	static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(std::tuple<>(), std::tuple<PoolId>(PoolId{ i[0] })); }
};
template<class T, int Pools, size_t HardMax>
struct RefOf : Of<T, Pools, HardMax> {};
template<class Spec>
struct Behind // a reference to the composition
{
	using A = ktl::reference<typename Spec::type>;
	static constexpr size_t hardMax = Spec::hardMax;
	Probed<Spec> target;
	Obj<A> a;
	Behind() { a.make(target.get()); }
	A& get() { return *a; }
	void destroy() { a.destroy(); target.destroy(); }
	void key(Hash& h) { target.key(h); }
	std::string diagnostics() { return target.diagnostics(); }
};
// the static allocator behind global handles; one for each of the twins
template<class A, int Side> struct Late : A { Late() : A(PoolId{ 0 }) {} explicit Late(PoolId p) : A(p) {} };
template<class A>
struct GlobalView
{
	template<int Side> using G = ktl::global<Late<A, Side>>;
	int side;
	explicit GlobalView(PoolId p) : side(world().side) { if (side) rebuild<1>(p); else rebuild<0>(p); }
	template<int Side> static void rebuild(PoolId p)
	{
		using L = Late<A, Side>;
		L& t = G<Side>().get_allocator();
		t.~L();
		memset(static_cast<void*>(&t), 0, sizeof t);
		::new (static_cast<void*>(&t)) L(p);
	}
	void* allocate(size_t n) { return side ? G<1>().allocate(n) : G<0>().allocate(n); }
	void deallocate(void* p, size_t n) { if (side) G<1>().deallocate(p, n); else G<0>().deallocate(p, n); }
	size_t max_size() const { return side ? G<1>().max_size() : G<0>().max_size(); }
	bool owns(void* p) const { return side ? G<1>().owns(p) : G<0>().owns(p); }
	template<class T> void construct(T* p, int v) { if (side) G<1>().construct(p, v); else G<0>().construct(p, v); }
	template<class T> void destroy(T* p) { if (side) G<1>().destroy(p); else G<0>().destroy(p); }
};
template<class W>
struct TypedView // a typed allocator seen as an untyped one
{
	template<class T> using TA = ktl::type_allocator<T, W>;
	TA<uint64_t> t;
	explicit TypedView(PoolId p) : t(p) {}
	void* allocate(size_t n) { return t.allocate((n + 7) / 8); }
	void deallocate(void* p, size_t n) { t.deallocate(static_cast<uint64_t*>(p), (n + 7) / 8); }
	size_t max_size() const { return t.max_size() * 8; }
	bool owns(void* p) const { return t.owns(static_cast<uint64_t*>(p)); }
	template<class T> void construct(T* p, int v) { TA<T> x(t); x.construct(p, v); }
	template<class T> void destroy(T* p) { TA<T> x(t); x.destroy(p); }
};

template<bool Mine, class C>
static void suite(const char* name, size_t live, std::vector<size_t> sizes, int masks = 4, int idle = 0)
{
	if constexpr (Mine)
	{
		if (thorough()) live++;
		Bounds b;
		b.dfs = thorough() ? 4 : 3;
		b.depth = thorough() ? 14 : 10;
		b.maxStates = thorough() ? 200000 : 8000;
		add(name, b, [=]() -> System* { return new ThrowSys<C>(sizes, live, masks, idle); });
	}
}

// ---- creation -----------------------------------------------------------------------------------------------------
template<class T> T* by_default(void* p) { return ::new (p) T(); }
template<class T> T* by_argument(void* p) { return ::new (p) T(PoolId{ 0 }); }
template<class T> T* by_two(void* p) { return ::new (p) T(PoolId{ 0 }, PoolId{ 1 }); }
template<class T> T* by_tuple(void* p) { return ::new (p) T(std::tuple<PoolId>(PoolId{ 0 })); }
template<class T> T* by_two_tuples(void* p) { return ::new (p) T(std::tuple<PoolId>(PoolId{ 0 }), std::tuple<>()); }
template<class T> T* with_text(void* p) { static Text t; return ::new (p) T(t); }
template<class T> T* with_text_argument(void* p) { static Text t; return ::new (p) T(t, PoolId{ 0 }); }
template<bool Mine, class T>
static void creation(const char* name, int points, std::vector<T* (*)(void*)> forms = { by_default<T>, by_argument<T> })
{
	if constexpr (Mine)
		add_cases(std::string("creating ") + name, [=](Cases& e)
		{
			for (size_t form = 0; form < forms.size(); form++)
				for (int m = 0; m < 1 << points; m++)
				{
					if (!e.next("%s, constructor %zu, exceptions at points %d", name, form, m)) continue;
					world().onReset = reset_pools;
					reset_pools();
					pools().instBytes = pools().instMax = 1024;
					pools().instBlocks = 2;
					for (int i = 0; i < 2; i++) new_pool(1024, 2, 1024); // for parts that only refer to one
					for (int round = 0; round < 2 && !failed(); round++)
					{
						plan() = Plan();
						plan().mask = round ? 0 : unsigned(m);
						Obj<T> t;
						bool ok = true;
						try { t.make_with([&](void* p) { return forms[form](p); }); }
						catch (const Boom&) { ok = false; }
						int n = plan().thrown;
						plan() = Plan();
						e.step();
						if (failed()) break;
						if (ok == (n > 0)) { fail(ok ? "the exception of a constructor did not reach the caller" : "an exception reached the caller although nothing threw"); break; }
						if (ok)
						{
							auto p = t->allocate(16);
							if (!p) { fail("allocate(16) failed"); break; }
							t->deallocate(p, 16);
							t.destroy();
						}
						if (failed()) break;
						if (world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
						else if (pools().instancesLive) fail("%d instances were never destroyed", pools().instancesLive);
					}
					if (!e.ok()) return;
				}
		});
}

MC_SUITES
{
	suite<MC_MINE, Probed<Of<fallback<TC, TC>, 2, 64>>>("fallback<T,T>", 4, { 16, 40, 65 });
	suite<MC_MINE, Probed<Of<fallback<TC, TL>, 2, 64>>>("fallback<T,T without customisation>", 4, { 16, 40, 65 });
	suite<MC_MINE, Probed<Of<fallback<TL, TC>, 2, 64>>>("fallback<T without customisation,T>", 4, { 16, 40, 65 });
	suite<MC_MINE, Probed<ThrowFallback3>>("fallback<T,fallback<T,T>>", 3, { 16, 40, 65 }, 8);
	suite<MC_MINE, Probed<Of<segragator<16, TC, TC>, 2, 64>>>("segragator<16,T,T>", 4, { 16, 17, 40 }, 2);
	suite<MC_MINE, Probed<Of<segragator<16, TL, TC>, 2, 64>>>("segragator<16,T without customisation,T>", 4, { 16, 17, 40 }, 2);
	// parts that promise not to throw next to parts that do
	suite<MC_MINE, Probed<Of<fallback<CL, TC>, 2, 64>>>("fallback<calm,T>", 4, { 16, 40, 65 });
	suite<MC_MINE, Probed<Of<fallback<TC, CL>, 2, 64>>>("fallback<T,calm>", 4, { 16, 40, 65 });
	suite<MC_MINE, Probed<Of<fallback<CC, TC>, 2, 64>>>("fallback<calm T,T>", 4, { 16, 40, 65 });
	suite<MC_MINE, Probed<Of<fallback<TC, CC>, 2, 64>>>("fallback<T,calm T>", 4, { 16, 40, 65 });
	suite<MC_MINE, Probed<Of<segragator<16, CC, TC>, 2, 64>>>("segragator<16,calm T,T>", 4, { 16, 17, 40 }, 2);
	suite<MC_MINE, Probed<Of<segragator<16, TC, CC>, 2, 64>>>("segragator<16,T,calm T>", 4, { 16, 17, 40 }, 2);
	suite<MC_MINE, Probed<Of<segragator<16, SC, CL>, 2, 64>>>("segragator<16,steady T,calm>", 4, { 16, 17, 40 }, 2);
	suite<MC_MINE, Probed<Of<freelist<0, 16, SC>, 1, 16, 3>>>("freelist<0,16,steady T>", 3, { 8, 16, 17 }, 2);
	suite<MC_MINE, Probed<Of<freelist<0, 16, CC>, 1, 16, 3>>>("freelist<0,16,calm T>", 3, { 8, 16, 17 }, 2);
	suite<MC_MINE, Probed<Of<shared<CC>, 1, 64>>>("shared<calm T>", 3, { 16, 40, 65 }, 2);
	suite<MC_MINE, Probed<Of<threaded<CC>, 1, 64>>>("threaded<calm T>", 3, { 16, 40, 65 }, 2);
	suite<MC_MINE, Probed<Of<cascading<ThrowInst<OWNS | MAXS | CONS | CALM | STEADY>>, 0, 64>>>("cascading<calm T>", 4, { 16, 40, 65 }, 8, 1);
	suite<MC_MINE, Probed<OfOver<overflow<CC, Text>, 1, 64>>>("overflow<calm T>", 3, { 8, 16, 64 }, 2);
	suite<MC_MINE, Behind<Of<fallback<CC, TC>, 2, 64>>>("reference<fallback<calm T,T>>", 3, { 16, 40 });
	suite<MC_MINE, Probed<Of<TypedView<shared<CC>>, 1, 64>>>("type_allocator<shared<calm T>>", 3, { 16, 40, 72 }, 2);
	suite<MC_MINE, Probed<Of<freelist<0, 16, TC>, 1, 16, 3>>>("freelist<0,16,T>", 4, { 8, 16, 17 }, 2);
	suite<MC_MINE, Probed<Of<freelist<16, 40, TC>, 1, 40, 3, 160>>>("freelist<16,40,T>", 4, { 16, 17, 40 }, 2);
	suite<MC_MINE, Probed<Of<cascading<TIC>, 0, 64>>>("cascading<T>", 5, { 16, 40, 65 }, 8, 1);
	suite<MC_MINE, Probed<Of<cascading<TIN>, 0, 64>>>("cascading<T without max_size>", 5, { 16, 40, 65 }, 8, 1);
	suite<MC_MINE, Probed<Of<cascading<freelist<0, 16, TIC>>, 0, 16>>>("cascading<freelist<0,16,T>>", 4, { 8, 16, 17 }, 8);
	suite<MC_MINE, Probed<Of<freelist<0, 16, cascading<TIC>>, 0, 16>>>("freelist<0,16,cascading<T>>", 4, { 8, 16 }, 8);
	suite<MC_MINE, Probed<Of<cascading<cascading<TI>>, 0, 64>>>("cascading<cascading<T>>", 4, { 16, 40 }, 16);
	suite<MC_MINE, Probed<ThrowCascFallback>>("fallback<cascading<T>,T>", 4, { 16, 40, 64 }, 8);
	suite<MC_MINE, Probed<OfOver<overflow<TC, Text>, 1, 64>>>("overflow<T>", 3, { 8, 16, 64 }, 2);
	suite<MC_MINE, Probed<OfOver<overflow<TL, Text>, 1, 64>>>("overflow<T without customisation>", 3, { 8, 16, 64 }, 2);
	suite<MC_MINE, Probed<OfOver<freelist<0, 16, overflow<TC, Text>>, 1, 16>>>("freelist<0,16,overflow<T>>", 3, { 8, 16 }, 2);
	suite<MC_MINE, Probed<OfOver<overflow<freelist<0, 256, TC>, Text>, 1, 64>>>("overflow<freelist<0,256,T>>", 3, { 8, 16, 64 }, 2);
	suite<MC_MINE, Probed<Of<shared<TC>, 1, 64>>>("shared<T>", 3, { 16, 40, 65 }, 2);
	suite<MC_MINE, Probed<Of<shared<cascading<TIC>>, 0, 64>>>("shared<cascading<T>>", 4, { 16, 40 }, 8, 1);
	suite<MC_MINE, Probed<Of<threaded<TC>, 1, 64>>>("threaded<T>", 3, { 16, 40, 65 }, 2);
	suite<MC_MINE, Probed<Of<atomic_shared<threaded<freelist<0, 16, TC>>>, 1, 16, 3>>>("atomic_shared<threaded<freelist<0,16,T>>>", 4, { 8, 16, 17 }, 2);
	suite<MC_MINE, Probed<Of<threaded<cascading<TIC>>, 0, 64>>>("threaded<cascading<T>>", 4, { 16, 40 }, 8, 1);
	suite<MC_MINE, Behind<Of<fallback<TC, TC>, 2, 64>>>("reference<fallback<T,T>>", 3, { 16, 40 });
	suite<MC_MINE, Probed<Of<TypedView<shared<TC>>, 1, 64>>>("type_allocator<shared<T>>", 3, { 16, 40, 72 }, 2);
	suite<MC_MINE, Probed<Of<GlobalView<TC>, 1, 64>>>("global<T>", 3, { 16, 40, 65 }, 2);
	suite<MC_MINE, Probed<Of<GlobalView<CC>, 1, 64>>>("global<calm T>", 3, { 16, 40, 65 }, 2);
	suite<MC_MINE, Probed<Of<GlobalView<threaded<TC>>, 1, 64>>>("global<threaded<T>>", 3, { 16, 40, 65 }, 2);
	suite<MC_MINE, Probed<ThrowNest>>("segragator<16,fallback<freelist,T>,fallback<T,T>>", 3, { 16, 17, 40 });

	creation<MC_MINE, shared<TI>>("shared<T>", 1);
	creation<MC_MINE, atomic_shared<TI>>("atomic_shared<T>", 1);
	creation<MC_MINE, atomic_shared<threaded<freelist<0, 16, TI>>>>("atomic_shared<threaded<freelist<0,16,T>>>", 1);
	creation<MC_MINE, threaded<TI>>("threaded<T>", 1);
	using F1 = fallback<TI, TI>;
	using S1 = segragator<16, TI, TI>;
	creation<MC_MINE, F1>("fallback<T,T>", 2, { by_default<F1>, by_argument<F1>, by_two<F1> });
	creation<MC_MINE, S1>("segragator<16,T,T>", 2, { by_default<S1>, by_two<S1> });
	using F2 = fallback<Born, Born>;
	using S2 = segragator<16, Born, Born>;
	using H2 = shared<fallback<Born, Born>>;
	creation<MC_MINE, F2>("fallback<movable T,T>", 2, { by_default<F2>, by_argument<F2>, by_two<F2>, by_tuple<F2>, by_two_tuples<F2> });
	creation<MC_MINE, S2>("segragator<16,movable T,T>", 2, { by_default<S2>, by_two<S2>, by_tuple<S2>, by_two_tuples<S2> });
	creation<MC_MINE, H2>("shared<fallback<movable T,T>>", 2, { by_default<H2>, by_argument<H2>, by_two<H2>, by_tuple<H2>, by_two_tuples<H2> });
	creation<MC_MINE, freelist<0, 16, TI>>("freelist<0,16,T>", 1);
	using O2 = overflow<TI, Text>;
	using G2 = shared<O2>;
	creation<MC_MINE, O2>("overflow<T>", 1, { with_text<O2>, with_text_argument<O2> });
	creation<MC_MINE, G2>("shared<overflow<T>>", 1, { with_text<G2>, with_text_argument<G2> });
	creation<MC_MINE, ktl::type_allocator<char, shared<TI>>>("type_allocator<shared<T>>", 1);
}
