// PARTS: 6
#include "allocsys.h"
#include "scalealloc.h"
using namespace mc;
using namespace conf;

template<bool Mine, class C>
static void suite(const char* name, size_t live, std::vector<size_t> sizes)
{
	if constexpr (Mine)
	{
		AllocParams p{ sizes, thorough() ? live + 1 : live };
		add(name, alloc_bounds(sizes.size()), [p]() -> System* { return new AllocSys<C, OWNED>(p); });
	}
}

// ---- allocators side by side, with the edges of their storage ------------------------------------------------------
// Spec: type, K allocators in one object, N bytes of storage each
template<class Spec>
class EdgeSys : public System
{
public:
	using A = typename Spec::type;
	static constexpr size_t N = Spec::size;
	enum { ALLOC = 1, FREE };
	struct B { char* p; size_t n; int at; };
	std::vector<size_t> sizes;
	size_t maxLive, shift;
	Obj<typename Spec::Holder> h;
	std::vector<B> live;
	char* base[3] = {};
	EdgeSys(std::vector<size_t> z, size_t m, size_t sh) : sizes(std::move(z)), maxLive(m), shift(sh) {}
	void start() override
	{
		world().objShift = shift;
		h.make();
		for (int i = 0; i < 3; i++)
		{
			base[i] = static_cast<char*>(h->at(i).allocate(1));
			if (!base[i]) { fail("a fresh allocator of %zu bytes refused one byte", N); return; }
			h->at(i).deallocate(base[i], 1);
		}
	}
	void ops(std::vector<Op>& o) const override
	{
		Op x;
		if (live.size() < maxLive)
			for (int i = 0; i < 3; i++) for (size_t k = 0; k < sizes.size(); k++) { x.c = ALLOC; x.a = int16_t(i); x.b = int16_t(k); o.push_back(x); }
		for (size_t i = 0; i < live.size(); i++) { x.c = FREE; x.a = int16_t(i); x.b = 0; o.push_back(x); }
	}
	std::string describe(const Op& o) const override
	{
		return o.c == ALLOC ? "allocator " + std::to_string(o.a) + ": allocate(" + std::to_string(sizes[size_t(o.b)]) + ")" : "deallocate(block #" + std::to_string(o.a) + " by address)";
	}
	void apply(const Op& o, bool) override
	{
		if (o.c == FREE)
		{
			B b = live[size_t(o.a)];
			live.erase(live.begin() + o.a);
			h->at(b.at).deallocate(b.p, b.n);
			return;
		}
		B b{ nullptr, sizes[size_t(o.b)], o.a };
		b.p = static_cast<char*>(h->at(o.a).allocate(b.n));
		if (!b.p) return;
		size_t i = 0;
		while (i < live.size() && live[i].p < b.p) i++;
		live.insert(live.begin() + long(i), b);
	}
	void check() override
	{
		for (int i = 0; i < 3 && !failed(); i++)
		{
			const A& a = h->at(i);
			for (auto& b : live)
				for (size_t k = 0; k < b.n; k++)
					if (a.owns(b.p + k) != (b.at == i)) { fail("owns() of allocator %d is %d for byte %zu of a live block of allocator %d", i, int(b.at != i), k, b.at); return; }
			for (char* q : { base[i] - 1, base[i] - 2, base[i] - 16, base[i] + N, base[i] + N + 1, base[i] + N + 15, base[i] + N + 64 })
				if (a.owns(q)) { fail("owns() claims the byte at offset %ld of a storage of %zu bytes", long(q - base[i]), N); return; }
		}
	}
	void key(Hash& k) override
	{
		for (auto& b : live) { k.word(uint64_t(reinterpret_cast<uintptr_t>(b.p))); k.word(b.n); k.word(uint64_t(b.at)); }
		world().key(k);
	}
	void finish() override
	{
		while (!live.empty()) { Op o; o.c = FREE; o.a = int16_t(live.size() - 1); apply(o, false); }
		h.destroy();
	}
};
template<class T, size_t S> struct Row
{
	using type = T;
	static constexpr size_t size = S;
	struct Holder { T a[3]; T& at(int i) { return a[i]; } };
};
template<class Mk, size_t S> struct StackRow
{
	using type = typename Mk::type;
	static constexpr size_t size = S;
	struct Holder { ktl::stack<S> s[3]; type a[3] = { type(s[0]), type(s[1]), type(s[2]) }; type& at(int i) { return a[i]; } };
};
template<class T> struct As { using type = T; };
template<bool Mine, class Spec>
static void edges(const char* name, std::vector<size_t> sizes)
{
	if constexpr (Mine)
		for (size_t shift : { size_t(0), size_t(16) })
		{
			Bounds b;
			b.dfs = thorough() ? 4 : 3;
			b.depth = thorough() ? 18 : 9;
			b.maxStates = thorough() ? 200000 : 6000;
			size_t live = thorough() ? 6 : 4;
			add(name + (shift ? std::string(" at 16 modulo 64") : std::string()), b, [sizes, live, shift]() -> System* { return new EdgeSys<Spec>(sizes, live, shift); });
		}
}

template<bool Mine, class A>
static void many(const char* name)
{
	if constexpr (Mine) add_cases(std::string("at scale, ") + name, [name](Cases& e) { scale::blocks<A>(e, name); });
}

MC_SUITES
{
	edges<MC_MINE, Row<linear_allocator<16>, 16>>("3 x linear<16>", { 1, 16 });
	edges<MC_MINE, Row<linear_allocator<24>, 24>>("3 x linear<24>", { 1, 16, 24 });
	edges<MC_MINE, Row<linear_allocator<40>, 40>>("3 x linear<40>", { 1, 16, 24, 40 });
	edges<MC_MINE, Row<linear_allocator<64>, 64>>("3 x linear<64>", { 1, 32, 64 });
	edges<MC_MINE, Row<linear_allocator<256>, 256>>("3 x linear<256>", { 1, 240, 256 });
	edges<MC_MINE, Row<linear_allocator<4096>, 4096>>("3 x linear<4096>", { 1, 4080, 4096 });
	edges<MC_MINE, StackRow<As<ktl::stack_allocator<16>>, 16>>("3 x stack<16>", { 1, 16 });
	edges<MC_MINE, StackRow<As<ktl::stack_allocator<40>>, 40>>("3 x stack<40>", { 1, 16, 24, 40 });
	edges<MC_MINE, StackRow<As<ktl::stack_allocator<64>>, 64>>("3 x stack<64>", { 1, 32, 64 });
	edges<MC_MINE, StackRow<As<shared<ktl::stack_allocator<48>>>, 48>>("3 x shared<stack<48>>", { 1, 17, 48 });
	edges<MC_MINE, StackRow<As<freelist<0, 16, ktl::stack_allocator<48>>>, 48>>("3 x freelist<0,16,stack<48>>", { 1, 16 });
	edges<MC_MINE, Row<shared<linear_allocator<40>>, 40>>("3 x shared<linear<40>>", { 1, 17, 40 });
	edges<MC_MINE, Row<threaded<linear_allocator<40>>, 40>>("3 x threaded<linear<40>>", { 1, 17, 40 });
	edges<MC_MINE, Row<freelist<0, 16, linear_allocator<40>>, 40>>("3 x freelist<0,16,linear<40>>", { 1, 16 });
	edges<MC_MINE, Row<fallback<null_allocator, linear_allocator<40>>, 40>>("3 x fallback<null,linear<40>>", { 1, 17, 40 });
#define X(name, C, live, sizes) suite<MC_MINE, typename strip<void C>::type>(name, live, std::vector<size_t>{ MC_UNPAREN sizes });
	KTL_REAL_CONFS(X)
	KTL_PROBED_CONFS(X)
	many<MC_MINE, linear_allocator<(1 << 24)>>("linear");
	many<MC_MINE, cascading<linear_allocator<65536>>>("cascading<linear<65536>>");
	many<MC_MINE, fallback<linear_allocator<66000>, cascading<freelist<0, 64, linear_allocator<70000>>>>>("fallback<linear<66000>,cascading<freelist<linear>>>");
	many<MC_MINE, segragator<32, freelist<0, 32, linear_allocator<(1 << 22)>>, linear_allocator<(1 << 24)>>>("segragator<32,freelist<linear>,linear>");
	many<MC_MINE, shared<threaded<linear_allocator<(1 << 24)>>>>("shared<threaded<linear>>");
	constexpr size_t G = (size_t(1) << 32) + 64;
	if constexpr (MC_MINE) add_cases("linear_allocator<2^32+64>", [](Cases& e) { scale::bigBump<linear_allocator<G>, G>(e, 3); });
	if constexpr (MC_MINE) add_cases("stack_allocator<2^32+64>", [](Cases& e) { scale::bigBump<ktl::stack_allocator<G>, G>(e, 3); });
}
