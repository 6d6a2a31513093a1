// PARTS: 6
// Bump allocators against the reference model: a top that moves back over the most recent block only.
#include "allocsys.h"
#include "scalealloc.h"
using namespace mc;
using namespace conf;

struct BumpModel
{
	struct B { size_t off, len, n; char* p; };
	size_t cap, top = 0;
	std::vector<B> live; // in order of allocation
	static size_t round(size_t n) { return (n + 15) / 16 * 16; }
	bool fits(size_t n) const { return n <= cap && round(n) <= cap - top; }
	void alloc(size_t n, char* p) { live.push_back(B{ top, round(n), n, p }); top += round(n); }
	void free(size_t i)
	{
		B b = live[i];
		live.erase(live.begin() + long(i));
		if (b.off + b.len == top) top = b.off;
		if (live.empty()) top = 0;
	}
	size_t largest() const { return cap < top ? 0 : (cap - top) / 16 * 16; } // largest size that fits
};

template<class C, size_t N>
class BumpSys : public System
{
public:
	AllocParams prm;
	std::unique_ptr<C> c;
	BumpModel m;
	bool full; // frees oldest first at the end instead of newest first
	explicit BumpSys(const AllocParams& p, bool oldest) : prm(p), full(oldest) { m.cap = N; }
	~BumpSys() { if (failed()) c.release(); }
	void start() override { c = std::make_unique<C>(); }
	void ops(std::vector<Op>& o) const override
	{
		Op q;
		if (m.live.size() < prm.maxLive)
			for (size_t i = 0; i < prm.sizes.size(); i++) { q.c = 1; q.a = int16_t(i); o.push_back(q); }
		for (size_t i = 0; i < m.live.size(); i++) { q.c = 2; q.a = int16_t(i); o.push_back(q); }
	}
	Tide script;
	bool tide(size_t w) override { return script.select(w, prm.sizes.size(), thorough() ? std::vector<size_t>{ 40, 300 } : std::vector<size_t>{ 20, 270 }); }
	bool wave(Op& o) override
	{
		int k = script.next(m.live.size());
		if (k == Tide::END) return false;
		o = Op();
		o.c = k >= 0 ? 1 : 2;
		o.a = int16_t(k >= 0 ? k : -1 - k);
		return true;
	}
	std::string describe(const Op& o) const override
	{
		if (o.c == 1) return "allocate(" + std::to_string(prm.sizes[size_t(o.a)]) + ")";
		return "deallocate(live block #" + std::to_string(o.a) + " in order of allocation)";
	}
	char* request(size_t n)
	{
		bool fits = m.fits(n);
		char* p = static_cast<char*>(c->get().allocate(n));
		if (!p && fits) fail("allocate(%zu) failed although %zu of %zu bytes lie behind the blocks still held", n, m.cap - m.top, m.cap);
		if (p && !fits) fail("allocate(%zu) succeeded although only %zu of %zu bytes lie behind the blocks still held", n, m.cap < m.top ? 0 : m.cap - m.top, m.cap);
		return failed() ? nullptr : p;
	}
	void release(size_t i)
	{
		char* p = m.live[i].p; size_t n = m.live[i].n;
		memset(p, 0, n);
		m.free(i);
		c->get().deallocate(p, n);
	}
	void apply(const Op& o, bool) override
	{
		if (o.c == 2) { release(size_t(o.a)); return; }
		size_t n = prm.sizes[size_t(o.a)];
		if (char* p = request(n)) m.alloc(n, p);
	}
	void key(Hash& h) override
	{
		h.word(m.top); h.word(m.live.size());
		for (auto& b : m.live) { h.word(b.off); h.word(b.n); h.word(uint64_t(uintptr_t(b.p))); }
		c->key(h);
		world().key(h);
	}
	// What fits in this state, exactly?
	void probe()
	{
		size_t k = m.largest();
		request(k + 1);
		if (failed() || !k) return;
		char* p = request(k);
		if (failed()) return;
		m.alloc(k, p);
		request(1);
		if (failed()) return;
		release(m.live.size() - 1);
		if (k > 16)
		{
			p = request(k - 16);
			if (failed()) return;
			m.alloc(k - 16, p);
			release(m.live.size() - 1);
		}
	}
	void finish() override
	{
		probe();
		while (!m.live.empty() && !failed())
		{
			release(full ? 0 : m.live.size() - 1);
			probe();
		}
		if (failed()) return;
		c->destroy();
	}
};

template<bool Mine, size_t N>
static void suite(std::vector<size_t> sizes, size_t live)
{
	if constexpr (Mine)
	{
		AllocParams p{ sizes, live };
		Bounds b;
		b.dfs = thorough() ? 6 : 5;
		b.depth = thorough() ? 24 : 14;
		b.maxStates = thorough() ? 600000 : 60000;
		for (bool oldest : { false, true })
		{
			std::string o = oldest ? " freed oldest first" : " freed newest first";
			add("linear<" + std::to_string(N) + ">" + o, b, [p, oldest]() -> System* { return new BumpSys<Plain<linear_allocator<N>, N>, N>(p, oldest); });
			add("stack<" + std::to_string(N) + ">" + o, b, [p, oldest]() -> System* { return new BumpSys<Stack<N, StackDirect<N>>, N>(p, oldest); });
		}
	}
}

MC_SUITES
{
	size_t t = thorough() ? 1 : 0;
	suite<MC_MINE, 1>({ 1, 2 }, 3);
	suite<MC_MINE, 15>({ 1, 15, 16 }, 3);
	suite<MC_MINE, 16>({ 1, 16, 17 }, 3);
	suite<MC_MINE, 17>({ 1, 16, 17 }, 3);
	suite<MC_MINE, 24>({ 1, 16, 17, 24, 25 }, 3);
	suite<MC_MINE, 31>({ 1, 16, 17, 31, 32 }, 3);
	suite<MC_MINE, 32>({ 1, 16, 17, 32, 33 }, 3);
	suite<MC_MINE, 40>({ 1, 16, 17, 33, 40 }, 4);
	suite<MC_MINE, 48>({ 1, 16, 17, 33 }, 4);
	suite<MC_MINE, 64>({ 1, 16, 17, 33 }, 4 + t);
	suite<MC_MINE, 80>({ 1, 16, 20, 40 }, 5 + t);
	suite<MC_MINE, 128>({ 1, 16, 48, 100 }, 4 + t);
	suite<MC_MINE, 255>({ 16, 100, 239, 240, 255 }, 3 + t);
	suite<MC_MINE, 256>({ 16, 100, 240, 255, 256 }, 3 + t);
	suite<MC_MINE, 4096>({ 16, 1000, 2048, 4080, 4096, 4097 }, 3 + t);
	suite<MC_MINE, 5000>({ 900, 2048, 4096, 4992, 5000 }, 3 + t);
	suite<MC_MINE, 65552>({ 16, 32768, 65521, 65536, 65552 }, 3);
	if constexpr (MC_MINE) add_cases("linear_allocator<65536>, sequences of requests", [](Cases& e) { scale::bigLinear<65536>(e); });
	if constexpr (MC_MINE) add_cases("linear_allocator<2^31+16>, sequences of requests", [](Cases& e) { scale::bigLinear<(size_t(1) << 31) + 16>(e); });
	if constexpr (MC_MINE) add_cases("linear_allocator<2^32+64>, sequences of requests", [](Cases& e) { scale::bigLinear<(size_t(1) << 32) + 64>(e); });
	if constexpr (MC_MINE) add_cases("linear_allocator<8 MiB>, many blocks", scale::bumpMany<linear_allocator>);
	if constexpr (MC_MINE) add_cases("stack_allocator<65536>, sequences of requests", [](Cases& e) { scale::bigStack<65536>(e); });
	if constexpr (MC_MINE) add_cases("stack_allocator<2^32+64>, sequences of requests", [](Cases& e) { scale::bigStack<(size_t(1) << 32) + 64>(e); });
	if constexpr (MC_MINE) add_cases("stack_allocator<8 MiB>, many blocks", scale::bumpMany<ktl::stack_allocator>);
}
