// PARTS: 4
// Histories of allocation, construction and failing requests on overflow-checking allocators; what does the
// destructor report?
#include "allocsys.h"
#include <sstream>
#include <sys/mman.h>
using namespace mc;
using namespace conf;

struct Acc { long long bytes = 0, objects = 0; };

static bool number(const std::string& s, const char* word, long long& out)
{
	std::string low;
	for (char c : s) low += char(tolower((unsigned char)c));
	size_t k = low.find(word);
	if (k == std::string::npos) return false;
	k += strlen(word);
	while (k < s.size() && s[k] != '\n' && !isdigit((unsigned char)s[k]) && s[k] != '-') k++;
	out = k < s.size() && s[k] != '\n' ? strtoll(s.c_str() + k, nullptr, 10) : -1;
	return true;
}
static void judge(const std::string& s, Acc a, int who)
{
	long long n;
	auto side = [&](const char* word, long long want, const char* what)
	{
		if (failed()) return;
		bool has = number(s, word, n);
		if (has != (want > 0)) fail(has ? "allocator %d reports %s although the balance is %lld (%s)" : "allocator %d does not report %s although the balance is %lld (%s)", who, what, want, s.c_str());
		else if (has && n != want) fail("allocator %d reports %lld as %s, but it is %lld", who, n, what, want);
	};
	side("allocated memory", a.bytes, "outstanding memory");
	side("too many frees", -a.bytes, "memory freed too often");
	side("too many constructor calls", a.objects, "objects not destroyed");
	side("too many destructor calls", -a.objects, "objects not constructed");
	if (!failed() && !a.bytes && !a.objects && !s.empty()) fail("allocator %d writes '%s' although everything is balanced", who, s.c_str());
}

struct Value { int v; static inline int alive = 0; Value(int x) : v(x) { alive++; } Value(const Value& o) : v(o.v) { alive++; } ~Value() { alive--; v = -1; } };

// Two allocators over the same pool, or one
struct Params { std::vector<size_t> sizes; size_t maxLive; int allocators; bool construct; };

template<class Under, class Make>
class AccSys : public System
{
public:
	using A = overflow<Under, Text>;
	enum { ALLOC = 1, FREE = 2, CONSTRUCT = 3, DESTROY = 4, RAW_DESTROY = 5 };
	struct B { char* p; size_t n; bool built; };
	Params prm;
	Obj<Text> text[2];
	Obj<A> a[2];
	Acc acc[2];
	std::vector<B> live;
	Make mk;
	explicit AccSys(const Params& p) : prm(p) {}
	void start() override
	{
		Value::alive = 0;
		world().onReset = reset_pools;
		pools().strict = true;
		mk.setup();
		for (int i = 0; i < prm.allocators; i++) { text[i].make(); a[i].make_with([&](void* m) { return mk.template make<A>(m, *text[i]); }); }
	}
	void ops(std::vector<Op>& o) const override
	{
		Op q;
		for (int s = 0; s < prm.allocators; s++)
		{
			q = Op();
			q.d = int16_t(s);
			if (live.size() < prm.maxLive) for (size_t i = 0; i < prm.sizes.size(); i++) { q.c = ALLOC; q.a = int16_t(i); o.push_back(q); }
			for (size_t i = 0; i < live.size(); i++)
			{
				q.a = int16_t(i);
				q.c = FREE; o.push_back(q);
				if (!prm.construct || live[i].n < sizeof(Value)) continue;
				q.c = live[i].built ? DESTROY : CONSTRUCT; o.push_back(q);
				if (!live[i].built) { q.c = RAW_DESTROY; o.push_back(q); }
			}
		}
	}
	std::string describe(const Op& o) const override
	{
		std::string w(1, char('x' + o.d));
		switch (o.c)
		{
		case ALLOC: return w + ".allocate(" + std::to_string(prm.sizes[size_t(o.a)]) + ")";
		case FREE: return w + ".deallocate(block #" + std::to_string(o.a) + ")";
		case CONSTRUCT: return w + ".construct(in block #" + std::to_string(o.a) + ")";
		case DESTROY: return w + ".destroy(in block #" + std::to_string(o.a) + ")";
		default: return "new object in block #" + std::to_string(o.a) + ", then " + w + ".destroy()";
		}
	}
	void apply(const Op& o, bool) override
	{
		A& x = *a[o.d];
		if (o.c == ALLOC)
		{
			size_t n = prm.sizes[size_t(o.a)];
			char* p = static_cast<char*>(x.allocate(n));
			if (!p) return;
			if (n > (size_t(1) << 20)) { fail("allocate(%zu) succeeded", n); return; }
			memset(p, 0, n);
			acc[o.d].bytes += (long long)n;
			live.push_back(B{ p, n, false });
			return;
		}
		B& b = live[size_t(o.a)];
		Value* v = reinterpret_cast<Value*>(b.p);
		int before = Value::alive;
		switch (o.c)
		{
		case FREE:
		{
			B c = b;
			live.erase(live.begin() + o.a);
			memset(c.p, 0, c.n);
			x.deallocate(c.p, c.n);
			acc[o.d].bytes -= (long long)c.n;
			break;
		}
		case CONSTRUCT:
			x.construct(v, 42);
			if (Value::alive != before + 1 || v->v != 42) fail("construct() did not construct the object");
			b.built = true;
			acc[o.d].objects++;
			break;
		case DESTROY:
			x.destroy(v);
			if (Value::alive != before - 1) fail("destroy() did not destroy the object");
			memset(b.p, 0, b.n);
			b.built = false;
			acc[o.d].objects--;
			break;
		case RAW_DESTROY:
			::new (static_cast<void*>(v)) Value(7);
			x.destroy(v);
			if (Value::alive != before) fail("destroy() did not destroy the object");
			memset(b.p, 0, b.n);
			acc[o.d].objects--;
			break;
		}
	}
	void check() override
	{
		for (int s = 0; s < prm.allocators; s++)
			if (text[s]->n) { fail("a report was written before the allocator was destroyed: %s", text[s]->s); return; }
	}
	void key(Hash& h) override
	{
		h.word(live.size());
		for (auto& b : live) { h.word(uint64_t(uintptr_t(b.p))); h.word(b.n); h.word(b.built); }
		for (auto& c : acc) { h.word(uint64_t(c.bytes)); h.word(uint64_t(c.objects)); }
		world().key(h);
	}
	void finish() override
	{
		// Destroyed as they are, with whatever is outstanding
		for (int s = 0; s < prm.allocators && !failed(); s++)
		{
			a[s].destroy();
			judge(text[s]->str(), acc[s], s);
		}
	}
};

// Hands out address space, so that amounts beyond 32 bits can be outstanding
struct Space
{
	static constexpr size_t SIZE = size_t(1) << 38;
	static char* base() { static char* p = static_cast<char*>(mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); return p; }
	size_t top = 0;
	void* allocate(size_t n)
	{
		n = (n + 4095) / 4096 * 4096;
		if (n > SIZE - top || base() == MAP_FAILED) return nullptr;
		char* p = base() + top;
		top += n;
		return p;
	}
	void deallocate(void*, size_t) {}
};

struct MakeLeaf
{
	void setup() { new_pool(4096, 3, 300); }
	template<class A> A* make(void* m, Text& t) { return ::new (m) A(t, PoolId{ 0 }); }
};
struct MakeMalloc
{
	void setup() { world().sysLimit = 400; }
	template<class A> A* make(void* m, Text& t) { return ::new (m) A(t); }
};

template<bool Mine, class Under, class Make>
static void suite(const char* name, Params p, int depth)
{
	if constexpr (Mine)
	{
		Bounds b;
		b.dfs = thorough() ? 4 : 3;
		b.depth = depth + (thorough() ? 3 : 0);
		b.maxStates = thorough() ? 600000 : 60000;
		add(name, b, [p]() -> System* { return new AccSys<Under, Make>(p); });
	}
}

MC_SUITES
{
	constexpr size_t M = ~size_t(0);
	suite<MC_MINE, L, MakeLeaf>("overflow<L>: allocations", { { 0, 1, 16, 100, 173, 200, M, M - 127, M - 128, M - 64, size_t(1) << 63 }, 4, 1, false }, 6);
	suite<MC_MINE, Leaf<OWNS | CONS>, MakeLeaf>("overflow<L with construct>: objects", { { 1, 16, 200 }, 3, 1, true }, 8);
	suite<MC_MINE, L, MakeLeaf>("2 x overflow<L> on one pool", { { 1, 16, 100, 200 }, 3, 2, false }, 6);
	suite<MC_MINE, L, MakeLeaf>("2 x overflow<L> on one pool: objects", { { 16 }, 2, 2, true }, 7);
	suite<MC_MINE, mallocator, MakeMalloc>("overflow<mallocator>", { { 0, 1, 16, 250, 300, M, M - 127, size_t(1) << 31, size_t(1) << 32 }, 3, 1, true }, 6);
	suite<MC_MINE, mallocator, MakeMalloc>("2 x overflow<mallocator>", { { 1, 16, 300 }, 3, 2, true }, 5);
	suite<MC_MINE, linear_allocator<448>, MakeMalloc>("overflow<linear<448>>", { { 0, 1, 16, 64, 320, 321, M - 127 }, 3, 1, true }, 6);
	constexpr bool mine = MC_MINE;
	if (mine)
		add_cases("overflow<mallocator, std::ostream>: balances", [](Cases& e)
		{
			// The default stream type, and large amounts: every combination of blocks left over and objects
			for (int blocks = 0; blocks <= 4; blocks++)
				for (size_t size : { size_t(0), size_t(1), size_t(255), size_t(256), size_t(65536), size_t(500000) })
					for (int objects = -3; objects <= 3; objects++)
					{
						if (!e.next("%d blocks of %zu bytes left over, %d objects left over", blocks, size, objects)) continue;
						std::ostringstream text;
						{
							Obj<overflow<mallocator>> a;
							a.make(text);
							alignas(16) char buf[sizeof(Value)];
							Value* v = reinterpret_cast<Value*>(buf);
							for (int i = 0; i < blocks; i++) if (!a->allocate(size)) fail("allocate failed");
							for (int i = 0; i < 3; i++) { void* p = a->allocate(size); if (p) a->deallocate(p, size); }
							for (int i = 0; i < objects; i++) { a->construct(v, 1); v->~Value(); }
							for (int i = 0; i > objects; i--) { ::new (v) Value(1); a->destroy(v); }
							e.step(uint64_t(blocks + 6 + abs(objects)));
							a.destroy();
						}
						Acc acc; acc.bytes = (long long)(blocks * size); acc.objects = objects;
						judge(text.str(), acc, 0);
						if (!e.ok()) return;
					}
		});
	constexpr bool mine2 = MC_MINE;
	if (mine2)
		add_cases("overflow<space>: large amounts", [](Cases& e)
		{
			std::vector<size_t> sizes;
			for (int k : { 7, 8, 15, 16, 24, 31, 32, 33, 34 }) for (size_t d : { size_t(1), size_t(0), size_t(0) - 1 }) sizes.push_back((size_t(1) << k) - d);
			for (size_t s : sizes)
				for (size_t t : { size_t(0), size_t(1), s, size_t(1) << 31, size_t(1) << 32 })
					for (int frees = 0; frees < 8; frees++)
					{
						if (!e.next("blocks of %zu and %zu bytes%s%s%s", s, t, frees & 1 ? ", first freed" : "", frees & 2 ? ", second freed" : "", frees & 4 ? ", a third block freed with the size of the first" : "")) continue;
						Obj<Text> text;
						Obj<overflow<Space, Text>> a;
						a.make(text.make());
						Acc acc;
						char* p = static_cast<char*>(a->allocate(s));
						char* q = static_cast<char*>(a->allocate(t));
						if (!p || !q) { fail("allocate() failed"); e.ok(); return; }
						acc.bytes = (long long)(s + t);
						if (frees & 1) { a->deallocate(p, s); acc.bytes -= (long long)s; }
						if (frees & 2) { a->deallocate(q, t); acc.bytes -= (long long)t; }
						// freed twice: the balance becomes negative
						if (frees & 4) { char* r = static_cast<char*>(a->allocate(s)); acc.bytes += (long long)s; for (int i = 0; i < 3; i++) { a->deallocate(r, s); acc.bytes -= (long long)s; } }
						e.step(6);
						if (text->n) fail("a report was written before the allocator was destroyed: %s", text->s);
						a.destroy();
						judge(text->str(), acc, 0);
						if (!e.ok()) return;
					}
		});
	constexpr bool mine3 = MC_MINE;
	if (mine3)
		add_cases("overflow<mallocator>: many objects", [](Cases& e)
		{
			for (long n : { 1L, 2L, 127L, 128L, 129L, 255L, 256L, 257L, 32767L, 32768L, 32769L, 65535L, 65536L, 65537L, 1000000L })
				for (int back = 0; back < 4; back++)
				{
					long m = back == 0 ? 0 : back == 1 ? n - 1 : back == 2 ? n : 2 * n;
					if (!e.next("%ld objects constructed, %ld destroyed", n, m)) continue;
					Obj<Text> text;
					Obj<overflow<mallocator, Text>> a;
					a.make(text.make());
					alignas(16) char buf[sizeof(Value)];
					Value* v = reinterpret_cast<Value*>(buf);
					for (long i = 0; i < n; i++) { a->construct(v, 1); v->~Value(); }
					for (long i = 0; i < m; i++) { ::new (v) Value(1); a->destroy(v); }
					e.step(uint64_t(n + m));
					a.destroy();
					Acc acc; acc.objects = n - m;
					judge(text->str(), acc, 0);
					if (!e.ok()) return;
				}
		});
}
