// Every pattern of system refusals inside histories of allocations and deallocations (A17)
#pragma once
#include "allocsys.h"
using namespace mc;
using namespace conf;

// How strictly success can be predicted
//   EXACT   a request of at most hardMax bytes fails if and only if the system refused during it
//   GROWS   the same, but a refusal may be made up for by another part or another attempt
//   LOOSE   the composition also has parts of bounded size: only the general obligations apply
enum { EXACT = 1, GROWS = 2, LOOSE = 0 };

template<class C, int MODE>
class FaultSys : public AllocBase
{
public:
	using A = typename C::A;
	std::unique_ptr<C> c;
	size_t minSize;
	int masks;
	FaultSys(const AllocParams& p, size_t minSize, int masks) : AllocBase(p, DISJOINT, C::hardMax), minSize(minSize), masks(masks) {}
	~FaultSys() { if (failed()) c.release(); }
	void* doAlloc(size_t) override { return nullptr; }
	void doFree(void* p, size_t n) override { c->get().deallocate(p, n); }
	void start() override
	{
		world().held = [this](const char* p, size_t n)
		{
			for (auto& b : live) if (b.n && b.p < p + n && p < b.p + b.n) return true;
			return false;
		};
		c = std::make_unique<C>();
	}
	void ops(std::vector<Op>& o) const override
	{
		std::vector<Op> base;
		AllocBase::ops(base);
		for (Op x : base)
		{
			o.push_back(x);
			if (x.c != ALLOC) continue;
			for (int m = 1; m < masks; m++) { x.b = int16_t(m); o.push_back(x); }
		}
	}
	std::string describe(const Op& o) const override
	{
		std::string s = AllocBase::describe(o);
		if (o.c == ALLOC && o.b)
		{
			s += " with the system refusing call";
			for (int i = 0; i < 4; i++) if (o.b >> i & 1) s += " " + std::to_string(i + 1);
		}
		return s;
	}
	void apply(const Op& o, bool) override
	{
		if (o.c == FREE) { release(size_t(o.a)); return; }
		size_t n = prm.sizes[size_t(o.a)];
		world().arm(uint64_t(o.b));
		char* p = static_cast<char*>(c->get().allocate(n));
		unsigned refused = world().sysRefused;
		world().disarm();
		if (MODE != LOOSE && !failed())
		{
			bool can = n > minSize && n <= hardMax && !refused;
			if (MODE == EXACT && p && refused) fail("allocate(%zu) returned %p although the system refused the memory for it", n, (void*)p);
			else if (p && !(n > minSize && n <= hardMax)) fail("allocate(%zu) returned %p although at most %zu bytes are possible", n, (void*)p, hardMax);
			else if (!p && can) fail("allocate(%zu) returned null although the system refused nothing", n);
		}
		if (!p || failed()) return;
		if (n && !world().covers(p, n)) { fail("allocate(%zu) returned %p, which is not inside memory the allocator obtained", n, (void*)p); return; }
		for (auto& l : live)
			if (l.n && n && l.p < p + n && p < l.p + l.n)
			{
				fail("allocate(%zu) returned %p, which overlaps the live block %p of %zu bytes", n, (void*)p, (void*)l.p, l.n);
				return;
			}
		insert(LiveBlock{ p, n });
	}
	void check() override { checkContents(); }
	void key(Hash& h) override
	{
		keyLive(h);
		world().key(h);
	}
	void finish() override
	{
		while (!live.empty() && !failed()) release(0);
		if (failed()) return;
		c->destroy();
		if (failed()) return;
		if (world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
		if (pools_live()) fail("%zu blocks of the parts were never given back", pools_live());
	}
};
