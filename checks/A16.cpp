// PARTS: 4
// The library compiled for each way of obtaining aligned system memory, in a namespace of its own.
#ifndef MC_PART
#define MC_PART 0
#endif
#define MC_CONFIG MC_PART
#include "platform.h"
#include "allocsys.h"
using namespace mc;
using namespace conf;
#undef MC_MINE

// The alignments a system's malloc may give: everything here, only pointers if aligned by hand
static const std::vector<size_t>& residues()
{
	static const std::vector<size_t> strict{ 0, 16, 32, 48 }, weak{ 0, 8, 16, 24, 32, 40, 48, 56 };
	return MC_PART == 2 ? weak : strict;
}
// All small sizes, and those around the powers of two
static std::vector<size_t> everySize()
{
	std::vector<size_t> s;
	for (size_t n = 0; n <= (thorough() ? 2100u : 300u); n++) s.push_back(n);
	for (int b = 9; b <= 19; b++) for (size_t d : { 17, 16, 9, 8, 1, 0 }) s.push_back((size_t(1) << b) - d);
	for (int b = 9; b <= 19; b++) for (size_t d : { 1, 8, 15, 16, 17, 33 }) s.push_back((size_t(1) << b) + d);
	return s;
}
template<class C>
static void suite(const char* name, std::vector<size_t> sizes, size_t live)
{
	for (size_t r : residues())
	{
		AllocParams p{ sizes, live };
		p.residue = r;
		Bounds b;
		b.dfs = thorough() ? 5 : 3;
		b.depth = thorough() ? 12 : 8;
		b.maxStates = thorough() ? 100000 : 6000;
		add(std::string(CONFIG) + ": " + name + ", malloc residue " + std::to_string(r), b, [p]() -> System* { return new AllocSys<C, DISJOINT | ALIGNED | ROUTED>(p); });
	}
}

MC_SUITES
{
	constexpr size_t M = ~size_t(0);
	suite<Plain<ktl::mallocator, INF>>("mallocator", { 0, 1, 8, 15, 16, 33 }, 4);
	suite<Plain<ktl::freelist<0, 24, ktl::mallocator>, 24>>("freelist<0,24,mallocator>", { 1, 24 }, 3);
	suite<Plain<ktl::cascading<ktl::linear_allocator<40>>, 40>>("cascading<linear<40>>", { 1, 33, 40 }, 3);
	suite<Plain<ktl::shared<ktl::linear_allocator<40>>, 40>>("shared<linear<40>>", { 1, 33, 40 }, 3);
	suite<Plain<ktl::fallback<ktl::linear_allocator<24>, ktl::mallocator>, INF>>("fallback<linear<24>,mallocator>", { 1, 24, 25 }, 3);
	suite<Over<ktl::mallocator, INF>>("overflow<mallocator>", { 0, 1, 40 }, 3);

	add_cases(std::string(CONFIG) + ": every size", [](Cases& e)
	{
		for (size_t r : residues())
			for (size_t n : everySize())
			{
				if (!e.next("%s: residue %zu, %zu bytes", CONFIG, r, n)) continue;
				world().sysLimit = size_t(1) << 22;
				Obj<ktl::mallocator> a;
				a.make();
				world().sysResidue = r;
				char* p[3];
				for (int i = 0; i < 3; i++)
				{
					size_t k = i == 1 ? 5 : n;
					p[i] = static_cast<char*>(a->allocate(k));
					e.step();
					if (!p[i] && k) { fail("allocate(%zu) failed", k); break; }
					if (!p[i]) continue;
					if (uintptr_t(p[i]) % alignof(std::max_align_t)) { fail("allocate(%zu) returned the misaligned address %p", k, (void*)p[i]); break; }
					if (k && !world().covers(p[i], k)) { fail("allocate(%zu) returned %p: not all of its bytes lie in memory obtained from the system", k, (void*)p[i]); break; }
					for (size_t b = 0; b < k; b++) p[i][b] = char(pat(p[i], k, b));
				}
				for (int i : { 1, 0, 2 })
				{
					if (failed()) break;
					size_t k = i == 1 ? 5 : n;
					if (!p[i]) continue;
					for (size_t b = 0; b < k; b++) if (static_cast<unsigned char>(p[i][b]) != pat(p[i], k, b)) { fail("byte %zu of block %d changed", b, i); break; }
					if (failed()) break;
					size_t live = world().sys_live();
					a->deallocate(p[i], k);
					e.step();
					if (world().sys_live() != live - 1) fail("deallocate() released %d system blocks", int(live) - int(world().sys_live()));
				}
				if (!failed() && world().sys_live()) fail("%zu system blocks were not released", world().sys_live());
				a.destroy();
				if (!e.ok()) return;
			}
	});
	add_cases(std::string(CONFIG) + ": sizes that cannot be represented", [](Cases& e)
	{
		std::vector<size_t> ns;
		for (size_t k = 0; k <= 300; k++) ns.push_back(M - k);
		for (int b = 21; b < 64; b++) for (int d = -32; d <= 32; d++) ns.push_back((size_t(1) << b) + size_t(d));
		for (size_t r : residues())
			for (size_t n : ns)
			{
				if (!e.next("%s: residue %zu, %zu bytes", CONFIG, r, n)) continue;
				Obj<ktl::mallocator> a;
				a.make();
				world().sysResidue = r;
				char* q = static_cast<char*>(a->allocate(1));
				char* p = static_cast<char*>(a->allocate(n));
				e.step(2);
				if (p) fail("allocate(%zu) returned %p although the system cannot provide that much", n, (void*)p);
				else if (!q) fail("allocate(1) failed");
				else { a->deallocate(q, 1); if (world().sys_live()) fail("%zu system blocks were not released", world().sys_live()); }
				a.destroy();
				if (!e.ok()) return;
			}
	});
}
