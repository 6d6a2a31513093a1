// PARTS: 7
// Routing: compositions of numbered parts against a linear scan over the parts.
#include "grants.h"
using namespace mc;
using namespace conf;

// A default-constructible leaf that always stands for pool number N
template<size_t N, int Flags = OWNS | MAXS>
class Num : public LeafBase<Flags>
{
public:
	Num() noexcept { this->m_Id = int(N); }
	bool operator==(const Num&) const noexcept { return true; }
	bool operator!=(const Num&) const noexcept { return false; }
};

static void make_pools(int n, size_t blocks, size_t maxBlock)
{
	world().onReset = reset_pools;
	pools().strict = true;
	for (int i = 0; i < n; i++) new_pool(size_t(1) << 16, blocks, maxBlock);
}

static bool was_tried(int id) { for (int t : pools().tried) if (t == id) return true; return false; }

// ---- fallback -----------------------------------------------------------------------------------------
template<bool Max, class Seq> struct FallbackOf;
template<size_t... I> struct FallbackOf<false, std::index_sequence<I...>> { using type = ktl::fallback_builder_min<Num<I>...>; };
template<size_t... I> struct FallbackOf<true, std::index_sequence<I...>> { using type = ktl::fallback_builder_max<Num<I>...>; };

// One allocation compared with the scan
template<class A>
static char* scan_alloc(A& a, int n, size_t size)
{
	int expect = -1;
	for (int i = 0; i < n && expect < 0; i++)
	{
		Pool& p = pools().p[i];
		if (size <= p.maxBlock && p.liveBytes + size <= p.capBytes && p.area->blocks.size() < p.capBlocks) expect = i;
	}
	pools().tried.clear();
	pools().lastServed = -1;
	char* p = static_cast<char*>(a.allocate(size));
	if (failed()) return nullptr;
	if (expect < 0 && p) { fail("allocate(%zu) succeeded although every part refuses it", size); return nullptr; }
	if (expect >= 0 && !p) { fail("allocate(%zu) failed although part %d can serve it", size, expect); return nullptr; }
	if (p && pools().lastServed != expect) { fail("allocate(%zu) was served by part %d instead of part %d", size, pools().lastServed, expect); return nullptr; }
	if (p && !pools().p[expect].area->find(p)) { fail("allocate(%zu) did not return the block of part %d", size, expect); return nullptr; }
	for (int i = 0; i < n; i++)
	{
		bool want = expect < 0 || i <= expect;
		if (was_tried(i) != want) { fail("allocate(%zu): part %d was %sasked (part %d is the first that can serve it)", size, i, want ? "not " : "", expect); return nullptr; }
	}
	return p;
}

template<class A>
static void fallback_case(Cases& e, int n, const std::vector<size_t>& capBlocks, const std::vector<size_t>& maxBlock, size_t size, int order)
{
	make_pools(n, 0, 0);
	for (int i = 0; i < n; i++) { pools().p[i].capBlocks = capBlocks[size_t(i)]; pools().p[i].maxBlock = maxBlock[size_t(i)]; }
	Obj<A> a;
	a.make();
	std::vector<char*> blocks;
	for (;;)
	{
		char* p = scan_alloc(*a, n, size);
		e.step();
		if (failed()) return;
		if (!p) break;
		blocks.push_back(p);
		if (blocks.size() > 200) { fail("the parts are never exhausted"); return; }
	}
	if constexpr (has_owns<A>)
		for (char* p : blocks) if (!a->owns(p)) fail("owns() denies a live block");
	// Free them, and after each one see that its part is used again
	while (!blocks.empty() && !failed())
	{
		size_t i = order == 0 ? 0 : order == 1 ? blocks.size() - 1 : blocks.size() / 2;
		char* p = blocks[i];
		blocks.erase(blocks.begin() + long(i));
		a->deallocate(p, size);
		if (failed()) return;
		char* q = scan_alloc(*a, n, size);
		e.step(2);
		if (failed()) return;
		if (q) a->deallocate(q, size);
	}
	if (failed()) return;
	a.destroy();
	if (pools_live()) fail("%zu blocks were not given back", pools_live());
}

template<class A>
static void fallback_suite(const std::string& name, int n, bool mine)
{
	if (!mine) return;
	add_cases(name, [n](Cases& e)
	{
		auto go = [&](const std::vector<size_t>& cap, const std::vector<size_t>& mx, size_t size, const char* what, uint64_t mask)
		{
			for (int order = 0; order < 3; order++)
				if (e.next("%d parts, %s %#llx, size %zu, freed in order %d", n, what, (unsigned long long)mask, size, order))
				{
					fallback_case<A>(e, n, cap, mx, size, order);
					if (!e.ok()) return;
				}
		};
		std::vector<size_t> big(size_t(n), 64), one(size_t(n), 1);
		uint64_t all = uint64_t(1) << n;
		int few = thorough() ? 14 : 9;
		if (n <= few)
			for (uint64_t m = 0; m < all; m++)   // which parts have room
			{
				std::vector<size_t> cap(size_t(n), 0);
				for (int i = 0; i < n; i++) cap[size_t(i)] = (m >> i) & 1;
				go(cap, big, 8, "parts with room", m);
			}
		else
		{
			for (int i = 0; i < n; i++)
				for (int k = i; k < n; k++)       // all but two are exhausted
				{
					std::vector<size_t> cap(size_t(n), 0);
					cap[size_t(i)] = cap[size_t(k)] = 1;
					go(cap, big, 8, "parts with room", (uint64_t(1) << i) | (uint64_t(1) << k));
				}
			for (int i = 0; i < n; i++)           // none but one is exhausted
			{
				std::vector<size_t> cap(size_t(n), 1);
				cap[size_t(i)] = 0;
				go(cap, big, 8, "all but", uint64_t(1) << i);
			}
		}
		go(one, big, 64, "all", 0);
		go(std::vector<size_t>(size_t(n), 2), big, 16, "two blocks each", 0);
		go(one, big, 0, "empty blocks", 0);
		// Parts that take different sizes
		std::vector<size_t> up, down;
		for (int i = 0; i < n; i++) { up.push_back(size_t(8 + 8 * i)); down.push_back(size_t(8 + 8 * (n - 1 - i))); }
		for (int s = 1; s <= 8 * n + 8; s += 4)
		{
			go(one, up, size_t(s), "growing limits", 0);
			go(one, down, size_t(s), "shrinking limits", 0);
		}
	});
}

// ---- segragator ----------------------------------------------------------------------------------------
constexpr size_t limits_a[] = { 8, 16, 24, 32, 40, 48, 56, 64, 72, 80, 88, 96, 104, 112, 120, 128, 136, 144, 152, 160, 168, 176, 184, 192, 200, 208, 216, 224, 232, 240, 248, 256, 264, 272, 280, 288, 296 };
constexpr size_t limits_b[] = { 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32767, 32768 };
constexpr size_t limits_c[] = { 0, 1, 16, 100, 1000, 1001, 4000, 65535, 65536, 65537, 100000, 100001, 100002, 100003, 100004, 100005, 100006, 100007, 100008, 100009, 100010, 100011, 100012, 100013, 100014, 100015, 100016, 100017, 100018, 100019, 100020, 100021, 100022, 100023, 100024, 100025, 100026 };
template<int K> constexpr size_t limit(size_t i) { return K == 0 ? limits_a[i] : K == 1 ? limits_b[i] : limits_c[i]; }

// Interleaves parts and thresholds: part, threshold, part, ..., part
template<int K, size_t J> struct Item { using type = std::conditional_t<J % 2 == 0, Num<J / 2, 0>, ktl::threshold<limit<K>(J / 2)>>; };
template<bool Max, int K, class Seq> struct SegOf;
template<int K, size_t... J> struct SegOf<false, K, std::index_sequence<J...>> { using type = ktl::segragator_builder_min<typename Item<K, J>::type...>; };
template<int K, size_t... J> struct SegOf<true, K, std::index_sequence<J...>> { using type = ktl::segragator_builder_max<typename Item<K, J>::type...>; };

template<class A>
static void seg_case(Cases& e, int n, int expect, size_t size)
{
	make_pools(n, 2, ~size_t(0));
	Obj<A> a;
	a.make();
	char* p[3];
	for (int k = 0; k < 3; k++)
	{
		pools().tried.clear();
		pools().lastServed = -1;
		p[k] = static_cast<char*>(a->allocate(size));
		e.step();
		for (int t : pools().tried) if (t != expect) { fail("allocate(%zu) asked part %d instead of part %d", size, t, expect); return; }
		if (pools().tried.empty()) { fail("allocate(%zu) did not ask part %d", size, expect); return; }
		if (k < 2 && !p[k]) { fail("allocate(%zu) failed although part %d can serve it", size, expect); return; }
		if (k < 2 && !pools().p[expect].area->find(p[k])) { fail("allocate(%zu) did not return the block of part %d", size, expect); return; }
		if (k == 2 && p[k]) { fail("allocate(%zu) succeeded although part %d refuses it", size, expect); return; }
	}
	a->deallocate(p[0], size);
	if (!failed()) a->deallocate(p[1], size);
	e.step(2);
	if (failed()) return;
	a.destroy();
	if (pools_live()) fail("%zu blocks were not given back", pools_live());
}

template<class A, int K>
static void seg_suite(const std::string& name, int n, bool mine)
{
	if (!mine) return;
	add_cases(name, [n](Cases& e)
	{
		auto expect = [&](size_t s) { for (int i = 0; i + 1 < n; i++) if (s <= limit<K>(size_t(i))) return i; return n - 1; };
		std::set<size_t> sizes{ 0, 1 };
		if (K == 0) for (size_t s = 0; s <= size_t(8 * n + 16); s++) sizes.insert(s);
		for (int i = 0; i + 1 < n; i++)
			for (size_t d : { 0, 1, 2 }) { size_t s = limit<K>(size_t(i)) + d; if (s) sizes.insert(s - 1); }
		// The parts take at most 64 KB, so a larger request is refused by the right part
		for (size_t s : sizes)
		{
			if (s > 32000) continue;
			if (e.next("%d parts, size %zu (part %d)", n, s, expect(s))) { seg_case<A>(e, n, expect(s), s); if (!e.ok()) return; }
		}
		for (size_t s : { size_t(65535), size_t(65536), size_t(65537), size_t(100000), size_t(100013), size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 32) + 8, size_t(1) << 63, ~size_t(0) })
			if (e.next("%d parts, refused size %zu (part %d)", n, s, expect(s)))
			{
				make_pools(n, 2, 1000);
				Obj<A> a;
				a.make();
				pools().tried.clear();
				if (a->allocate(s)) fail("allocate(%zu) succeeded although every part refuses it", s);
				e.step();
				for (int t : pools().tried) if (t != expect(s)) { fail("allocate(%zu) asked part %d instead of part %d", s, t, expect(s)); return; }
				if (pools().tried.empty()) fail("allocate(%zu) did not ask part %d", s, expect(s));
				if (!e.ok()) return;
			}
	});
}

// ---- histories over fallback compositions --------------------------------------------------------------
template<class C>
class RouteSys : public AllocSys<C, ROUTED>
{
public:
	int parts;
	RouteSys(const AllocParams& p, int n) : AllocSys<C, ROUTED>(p), parts(n) {}
	void* doAlloc(size_t n) override { return scan_alloc(this->c->get(), parts, n); }
};
template<bool Mine, class C>
static void route(const char* name, int parts, std::vector<size_t> sizes, size_t live)
{
	if constexpr (Mine)
	{
		AllocParams p{ sizes, thorough() ? live + 1 : live };
		add(name, alloc_bounds(sizes.size()), [p, parts]() -> System* { return new RouteSys<C>(p, parts); });
	}
}

MC_SUITES
{
	if constexpr (MC_MINE) add_cases("requests of every magnitude", mc::grants::all_magnitudes);
	route<MC_MINE, Probed<FallbackLL>>("histories: fallback<L,L>", 2, { 0, 1, 16, 40, 65 }, 4);
	route<MC_MINE, Probed<Fallback3>>("histories: fallback<L,fallback<L,L>>", 3, { 1, 40, 65 }, 4);
	route<MC_MINE, Probed<Fallback3Left>>("histories: fallback<fallback<L,L>,L>", 3, { 1, 40, 65 }, 4);
#define FB(n) { constexpr bool mine = MC_MINE; if constexpr (mine) { \
		fallback_suite<typename FallbackOf<false, std::make_index_sequence<n>>::type>("fallback_builder_min<" #n " parts>", n, mine); \
		fallback_suite<typename FallbackOf<true, std::make_index_sequence<n>>::type>("fallback_builder_max<" #n " parts>", n, mine); } }
	FB(1) FB(2) FB(3) FB(4) FB(5) FB(6) FB(7) FB(8) FB(9) FB(10) FB(11) FB(12) FB(13) FB(15) FB(16) FB(17) FB(18) FB(23) FB(31) FB(32) FB(33)
#define SB(n) { constexpr bool mine = MC_MINE; if constexpr (mine) { \
		seg_suite<typename SegOf<false, 0, std::make_index_sequence<2 * n - 1>>::type, 0>("segragator_builder_min<" #n " parts>, limits 8, 16, 24, ...", n, mine); \
		seg_suite<typename SegOf<true, 0, std::make_index_sequence<2 * n - 1>>::type, 0>("segragator_builder_max<" #n " parts>, limits 8, 16, 24, ...", n, mine); \
		seg_suite<typename SegOf<false, 1, std::make_index_sequence<2 * n - 1>>::type, 1>("segragator_builder_min<" #n " parts>, limits 1, 2, 3, 7, ...", n, mine); \
		seg_suite<typename SegOf<true, 1, std::make_index_sequence<2 * n - 1>>::type, 1>("segragator_builder_max<" #n " parts>, limits 1, 2, 3, 7, ...", n, mine); \
		seg_suite<typename SegOf<false, 2, std::make_index_sequence<2 * n - 1>>::type, 2>("segragator_builder_min<" #n " parts>, limits 0, 1, 16, 100, ...", n, mine); \
		seg_suite<typename SegOf<true, 2, std::make_index_sequence<2 * n - 1>>::type, 2>("segragator_builder_max<" #n " parts>, limits 0, 1, 16, 100, ...", n, mine); } }
	SB(1) SB(2) SB(3) SB(4) SB(5) SB(6) SB(7) SB(8) SB(9) SB(10) SB(11) SB(12) SB(13) SB(14) SB(15) SB(16) SB(17) SB(18) SB(24) SB(32) SB(33)
}
