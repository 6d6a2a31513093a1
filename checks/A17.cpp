// PARTS: 6
// Every pattern of system refusals inside every short history of allocations and deallocations.
#include "faultsys.h"

// A typed allocator of Size-byte objects seen as an untyped one
template<class T, class W>
struct TypedBytes
{
	ktl::type_allocator<T, W> t;
	void* allocate(size_t n) { return t.allocate(n / sizeof(T)); }
	void deallocate(void* p, size_t n) { t.deallocate(static_cast<T*>(p), n / sizeof(T)); }
};
template<class T, class W>
struct TypedConf
{
	using A = TypedBytes<T, W>;
	static constexpr size_t hardMax = INF;
	Obj<A> a;
	TypedConf() { a.make(); }
	A& get() { return *a; }
	void destroy() { a.destroy(); }
};
// A copy of a handle is used, so that the source must stay intact as well
template<class W, size_t HardMax>
struct CopyConf
{
	using A = W;
	static constexpr size_t hardMax = HardMax;
	Obj<A> first, a;
	CopyConf() { a.make(first.make()); }
	A& get() { return *a; }
	void destroy() { first.destroy(); a.destroy(); }
};
struct OverCasc : SpecBase
{
	using type = overflow<cascading<linear_allocator<512>>, Text>;
	static constexpr int pools = 0; static constexpr size_t hardMax = 384;
	static type* make(void* m, std::vector<int>&, Text& t) { return ::new (m) type(t); }
};
struct Three { char c[3]; };
struct Big24 { char c[24]; };

template<bool Mine, class C, int Mode>
static void suite(const char* name, size_t live, std::vector<size_t> sizes, size_t minSize = 0, bool zero = false, int masks = 4)
{
	if constexpr (Mine)
	{
		AllocParams p{ sizes, thorough() ? live + 1 : live };
		Bounds b;
		b.dfs = thorough() ? 4 : 2;
		b.depth = thorough() ? 24 : 14;
		b.maxStates = thorough() ? 600000 : 20000;
		size_t lo = zero ? ~size_t(0) : minSize;
		add(name, b, [p, lo, masks]() -> System* { return new FaultSys<C, Mode>(p, lo, masks); });
	}
}
static constexpr size_t H = size_t(1) << 21, M = ~size_t(0);

MC_SUITES
{
	suite<MC_MINE, Plain<mallocator, INF>, EXACT>("mallocator", 5, { 1, 17, 100, H, M, M - 15 });
	suite<MC_MINE, Plain<freelist<0, 16, mallocator>, 16>, EXACT>("freelist<0,16,mallocator>", 5, { 1, 16 });
	suite<MC_MINE, Plain<freelist<0, 8, mallocator>, 8>, EXACT>("freelist<0,8,mallocator>", 6, { 8 });
	suite<MC_MINE, Plain<freelist<16, 48, mallocator>, 48>, EXACT>("freelist<16,48,mallocator>", 5, { 17, 48 }, 16);
	suite<MC_MINE, Plain<freelist<0, H, mallocator>, H>, EXACT>("freelist<0,2^21,mallocator>", 3, { 1, H });
	suite<MC_MINE, Plain<freelist<0, 32, freelist<16, 48, mallocator>>, 32>, EXACT>("freelist<0,32,freelist<16,48,mallocator>>", 5, { 1, 32 });
	suite<MC_MINE, Plain<cascading<linear_allocator<32>>, 32>, EXACT>("cascading<linear<32>>", 6, { 1, 17, 32, 33 });
	suite<MC_MINE, Plain<cascading<linear_allocator<64>>, 64>, EXACT>("cascading<linear<64>>", 6, { 16, 40, 64 });
	suite<MC_MINE, Plain<cascading<freelist<0, 16, linear_allocator<32>>>, 16>, EXACT>("cascading<freelist<0,16,linear<32>>>", 6, { 1, 16, 17 });
	suite<MC_MINE, Plain<cascading<fallback<linear_allocator<32>, linear_allocator<16>>>, 32>, EXACT>("cascading<fallback<linear<32>,linear<16>>>", 6, { 1, 16, 32 });
	suite<MC_MINE, Plain<cascading<segragator<16, linear_allocator<32>, linear_allocator<48>>>, 48>, EXACT>("cascading<segragator<16,linear<32>,linear<48>>>", 6, { 1, 16, 17, 48 });
	suite<MC_MINE, Plain<cascading<cascading<linear_allocator<32>>>, 32>, GROWS>("cascading<cascading<linear<32>>>", 5, { 1, 17, 32 }, 0, false, 8);
	suite<MC_MINE, Plain<freelist<0, 16, cascading<linear_allocator<32>>>, 16>, EXACT>("freelist<0,16,cascading<linear<32>>>", 6, { 1, 16 });
	suite<MC_MINE, Plain<fallback<linear_allocator<32>, mallocator>, INF>, EXACT>("fallback<linear<32>,mallocator>", 5, { 1, 17, 60, M }, 0, false, 2);
	suite<MC_MINE, Plain<fallback<null_allocator, mallocator>, INF>, EXACT>("fallback<null,mallocator>", 4, { 1, 60 });
	suite<MC_MINE, Plain<fallback<linear_allocator<16>, fallback<linear_allocator<32>, mallocator>>, INF>, EXACT>("fallback<linear<16>,fallback<linear<32>,mallocator>>", 5, { 1, 17, 60 });
	suite<MC_MINE, Plain<fallback<linear_allocator<32>, cascading<linear_allocator<32>>>, 32>, EXACT>("fallback<linear<32>,cascading<linear<32>>>", 6, { 1, 17, 32 });
	suite<MC_MINE, Plain<segragator<16, freelist<0, 16, mallocator>, mallocator>, INF>, EXACT>("segragator<16,freelist<0,16,mallocator>,mallocator>", 4, { 1, 16, 17, 60 });
	suite<MC_MINE, Plain<segragator<16, freelist<0, 16, mallocator>, freelist<16, 32, mallocator>>, 32>, EXACT>("segragator<16,freelist<0,16>,freelist<16,32>>", 4, { 1, 16, 17, 32 });
	suite<MC_MINE, Plain<segragator<16, mallocator, cascading<linear_allocator<48>>>, 48>, EXACT>("segragator<16,mallocator,cascading<linear<48>>>", 5, { 1, 16, 17, 48 });
	suite<MC_MINE, Plain<segragator<16, linear_allocator<32>, mallocator>, INF>, LOOSE>("segragator<16,linear<32>,mallocator>", 5, { 1, 16, 17, 60 });
	suite<MC_MINE, Plain<fallback<cascading<linear_allocator<32>>, linear_allocator<64>>, 64>, LOOSE>("fallback<cascading<linear<32>>,linear<64>>", 5, { 1, 17, 33, 64 });
	suite<MC_MINE, Plain<fallback<cascading<linear_allocator<32>>, mallocator>, INF>, GROWS>("fallback<cascading<linear<32>>,mallocator>", 5, { 1, 17, 33 });
	suite<MC_MINE, Plain<fallback<freelist<0, 32, linear_allocator<64>>, cascading<linear_allocator<64>>>, 64>, EXACT>("fallback<freelist<0,32,linear<64>>,cascading<linear<64>>>", 5, { 1, 32, 33, 64 });
	suite<MC_MINE, Over<mallocator, INF - 128>, EXACT>("overflow<mallocator>", 3, { 1, 17, 64, H, M, M - 127, M - 128 });
	suite<MC_MINE, Probed<OverCasc>, EXACT>("overflow<cascading<linear<512>>>", 4, { 1, 64, 384 });
	suite<MC_MINE, OverTail, EXACT>("fallback<linear<16>,overflow<mallocator>>", 3, { 1, 16, 17 });
	suite<MC_MINE, Plain<shared<mallocator>, INF>, EXACT>("shared<mallocator>", 4, { 1, 17, H });
	suite<MC_MINE, CopyConf<shared<cascading<linear_allocator<32>>>, 32>, EXACT>("shared<cascading<linear<32>>>", 5, { 1, 17, 32 });
	suite<MC_MINE, CopyConf<atomic_shared<threaded<freelist<0, 16, cascading<linear_allocator<32>>>>>, 16>, EXACT>("atomic_shared<threaded<freelist<0,16,cascading<linear<32>>>>>", 5, { 1, 16 });
	suite<MC_MINE, Plain<threaded<cascading<linear_allocator<32>>>, 32>, EXACT>("threaded<cascading<linear<32>>>", 5, { 1, 17, 32 });
	suite<MC_MINE, Ref<cascading<linear_allocator<32>>, 32>, EXACT>("reference<cascading<linear<32>>>", 5, { 1, 17, 32 });
	suite<MC_MINE, TypedConf<Three, mallocator>, EXACT>("type_allocator<3 bytes,mallocator>", 4, { 3, 18, 99 });
	suite<MC_MINE, TypedConf<Big24, shared<cascading<linear_allocator<96>>>>, LOOSE>("type_allocator<24 bytes,shared<cascading<linear<96>>>>", 4, { 24, 72, 96 });
	suite<MC_MINE, TypedConf<double, fallback<linear_allocator<32>, mallocator>>, EXACT>("type_allocator<double,fallback<linear<32>,mallocator>>", 4, { 8, 24, 64 });
}
