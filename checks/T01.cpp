// PARTS: 6
// T01: a locked allocator is atomic under every thread interleaving
#include "threadconf.h"
using namespace tc;
namespace
{
	const std::vector<Op> CHANGES = { SMALL, BIG, NEWEST, OLDEST, PRE };
	template<class S> void programs(const char* name, Sizes sz)
	{
		std::string n = name;
		first<S>(n, sz, { SMALL, BIG, NEWEST });
		sched::add(n + ", 2 threads x 2", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 2, CHANGES }); });
		sched::add(n + ", 3 threads x 1", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 3, 1, CHANGES }); });
		sched::add(n + ", 2 threads x 3", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 3, CHANGES }); });
		sched::add(n + ", 3 threads x 2", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 3, 2, { SMALL, NEWEST, PRE } }); });
		sched::add(n + ", not used before, 2 threads x 2", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 2, 2, { SMALL, BIG, NEWEST }, false, false, true }); });
		sched::add(n + ", not used before, 3 threads x 2", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 3, 2, { SMALL, NEWEST }, false, false, true }); });
		if (sched::thorough()) sched::add(n + ", 3 threads x 2, all calls", [=](sched::Explorer& e) { explore<S>(e, n, sz, Shape{ 3, 2, CHANGES }); });
	}
}
SCHED_SUITES
{
#if MC_PART == 0
	sched::add("explorer self-check 2x2", [](sched::Explorer& e) { schedself::suite(e, 2, 2); });
	sched::add("explorer self-check 3x1", [](sched::Explorer& e) { schedself::suite(e, 3, 1); });
#endif
	const Sizes SZ{ 16, 32 };
#if MC_PART == 0
	programs<Sys<Direct, Linear>>("threaded<linear>", SZ);
	programs<Sys<Direct, Free>>("threaded<freelist<linear>>", SZ);
	programs<Sys<Direct, Casc>>("threaded<cascading<linear>>", SZ);
#endif
#if MC_PART == 1
	programs<Sys<Shared, Linear>>("shared<threaded<linear>>", SZ);
	programs<Sys<Atomic, FreeMalloc>>("atomic_shared<threaded<freelist<mallocator>>>", SZ);
	programs<Sys<Atomic, FreeCasc>>("atomic_shared<threaded<freelist<cascading<linear>>>>", SZ);
#endif
#if MC_PART == 2
	programs<Sys<Atomic, Linear>>("atomic_shared<threaded<linear>>", SZ);
	programs<Sys<Glob, FreeMalloc>>("global<threaded<freelist<mallocator>>>", SZ);
	programs<Sys<Glob, Casc>>("global<threaded<cascading<linear>>>", SZ);
#endif
#if MC_PART == 3
	programs<Sys<Ref, Linear>>("reference<threaded<linear>>", SZ);
	programs<Sys<Shared, Fall>>("shared<threaded<fallback<linear, mallocator>>>", SZ);
	programs<TypedSys<long, Linear>>("type_shared_threaded<long, linear>", SZ);
#endif
#if MC_PART == 4
	programs<Sys<Glob, Linear>>("global<threaded<linear>>", SZ);
	programs<Sys<Ref, FallBound>>("reference<threaded<fallback<linear, linear>>>", SZ);
	programs<TypedSys<double, Casc>>("type_shared_threaded<double, cascading<linear>>", SZ);
#endif
#if MC_PART == 5
	programs<StackSys<Atomic, 96>>("atomic_shared<threaded<stack>>", SZ);
	programs<Sys<Atomic, Seg>>("atomic_shared<threaded<segragator<linear, linear>>>", SZ);
	programs<Sys<Ref, ktl::mallocator>>("reference<threaded<mallocator>>", SZ);
#endif
}
