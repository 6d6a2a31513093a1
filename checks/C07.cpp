// PARTS: 8
// Two containers: copies are equal and independent, moves transfer, comparators travel
#include "twosuites.h"
#include "scale.h"
using namespace conts;
constexpr int CH = VALUES;

struct Key : Plain {};
struct ByKeyDown { bool operator()(const Key& a, const Key& b) const { return a.key > b.key; } };

MC_SUITES
{
	two<MC_MINE, CH, VECTOR, uint32_t>("trivial_vector<4 bytes>", 4, 1, 12000, 6, 1, 200000);
	two<MC_MINE, CH, VECTOR, Bytes<3>>("trivial_vector<3 bytes>", 4, 1, 12000, 5, 1, 200000);
	two<MC_MINE, CH, VECTOR, Bytes<24, 8>, std::allocator<Bytes<24, 8>>>("trivial_vector<24 bytes, std::allocator>", 4, 1, 12000, 6, 1, 200000);
	two<MC_MINE, CH, VECTOR, uint64_t, ktl::type_allocator<uint64_t, ktl::shared<ktl::linear_allocator<8192>>>>("trivial_vector<8 bytes, shared<linear>>", 3, 1, 12000, 5, 1, 100000);
	two<MC_MINE, CH, ARRAY, uint32_t>("trivial_array<4 bytes>", 4, 1, 12000, 6, 1, 200000);
	two<MC_MINE, CH, ARRAY, Bytes<3>>("trivial_array<3 bytes>", 4, 1, 12000, 5, 1, 200000);
	two<MC_MINE, CH, ARRAY, Bytes<24, 8>, std::allocator<Bytes<24, 8>>>("trivial_array<24 bytes, std::allocator>", 4, 1, 12000, 6, 1, 200000);
	two<MC_MINE, CH, HEAP, Plain, TAlloc<Plain>, Dir>("binary_heap<plain, either order>", 3, 2, 12000, 4, 3, 200000);
	two<MC_MINE, CH, HEAP, Plain, TAlloc<Plain>, Fun<Plain>>("binary_heap<plain, std::function>", 3, 2, 12000, 4, 3, 200000);
	two<MC_MINE, CH, HEAP, MoveOnly, TAlloc<MoveOnly>, Dir>("binary_heap<movable, either order>", 3, 2, 12000, 4, 3, 200000);
	two<MC_MINE, CH, HEAP, Tracked<true>, TAlloc<Tracked<true>>, ByKey>("binary_heap<copyable, one order>", 4, 2, 12000, 4, 4, 200000);
	two<MC_MINE, CH, HEAP, Named, std::allocator<Named>, Dir>("binary_heap<owning a string, either order>", 3, 2, 12000, 4, 3, 200000);
	two<MC_MINE, CH, HEAP, Plain, ktl::type_allocator<Plain, ktl::shared<ktl::mallocator>>, Dir>("binary_heap<plain, shared<mallocator>>", 3, 2, 12000, 4, 2, 100000);
	scale::vectors<MC_MINE, uint16_t, scale::Counted<uint16_t>>("at scale, trivial_vector<2 bytes>");
	scale::arrays<MC_MINE, uint32_t, scale::Counted<uint32_t>>("at scale, trivial_array<4 bytes>");
	scale::heaps<MC_MINE, Key, ByKeyDown, true, scale::Counted<Key>>("at scale, binary_heap");
#if !defined(MC_LIGHT)
	if constexpr (MC_MINE)
		mc::add_cases("copies beyond 32 bits", [](mc::Cases& e)
		{
			scale::copyBeyond<ktl::trivial_vector<uint8_t, scale::Mapped<uint8_t>>>(e, "trivial_vector");
			if (!mc::failed()) scale::copyBeyond<ktl::trivial_array<uint8_t, scale::Mapped<uint8_t>>>(e, "trivial_array");
			scale::account().settle();
		});
#endif
}
