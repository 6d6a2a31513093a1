// PARTS: 8
// Two containers, each on one of two allocators: all memory goes back to where it came from
#include "twosuites.h"
#include "scale.h"
using namespace conts;
constexpr int CH = MEMORY;
struct Key : Plain { bool operator<(const Key& o) const { return key < o.key; } };

MC_SUITES
{
	two<MC_MINE, CH, VECTOR, uint32_t>("trivial_vector<4 bytes>", 4, 1, 12000, 6, 1, 200000);
	two<MC_MINE, CH, VECTOR, Bytes<24, 8>, NoDefault<Bytes<24, 8>>>("trivial_vector<24 bytes, allocator without default>", 3, 1, 12000, 5, 1, 200000);
	two<MC_MINE, CH, VECTOR, uint8_t>("trivial_vector<1 byte>", 3, 1, 12000, 5, 1, 200000);
	two<MC_MINE, CH, ARRAY, uint32_t>("trivial_array<4 bytes>", 4, 1, 12000, 6, 1, 200000);
	two<MC_MINE, CH, ARRAY, Bytes<24, 8>, NoDefault<Bytes<24, 8>>>("trivial_array<24 bytes, allocator without default>", 3, 1, 12000, 5, 1, 200000);
	two<MC_MINE, CH, ARRAY, uint8_t>("trivial_array<1 byte>", 3, 1, 12000, 5, 1, 200000);
	two<MC_MINE, CH, HEAP, Plain>("binary_heap<8 bytes>", 3, 2, 12000, 5, 2, 200000);
	two<MC_MINE, CH, HEAP, MoveOnly>("binary_heap<movable>", 3, 2, 12000, 4, 2, 200000);
	two<MC_MINE, CH, HEAP, Plain, NoDefault<Plain>>("binary_heap<8 bytes, allocator without default>", 3, 2, 12000, 4, 2, 200000);
	// allocators of the library itself; what they draw from the system is watched
	two<MC_MINE, CH, VECTOR, uint32_t, ktl::type_allocator<uint32_t, ktl::mallocator>>("trivial_vector<4 bytes, mallocator>", 4, 1, 12000, 6, 1, 200000);
	two<MC_MINE, CH, VECTOR, uint64_t, ktl::type_allocator<uint64_t, ktl::shared<ktl::fallback<ktl::freelist<0, 32, ktl::linear_allocator<128>>, ktl::mallocator>>>>("trivial_vector<8 bytes, shared<fallback<freelist<linear>,mallocator>>>", 3, 1, 6000, 5, 1, 100000);
	two<MC_MINE, CH, ARRAY, uint64_t, ktl::type_allocator<uint64_t, ktl::shared<ktl::cascading<ktl::linear_allocator<256>>>>>("trivial_array<8 bytes, shared<cascading<linear>>>", 3, 1, 6000, 5, 1, 100000);
	two<MC_MINE, CH, HEAP, Plain, ktl::type_allocator<Plain, ktl::shared<ktl::freelist<0, 256, ktl::mallocator>>>>("binary_heap<8 bytes, shared<freelist<mallocator>>>", 3, 2, 6000, 4, 2, 100000);
	two<MC_MINE, CH, HEAP, Plain, ktl::type_allocator<Plain, ktl::atomic_shared<ktl::mallocator>>>("binary_heap<8 bytes, atomic_shared<mallocator>>", 3, 2, 6000, 4, 2, 100000);
	scale::vectors<MC_MINE, uint32_t, scale::Counted<uint32_t>>("at scale, trivial_vector<4 bytes>");
	scale::arrays<MC_MINE, Bytes<7>, scale::Counted<Bytes<7>>>("at scale, trivial_array<7 bytes>");
	scale::heaps<MC_MINE, Key, std::less<Key>, false, scale::Counted<Key>>("at scale, binary_heap");
}
