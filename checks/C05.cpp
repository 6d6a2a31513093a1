// PARTS: 8
// binary_heap with elements whose lifetimes are recorded
#include "twosuites.h"
#include "scale.h"
using namespace conts;
using mc::thorough;
using Copy = Tracked<true>;
constexpr int CH = LIVES;

// Every sequence of keys, inserted and drained, with growth from every initial capacity
template<class T>
static void sequences(mc::Cases& e, int n, int base)
{
	std::vector<int> q(size_t(n), 0);
	for (;;)
	{
		for (int cap = 0; cap <= n; cap++)
			for (int pops = 0; pops < 3; pops++)
			{
				std::string t;
				for (int x : q) t += char('0' + x);
				if (!e.next("capacity %d: insert keys %s%s, then drain", cap, t.c_str(), pops == 0 ? "" : pops == 1 ? " with a pop after every second" : " and clear the heap when it has 3 elements")) continue;
				make_pools(1);
				lives().at.clear();
				{
					ktl::binary_heap<T, ByKey, TAlloc<T>> h(size_t(cap), TAlloc<T>{});
					size_t have = 0;
					auto pop = [&]
					{
						T x = h.pop();
						have--;
						keyOf(x);
						return keyOf(x);
					};
					auto look = [&]
					{
						if (mc::failed()) return;
						if (lives().at.size() != have) { mc::fail("%zu elements are alive although the heap holds %zu", lives().at.size(), have); return; }
						for (auto& x : h) keyOf(x);
					};
					for (int k = 0; k < n && !mc::failed(); k++)
					{
						h.insert(T(q[size_t(k)], k));
						have++;
						look();
						if (pops == 1 && k % 2) { pop(); look(); }
						if (pops == 2 && have == 3) { h.clear(); have = 0; look(); }
						e.step();
					}
					int last = -1;
					while (have && !mc::failed())
					{
						int k = pop();
						if (k < last) mc::fail("key %d came out after key %d", k, last);
						last = k;
						look();
						e.step();
					}
					if (mc::failed()) return;
					if (h.size()) mc::fail("the drained heap has %zu elements", size_t(h.size()));
				}
				if (!mc::failed() && lives().at.size()) mc::fail("%zu elements were never destroyed", lives().at.size());
				if (!e.ok()) return;
			}
		int i = 0;
		while (i < n && ++q[size_t(i)] == base) q[size_t(i++)] = 0;
		if (i == n) break;
	}
}

// Many elements: growth, copies, moves to another allocator, clearing, draining
template<class T>
static void many(mc::Cases& e)
{
	using A = scale::Counted<T>;
	using H = ktl::binary_heap<T, ByKey, A>;
	for (size_t n : scale::sizes())
		for (int shape = 0; shape < 3; shape++)
			for (int end = 0; end < 5; end++)
			{
				static const char* const shapes[] = { "descending", "equal", "shuffled" };
				if (!thorough() && n > 300 && (shape == 0 || (n != 32769 && n != 65537))) continue;
				static const char* const ends[] = { "drained", "cleared and filled again", "destroyed", "copied and moved", "assigned over another" };
				if (!scale::next(e, "%zu elements with %s keys, %s", n, shapes[shape], ends[end])) continue;
				lives().at.clear();
				{
					H h{ A() };
					size_t others = 0;
					auto count = [&](size_t want, const char* when)
					{
						if (!mc::failed() && lives().at.size() != want) mc::fail("%zu elements are alive %s, there should be %zu", lives().at.size(), when, want);
					};
					auto fill = [&](H& to, size_t k)
					{
						for (size_t i = 0; i < k && !mc::failed(); i++)
						{
							to.insert(T(int(shape == 0 ? k - i : shape == 1 ? 1 : i * 40503u % 65537u), int(i)));
							e.step();
							if (lives().at.size() != others + i + 1) mc::fail("%zu elements are alive after insertion %zu", lives().at.size(), i + 1);
						}
					};
					fill(h, n);
					if (end == 0)
						for (size_t i = n; i-- > 0 && !mc::failed();)
						{
							keyOf(h.peek());
							e.step();
							T x = h.pop();
							keyOf(x);
							if (lives().at.size() != i + 1) mc::fail("%zu elements are alive with %zu left in the heap", lives().at.size(), i);
						}
					else if (end == 1)
					{
						h.clear();
						count(0, "after clear()");
						fill(h, n);
					}
					else if (end == 3)
					{
						H m(std::move(h));
						count(n, "after moving");
						if constexpr (std::is_copy_constructible_v<T>)
						{
							{
								H c(m);
								count(2 * n, "after copying");
								for (auto& x : c) keyOf(x);
								H x(m, A(1));
								count(3 * n, "after copying to another allocator");
							}
							count(n, "after the copies are gone");
						}
						H x(std::move(m), A(1));
						count(n, "after moving to another allocator");
						for (auto& y : x) keyOf(y);
						x.reserve(2 * n);
						count(n, "after reserve()");
						for (auto& y : x) keyOf(y);
					}
					else if (end == 4)
					{
						H o{ A(1) };
						others = n;
						fill(o, 300);
						if constexpr (std::is_copy_constructible_v<T>)
						{
							o = h;
							count(2 * n, "after copy assignment");
							for (auto& y : o) keyOf(y);
						}
						o = std::move(h);
						count(n, "after move assignment");
						for (auto& y : o) keyOf(y);
					}
				}
				if (!mc::failed() && lives().at.size()) mc::fail("%zu elements were never destroyed", lives().at.size());
				if (!e.ok()) return;
			}
	scale::account().settle();
}

MC_SUITES
{
	two<MC_MINE, CH, HEAP, Copy>("binary_heap<copyable>", 3, 3, 12000, 4, 3, 200000);
	two<MC_MINE, CH, HEAP, MoveOnly>("binary_heap<movable>", 4, 3, 12000, 5, 3, 200000);
	two<MC_MINE, CH, HEAP, MoveOnly, TAlloc<MoveOnly>, Dir0>("binary_heap<movable, either order>", 3, 2, 12000, 4, 3, 200000);
	two<MC_MINE, CH, HEAP, Copy, ktl::type_allocator<Copy, ktl::shared<ktl::freelist<0, 512, ktl::mallocator>>>>("binary_heap<copyable, shared<freelist<mallocator>>>", 3, 2, 8000, 4, 3, 100000);
	two<MC_MINE, CH, HEAP, MoveOnly, std::allocator<MoveOnly>>("binary_heap<movable, std::allocator>", 3, 2, 8000, 4, 3, 100000);
	two<MC_MINE, CH, HEAP, Boxed, std::allocator<Boxed>>("binary_heap<owning a pointer, std::allocator>", 3, 2, 8000, 4, 3, 100000);
	two<MC_MINE, CH, HEAP, Named, TAlloc<Named>>("binary_heap<owning a string>", 3, 2, 8000, 4, 3, 100000);
	bool a = MC_MINE, b = MC_MINE;
	if (a) mc::add_cases("sequences of copyable elements", [](mc::Cases& e) { for (int n = 1; n <= (thorough() ? 9 : 7); n++) sequences<Copy>(e, n, 2); });
	if (b) mc::add_cases("sequences of movable elements", [](mc::Cases& e) { for (int n = 1; n <= (thorough() ? 7 : 5); n++) sequences<MoveOnly>(e, n, 4); });
	bool c = MC_MINE, d = MC_MINE;
	if (c) mc::add_cases("at scale, copyable elements", many<Copy>);
	if (d) mc::add_cases("at scale, movable elements", many<MoveOnly>);
}
