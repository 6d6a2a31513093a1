// PARTS: 2
// The library with its debug assertions: every asserted precondition, called around its limits.
// (The suites of other checks are compiled into the same program; there an assertion that fires ends the history.)
#include "allocsys.h"
#include "conts.h"
#include <csetjmp>
#include <csignal>
#include <optional>
#include <ktl/containers/packed_ptr.h>
#ifndef KTL_DEBUG_ASSERT
#error this check is about KTL_DEBUG_ASSERT
#endif
namespace
{
	using namespace mc;
	using conf::Text;
	sigjmp_buf escape;
	volatile sig_atomic_t expecting = 0;
	void trap(int)
	{
		if (expecting) siglongjmp(escape, 1);
		static const char m[] = "a debug assertion fired\n";
		if (write(2, m, sizeof m - 1)) {}
		_exit(77);
	}
#if MC_PART == 0
	struct Install { Install() { signal(SIGTRAP, trap); } } install;
#endif
	// Did an assertion fire? What was constructed inside is abandoned.
	template<class F> bool fires(F f)
	{
		signal(SIGTRAP, trap);
		expecting = 1;
		if (sigsetjmp(escape, 1) == 0)
		{
			f();
			expecting = 0;
			return false;
		}
		expecting = 0;
		return true;
	}
	template<class F> bool expect(Cases& e, bool want, F f)
	{
		bool got = fires(f);
		e.step();
		if (got != want) fail(want ? "no assertion fires" : "an assertion fires");
		return e.ok();
	}

	template<class V> void indexed(Cases& e, const char* name)
	{
		for (size_t n = 0; n <= 9; n++)
			for (size_t i : { size_t(0), size_t(1), size_t(2), size_t(3), n - 1, n, n + 1, 2 * n, size_t(15), size_t(16), size_t(17), size_t(1) << 31, size_t(1) << 32, size_t(1) << 63, ~size_t(0) })
				for (int how = 0; how < 3; how++)
				{
					if (!e.next("%s of %zu elements: %s of index %zu", name, n, how == 0 ? "operator[]" : how == 1 ? "const operator[]" : "at()", i)) continue;
					V v;
					v.resize(n);
					bool ok = expect(e, i >= n, [&]
					{
						volatile const void* r;
						if (how == 0) r = &v[i];
						else if (how == 1) r = &std::as_const(v)[i];
						else r = &v.at(i);
						(void)r;
					});
					if (!ok) return;
				}
	}
	void positions(Cases& e)
	{
		using V = ktl::trivial_vector<int, ktl::type_allocator<int, ktl::mallocator>>;
		for (int n = 0; n <= 5; n++)
			for (int spare = 0; spare < 2; spare++)
				for (int i = -2; i <= n + 2; i++)
				{
					auto fill = [&](V& v) { v.reserve(size_t(n + spare * 4 + 4)); v.resize(size_t(n)); for (int k = 0; k < n; k++) v[size_t(k)] = k; };
					if (e.next("vector of %d elements: emplace() at %d", n, i))
					{
						V v; fill(v);
						if (!expect(e, i < 0 || i > n, [&] { v.emplace(v.begin() + i, 7); })) return;
					}
					if (e.next("vector of %d elements: erase() at %d", n, i))
					{
						V v; fill(v);
						if (!expect(e, i < 0 || i >= n, [&] { v.erase(v.begin() + i); })) return;
					}
					for (int j = -2; j <= n + 2; j++)
					{
						if (!e.next("vector of %d elements: erase() from %d to %d", n, i, j)) continue;
						V v; fill(v);
						if (!expect(e, i > j || i < 0 || j > n, [&] { v.erase(v.begin() + i, v.begin() + j); })) return;
					}
				}
	}
	template<size_t N> bool buffers(Cases& e)
	{
		using B = ktl::trivial_buffer<short, N>;
		short data[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
		for (int a = 0; a < 8; a++)
			for (int b = 0; b <= 8; b++)
			{
				if (e.next("buffer of %zu elements from a range of %d", N, b - a))
					if (!expect(e, b - a != int(N), [&] { B x(data + a, data + b); (void)x; })) return false;
				if (e.next("buffer of %zu elements: assign() of a range of %d", N, b - a))
				{
					B x;
					if (!expect(e, b - a != int(N), [&] { x.assign(data + a, data + b); })) return false;
				}
			}
		auto list = [&](size_t n, std::initializer_list<short> l)
		{
			if (!e.next("buffer of %zu elements from a list of %zu", N, n)) return !e.stop;
			return expect(e, n > N, [&] { B x(l); (void)x; });
		};
		return list(0, {}) && list(2, { 1, 2 }) && list(3, { 1, 2, 3 }) && list(4, { 1, 2, 3, 4 }) && list(5, { 1, 2, 3, 4, 5 }) && list(6, { 1, 2, 3, 4, 5, 6 });
	}
	template<size_t ALIGN> bool packed(Cases& e)
	{
		constexpr size_t BITS = ALIGN == 1 ? 0 : ALIGN == 2 ? 1 : 2;
		using P = ktl::packed_ptr<char*, BITS, ALIGN>;
		for (uintptr_t base : { uintptr_t(0), uintptr_t(0x7f0000000000), uintptr_t(1) << 63 })
			for (uintptr_t off = 0; off <= 2 * ALIGN + 1; off++)
			{
				if (ALIGN > 64 && off > 40 && off + 40 < ALIGN && (off & (off - 1))) continue;
				char* p = reinterpret_cast<char*>(base + off);
				bool bad = (base + off) % ALIGN != 0;
				if (e.next("packed pointer of alignment %zu: %p", ALIGN, (void*)p))
					if (!expect(e, bad, [&] { P x(p, 1u); (void)x; })) return false;
				if (e.next("packed pointer of alignment %zu: set_ptr(%p)", ALIGN, (void*)p))
				{
					P x;
					if (!expect(e, bad, [&] { x.set_ptr(p); })) return false;
				}
			}
		return true;
	}
	void heaps(Cases& e)
	{
		using H = ktl::binary_heap<int, std::less<int>, ktl::type_allocator<int, ktl::mallocator>>;
		for (int pushed = 0; pushed <= 4; pushed++)
			for (int popped = 0; popped <= pushed; popped++)
				for (int how = 0; how < 3; how++)
				{
					if (!e.next("heap after %d insertions and %d pops%s: %s", pushed, popped, how == 2 ? " and clear()" : "", how ? "pop()" : "peek()")) continue;
					H h;
					for (int i = 0; i < pushed; i++) h.insert(i);
					for (int i = 0; i < popped; i++) h.pop();
					if (how == 2) h.clear();
					if (!expect(e, how == 2 || pushed == popped, [&] { if (how) h.pop(); else { int x = h.peek(); (void)x; } })) return;
				}
	}
	// An allocator that customises construction, for the assertions of cascades
	struct Custom : ktl::linear_allocator<64>
	{
		template<class T> void construct(T* p, int v) { ::new (static_cast<void*>(p)) T(v); }
		template<class T> void destroy(T* p) { p->~T(); }
	};
	void allocators(Cases& e)
	{
		using namespace ktl;
		auto given = [&](const char* name, auto with, size_t n)
		{
			if (e.next("%s: deallocate(null, %zu)", name, n))
				with([&](auto& a) { expect(e, true, [&] { a.deallocate(nullptr, n); }); });
			if (e.ok() && e.next("%s: deallocate() of a block of %zu bytes", name, n))
				with([&](auto& a) { expect(e, false, [&] { void* p = a.allocate(n); if (p) a.deallocate(p, n); }); });
			return e.ok();
		};
		for (size_t n : { size_t(0), size_t(1), size_t(16), size_t(17), size_t(64) })
		{
			using L = linear_allocator<64>;
			bool ok = given("linear", [](auto use) { L a; use(a); }, n)
				&& given("freelist", [](auto use) { freelist<0, 64, mallocator> a; use(a); }, n)
				&& given("cascading", [](auto use) { cascading<L> a; use(a); }, n)
				&& given("overflow", [](auto use) { Text t; overflow<mallocator, Text> a(t); use(a); }, n)
				&& given("shared<linear>", [](auto use) { shared<L> a; use(a); }, n)
				&& given("threaded<freelist>", [](auto use) { threaded<freelist<0, 64, mallocator>> a; use(a); }, n)
				&& given("segragator<linear,linear>", [](auto use) { segragator<16, L, L> a; use(a); }, n);
			if (!ok) return;
			null_allocator none;
			char c;
			if (e.next("null_allocator: deallocate(null, %zu)", n)) if (!expect(e, false, [&] { none.deallocate(nullptr, n); })) return;
			if (e.next("null_allocator: deallocate(block, %zu)", n)) if (!expect(e, true, [&] { none.deallocate(&c, n); })) return;
		}
		// moving raw memory in use
		for (int blocks = 0; blocks < 3; blocks++)
			for (int freed = 0; freed <= blocks; freed++)
				for (int assign = 0; assign < 2; assign++)
				{
					if (e.next("linear with %d blocks, of which %d were freed, moved by %s", blocks, freed, assign ? "assignment" : "construction"))
					{
						linear_allocator<64> a, b;
						void* p[2];
						for (int i = 0; i < blocks; i++) p[i] = a.allocate(16);
						for (int i = 0; i < freed; i++) a.deallocate(p[i], 16);
						if (!expect(e, blocks != freed, [&] { if (assign) b = std::move(a); else { linear_allocator<64> c(std::move(a)); (void)c; } })) return;
					}
					if (e.next("free list on linear memory with %d blocks, of which %d were freed, moved by %s", blocks, freed, assign ? "assignment" : "construction"))
					{
						using F = freelist<0, 16, linear_allocator<64>>;
						alignas(F) char mem[3][sizeof(F)];
						F* a = ::new (mem[0]) F();
						F* b = ::new (mem[1]) F();
						void* p[2];
						for (int i = 0; i < blocks; i++) p[i] = a->allocate(16);
						for (int i = 0; i < freed; i++) a->deallocate(p[i], 16);
						if (!expect(e, blocks != 0, [&] { if (assign) *b = std::move(*a); else ::new (mem[2]) F(std::move(*a)); })) return;
					}
					if (e.next("free list on %d blocks of system memory, of which %d were freed, moved by %s", blocks, freed, assign ? "assignment" : "construction"))
					{
						using F = freelist<0, 16, mallocator>;
						F a, b;
						void* p[2];
						for (int i = 0; i < blocks; i++) p[i] = a.allocate(16);
						for (int i = 0; i < freed; i++) a.deallocate(p[i], 16);
						if (!expect(e, false, [&] { if (assign) b = std::move(a); else { F c(std::move(a)); b = std::move(c); } })) return;
						for (int i = freed; i < blocks; i++) b.deallocate(p[i], 16);
					}
					if (e.next("free list on a shared allocator with %d blocks, of which %d were freed, moved by %s", blocks, freed, assign ? "assignment" : "construction"))
					{
						using F = freelist<0, 16, shared<linear_allocator<64>>>;
						F a, b;
						void* p[2];
						for (int i = 0; i < blocks; i++) p[i] = a.allocate(16);
						for (int i = 0; i < freed; i++) a.deallocate(p[i], 16);
						if (!expect(e, false, [&] { if (assign) b = std::move(a); else { F c(std::move(a)); b = std::move(c); } })) return;
						for (int i = freed; i < blocks; i++) b.deallocate(p[i], 16);
					}
				}
		// constructing in memory of somebody else; forgetting blocks
		for (int blocks = 0; blocks < 4; blocks++)
		{
			for (int what = 0; what < 4; what++)
			{
				if (!e.next("cascade of %d blocks: %s in memory of %s", blocks, what & 1 ? "destroy()" : "construct()", what & 2 ? "another allocator" : "its own")) continue;
				cascading<Custom> a;
				void* p[4];
				for (int i = 0; i < blocks; i++) p[i] = a.allocate(48);
				long other = 5;
				bool ok = true;
				for (int i = 0; i < (what & 2 ? 1 : blocks) && ok; i++)
				{
					long* at = what & 2 ? &other : static_cast<long*>(p[i]);
					ok = expect(e, what & 2, [&] { if (what & 1) a.destroy(at); else a.construct(at, 1); });
				}
				for (int i = 0; i < blocks; i++) a.deallocate(p[i], 48);
				if (!ok) return;
			}
			for (unsigned freed = 0; freed < 1u << blocks; freed++)
			{
				if (!e.next("cascade with %d blocks is destroyed after freeing those in %x", blocks, freed)) continue;
				alignas(cascading<Custom>) char mem[sizeof(cascading<Custom>)];
				auto* a = ::new (mem) cascading<Custom>();
				void* p[4];
				for (int i = 0; i < blocks; i++) p[i] = a->allocate(48);
				for (int i = 0; i < blocks; i++) if (freed >> i & 1) a->deallocate(p[i], 48);
				// the newest instance is kept; others as long as they hold a block
				bool forgotten = (freed & ((1u << (blocks ? blocks - 1 : 0)) - 1)) != ((1u << (blocks ? blocks - 1 : 0)) - 1);
				if (!expect(e, forgotten, [&] { a->~cascading(); })) return;
			}
		}
	}
}
MC_SUITES
{
#if MC_PART == 0
	add_cases("asserted: indices of vectors", [](Cases& e) { indexed<ktl::trivial_vector<int, ktl::type_allocator<int, ktl::mallocator>>>(e, "vector"); });
	add_cases("asserted: indices of arrays", [](Cases& e) { indexed<ktl::trivial_array<int, ktl::type_allocator<int, ktl::mallocator>>>(e, "array"); });
	add_cases("asserted: positions in vectors", positions);
	add_cases("asserted: lengths of buffers", [](Cases& e) { if (buffers<1>(e) && buffers<3>(e) && buffers<4>(e)) buffers<5>(e); });
	add_cases("asserted: alignment of packed pointers", [](Cases& e) { if (packed<1>(e) && packed<2>(e) && packed<4>(e) && packed<8>(e) && packed<64>(e) && packed<256>(e)) packed<4096>(e); });
	add_cases("asserted: empty heaps", heaps);
#else
	add_cases("asserted: what allocators are given", allocators);
#endif
}
