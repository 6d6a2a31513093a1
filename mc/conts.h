// Common parts of the container checks: element types, an instrumented standard allocator, an observer.
#pragma once
#include "mc.h"
#include "probe.h"
#include <ktl/ktl.h>
#include <functional>
#include <iterator>
#include <string>

namespace conts
{
	using mc::fail;
	using mc::failed;
	using mc::Obj;
	using mc::Op;
	using mc::Hash;

	// ---- element types: every byte of the value matters ---------------------------------------------------------
	template<size_t N, size_t Align = 1> struct alignas(Align) Bytes { unsigned char b[N]; };
#pragma pack(push, 1)
	struct Packed19 { uint64_t a; uint32_t b; uint16_t c; uint8_t d[5]; };
#pragma pack(pop)
	struct Pair // built from two references
	{
		uint32_t x, y;
		Pair() = default;
		Pair(const uint32_t& a, const uint32_t& b) : x(a), y(b) {}
	};
	struct Defaulted // not trivially default constructible
	{
		uint32_t a = 0x01020304;
	};
	static_assert(std::is_trivially_copyable_v<Pair> && std::is_trivially_copyable_v<Defaulted> && std::is_trivially_copyable_v<Packed19>);

	template<class T>
	T mk(unsigned v)
	{
		T t;
		unsigned char* c = reinterpret_cast<unsigned char*>(&t);
		for (size_t i = 0; i < sizeof(T); i++) c[i] = static_cast<unsigned char>(i == 0 ? v + 1 : (v * 2654435761u + i * 40503u + (v >> 3)) >> (8 * (i % 3)));
		return t;
	}
	template<class T>
	bool is(const T& t, unsigned v)
	{
		T m = mk<T>(v);
		return memcmp(&t, &m, sizeof(T)) == 0;
	}
	constexpr unsigned ANY = ~0u; // an element whose value is unspecified
	constexpr unsigned ZERO = ~0u - 1; // the value-initialised element
	template<class T>
	bool matches(const T& t, unsigned v)
	{
		if (v == ANY) return true;
		if (v == ZERO) { T z = T(); return memcmp(&t, &z, sizeof(T)) == 0; }
		return is(t, v);
	}

	// ---- an instrumented standard allocator ---------------------------------------------------------------------
	// Memory is taken from pool `id`; what is given back is verified there (pointer, size, once)
	template<class T>
	struct TAlloc
	{
		using value_type = T;
		int id;
		TAlloc() noexcept : id(0) {}
		explicit TAlloc(mc::PoolId p) noexcept : id(p.id) {}
		TAlloc(const TAlloc&) noexcept = default;
		TAlloc& operator=(const TAlloc&) noexcept = default;
		template<class U> TAlloc(const TAlloc<U>& o) noexcept : id(o.id) {}
		T* allocate(size_t n)
		{
			if (n > (size_t(1) << 40) / sizeof(T)) { fail("the container asked for %zu elements", n); _exit(1); }
			void* p = mc::pool_alloc(id, n * sizeof(T));
			return static_cast<T*>(p);
		}
		void deallocate(T* p, size_t n) { mc::pool_dealloc(id, p, n * sizeof(T)); }
		template<class U> bool operator==(const TAlloc<U>& o) const noexcept { return id == o.id; }
		template<class U> bool operator!=(const TAlloc<U>& o) const noexcept { return id != o.id; }
	};
	inline void make_pools(int n)
	{
		for (int i = 0; i < n; i++) mc::new_pool(size_t(1) << 19, 200, size_t(1) << 19);
	}

	// ---- what a sequence container shows, through every accessor --------------------------------------------------
	template<class V>
	size_t sizeOf(const V& v) { return v.size(); }

	template<class T, class C>
	void observe(C& v, const std::vector<unsigned>& model)
	{
		const C& c = v;
		size_t n = model.size();
		if (c.size() != n) { fail("size() is %zu instead of %zu", size_t(c.size()), n); return; }
		if (reinterpret_cast<uintptr_t>(c.data()) % alignof(T)) { fail("the elements are at the misaligned address %p", (const void*)c.data()); return; }
		if (size_t(v.end() - v.begin()) != n || size_t(c.end() - c.begin()) != n) { fail("end() - begin() is %ld instead of %zu", long(c.end() - c.begin()), n); return; }
		if (size_t(v.rend() - v.rbegin()) != n || size_t(c.rend() - c.rbegin()) != n) { fail("rend() - rbegin() is %ld instead of %zu", long(c.rend() - c.rbegin()), n); return; }
		if (c.data() != c.begin() || v.data() != v.begin()) { fail("data() and begin() differ"); return; }
		auto bad = [&](const char* how, size_t i) { fail("element %zu of %zu is wrong when read through %s", i, n, how); };
		for (size_t i = 0; i < n && !failed(); i++)
		{
			if (!matches<T>(v[i], model[i])) bad("operator[]", i);
			else if (!matches<T>(c[i], model[i])) bad("operator[] const", i);
			else if (!matches<T>(c.at(i), model[i])) bad("at()", i);
			else if (!matches<T>(c.data()[i], model[i])) bad("data()", i);
		}
		size_t i = 0;
		for (auto& x : v) { if (failed()) return; if (!matches<T>(x, model[i])) bad("iteration", i); i++; }
		i = 0;
		for (auto& x : c) { if (failed()) return; if (!matches<T>(x, model[i])) bad("const iteration", i); i++; }
		i = n;
		for (auto it = v.rbegin(); it != v.rend(); ++it) { if (failed()) return; i--; if (!matches<T>(*it, model[i])) bad("reverse iteration", i); }
		i = n;
		for (auto it = c.rbegin(); it != c.rend(); ++it) { if (failed()) return; i--; if (!matches<T>(*it, model[i])) bad("const reverse iteration", i); }
	}
}
