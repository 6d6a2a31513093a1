// The operations of the containers at sizes around the limits of narrow integers, against the standard ones.
// The state space cannot be closed there; these are all operations, at all marked positions, from all marked sizes.
#pragma once
#include "conts.h"
#include <algorithm>
#include <map>
#include <optional>
#include <sys/mman.h>
#include <unistd.h>

namespace scale
{
	using mc::Cases;
	using mc::fail;
	using mc::failed;
	using mc::thorough;

	inline std::vector<size_t> sizes(bool small = false)
	{
#ifdef MC_LIGHT
		if (!thorough()) return small ? std::vector<size_t>{ 256, 257 } : std::vector<size_t>{ 255, 257, 32769, 65537 };
#endif
		if (small) return { 127, 128, 129, 255, 256, 257 };
		std::vector<size_t> s{ 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537 };
		if (thorough()) for (size_t x : { size_t(0), size_t(1), size_t(64), size_t(1000), size_t(4096), size_t(40000), size_t(98304), size_t(131071), size_t(131072), size_t(131073) }) s.push_back(x);
		return s;
	}
	inline std::vector<size_t> marks(size_t n)
	{
		std::vector<size_t> r;
		for (size_t i : { size_t(0), size_t(1), size_t(128), size_t(256), n / 2, size_t(32768), size_t(65536), n - 2, n - 1, n })
			if (i <= n) r.push_back(i);
		std::sort(r.begin(), r.end());
		r.erase(std::unique(r.begin(), r.end()), r.end());
		return r;
	}
	// The element at a position: no two stretches of the sequence look alike
	template<class T>
	T at(size_t i, unsigned salt = 0)
	{
		T t;
		unsigned char* c = reinterpret_cast<unsigned char*>(&t);
		uint64_t h = (i + 1 + uint64_t(salt) * 0x100000000ull) * 0x9E3779B97F4A7C15ull;
		for (size_t k = 0; k < sizeof(T); k++)
		{
			h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull;
			c[k] = static_cast<unsigned char>(h >> 40);
		}
		return t;
	}
	template<class T>
	std::vector<T> many(size_t n, unsigned salt = 0)
	{
		std::vector<T> v(n);
		for (size_t i = 0; i < n; i++) v[i] = at<T>(i, salt);
		return v;
	}
	// From `from` on the elements are unspecified
	template<class T, class C>
	void same(C& c, const std::vector<T>& want, size_t known = ~size_t(0))
	{
		if (failed()) return;
		const C& k = c;
		size_t n = want.size();
		if (size_t(k.size()) != n) { fail("size() is %zu instead of %zu", size_t(k.size()), n); return; }
		if (size_t(k.end() - k.begin()) != n || size_t(k.rend() - k.rbegin()) != n || size_t(c.end() - c.begin()) != n || size_t(c.rend() - c.rbegin()) != n) { fail("the iterators of %zu elements span %ld", n, long(k.end() - k.begin())); return; }
		if (k.data() != k.begin() || c.data() != c.begin()) { fail("data() and begin() differ"); return; }
		if (k.empty() != (n == 0)) { fail("empty() is %d with %zu elements", int(k.empty()), n); return; }
		size_t m = std::min(n, known);
		for (size_t i = 0; i < m; i++)
			if (memcmp(k.data() + i, want.data() + i, sizeof(T)) != 0) { fail("element %zu of %zu is wrong", i, n); return; }
		for (size_t i = 0; i < m; i += 1 + i / 7) // every accessor, where they might differ
			if (&c[i] != c.data() + i || &k[i] != k.data() + i || &k.at(i) != k.data() + i) { fail("element %zu of %zu is another one through operator[] or at()", i, n); return; }
	}

	// An allocator that keeps account of what is given out; one without value differs from one with another number
	struct Account
	{
		std::map<const void*, std::pair<size_t, int>> out;
		void take(const void* p, size_t n, int id) { out[p] = { n, id }; }
		void give(const void* p, size_t n, int id)
		{
			auto it = out.find(p);
			if (it == out.end()) fail("%p is given back, which is not out", p);
			else
			{
				if (it->second.first != n) fail("%zu bytes are given back as %zu", it->second.first, n);
				if (it->second.second != id) fail("a block of allocator %d is given back to %d", it->second.second, id);
				out.erase(it);
			}
		}
		void settle() { if (!failed() && !out.empty()) fail("%zu blocks were never given back", out.size()); if (failed()) out.clear(); }
	};
	inline Account& account() { static Account* a = new Account(); return *a; }
	template<class T>
	struct Counted
	{
		using value_type = T;
		int id = 0;
		Counted() noexcept = default;
		explicit Counted(int i) noexcept : id(i) {}
		template<class U> Counted(const Counted<U>& o) noexcept : id(o.id) {}
		T* allocate(size_t n)
		{
			if (n > (size_t(1) << 32) / sizeof(T)) { fail("the container asked for %zu elements", n); _exit(1); }
			void* p = ::operator new(n * sizeof(T));
			account().take(p, n * sizeof(T), id);
			return static_cast<T*>(p);
		}
		void deallocate(T* p, size_t n)
		{
			if (!p) { if (n) fail("null is given back with %zu elements", n); return; }
			account().give(p, n * sizeof(T), id);
			if (!failed()) ::operator delete(p);
		}
		template<class U> bool operator==(const Counted<U>& o) const noexcept { return id == o.id; }
		template<class U> bool operator!=(const Counted<U>& o) const noexcept { return id != o.id; }
	};

	template<class A> struct Another { static A make() { return A(); } };
	template<class T> struct Another<Counted<T>> { static Counted<T> make() { return Counted<T>(1); } };

	// The next case, on a system that grants large requests
	template<class... P>
	bool next(Cases& e, const char* fmt, P... p)
	{
		account().settle();
		if (!e.next(fmt, p...)) return false;
		mc::world().sysLimit = size_t(1) << 24;
		return true;
	}

	template<bool Mine, class T, class A = std::allocator<T>>
	void vectors(const char* name)
	{
		if constexpr (Mine)
			mc::add_cases(name, [](Cases& e)
			{
				using V = ktl::trivial_vector<T, A>;
				for (size_t n : sizes())
				{
					const std::vector<T> src = many<T>(n), other = many<T>(300, 1);
					const T one = at<T>(5, 2);
					auto room = [](V& v) { if (!failed() && v.capacity() < v.size()) fail("%zu elements with a capacity of %zu", size_t(v.size()), size_t(v.capacity())); };
					auto full = [&] { return V(src.data(), src.data() + n, A()); };

					if (!next(e, "the constructors with %zu elements", n)) {} else
					{
						V sized(n, A());
						for (size_t i = 0; i < n; i++) sized[i] = src[i];
						same<T>(sized, src);
						V filled(n, one, A());
						same<T>(filled, std::vector<T>(n, one));
						V range = full();
						same<T>(range, src);
						V copy(range);
						same<T>(copy, src); same<T>(range, src);
						V ext(range, Another<A>::make());
						same<T>(ext, src);
						V moved(std::move(copy));
						same<T>(moved, src); same<T>(copy, {});
						V mext(std::move(moved), Another<A>::make());
						same<T>(mext, src); same<T>(moved, {});
						V assigned(other.data(), other.data() + 300, Another<A>::make());
						assigned = range;
						same<T>(assigned, src); same<T>(range, src);
						V m2(other.data(), other.data() + 300, Another<A>::make());
						m2 = std::move(assigned);
						same<T>(m2, src); same<T>(assigned, {});
						V back(other.data(), other.data() + 300, A());
						m2 = back;
						same<T>(m2, other);
						room(m2); room(range); room(mext);
						e.step(10);
						if (!e.ok()) return;
					}
					for (int how = 0; how < 4; how++)
					{
						static const char* const hows[] = { "push_back", "push_back(rvalue)", "emplace_back", "emplace at the end" };
						if (!next(e, "%zu times %s, then pop_back", n, hows[how])) continue;
						V v{ A() };
						for (size_t i = 0; i < n && !failed(); i++)
						{
							T x = src[i];
							T* p = nullptr;
							if (how == 0) p = v.push_back(x);
							else if (how == 1) p = v.push_back(std::move(x));
							else if (how == 2) p = v.emplace_back(x);
							else v.emplace(v.end(), x);
							if (how < 3 && p != v.data() + i) fail("the returned iterator is not that of element %zu", i);
							room(v);
						}
						same<T>(v, src);
						for (size_t i = n; i-- > 0 && !failed();)
						{
							T x = v.pop_back();
							if (memcmp(&x, &src[i], sizeof(T)) || size_t(v.size()) != i) fail("pop_back() with %zu elements went wrong", i + 1);
						}
						e.step(2 * n);
						if (!e.ok()) return;
					}
					for (size_t k : sizes())
					{
						if (!next(e, "push_back of %zu elements onto %zu", k, n)) continue;
						const std::vector<T> add = many<T>(k, 3);
						V v = full();
						T* p = v.push_back(add.data(), add.data() + k);
						std::vector<T> want = src;
						want.insert(want.end(), add.begin(), add.end());
						if (!failed() && p != v.data() + n) fail("the returned iterator is not that of the first one added");
						same<T>(v, want);
						room(v);
						v.resize(n);
						same<T>(v, src);
						v.reserve(n + k);
						room(v);
						same<T>(v, src);
						V w(add.data(), add.data() + k, A());
						w = v;
						same<T>(w, src);
						v.resize(k);
						want = src;
						want.resize(k);
						same<T>(v, want, n);
						V u = full();
						size_t had = u.capacity();
						u.reserve(k);
						if (!failed() && u.capacity() < std::max(k, had)) fail("the capacity is %zu after reserve(%zu)", size_t(u.capacity()), k);
						same<T>(u, src);
						u.resize(n + k);
						want = src;
						want.resize(n + k);
						same<T>(u, want, n);
						room(u);
						e.step(8);
						if (!e.ok()) return;
					}
					for (int spare = 0; spare < 2; spare++)
						for (size_t i : marks(n))
						{
							if (!next(e, "emplace and erase at %zu of %zu%s", i, n, spare ? " with spare capacity" : "")) continue;
							V v = full();
							if (spare) v.reserve(n + 3);
							std::vector<T> want = src;
							v.emplace(v.begin() + i, one);
							want.insert(want.begin() + long(i), one);
							same<T>(v, want);
							room(v);
							auto r = v.erase(v.begin() + i);
							want.erase(want.begin() + long(i));
							if (!failed() && r != v.begin() + i) fail("the iterator returned by erase is wrong");
							same<T>(v, want);
							for (size_t j : marks(n))
							{
								if (j < i || failed()) continue;
								V w(v);
								std::vector<T> rest = want;
								auto q = w.erase(w.begin() + i, w.begin() + j);
								rest.erase(rest.begin() + long(i), rest.begin() + long(j));
								if (!failed() && q != w.begin() + i) fail("the iterator returned by erase of [%zu, %zu) is wrong", i, j);
								same<T>(w, rest);
								e.step();
							}
							e.step(2);
							if (!e.ok()) return;
						}
				}
				account().settle();
			});
	}

	template<bool Mine, class T, class A = std::allocator<T>>
	void arrays(const char* name)
	{
		if constexpr (Mine)
			mc::add_cases(name, [](Cases& e)
			{
				using V = ktl::trivial_array<T, A>;
				for (size_t n : sizes())
				{
					const std::vector<T> src = many<T>(n), other = many<T>(300, 1);
					const T one = at<T>(5, 2);
					if (!next(e, "the constructors with %zu elements", n)) {} else
					{
						V sized(n, A());
						for (size_t i = 0; i < n; i++) sized[i] = src[i];
						same<T>(sized, src);
						V filled(n, one, A());
						same<T>(filled, std::vector<T>(n, one));
						V range(src.data(), src.data() + n, A());
						same<T>(range, src);
						V copy(range);
						same<T>(copy, src); same<T>(range, src);
						V ext(range, Another<A>::make());
						same<T>(ext, src);
						V moved(std::move(copy));
						same<T>(moved, src); same<T>(copy, {});
						V mext(std::move(moved), Another<A>::make());
						same<T>(mext, src); same<T>(moved, {});
						V assigned(other.data(), other.data() + 300, Another<A>::make());
						assigned = range;
						same<T>(assigned, src); same<T>(range, src);
						V m2(other.data(), other.data() + 300, Another<A>::make());
						m2 = std::move(assigned);
						same<T>(m2, src); same<T>(assigned, {});
						e.step(9);
						if (!e.ok()) return;
					}
					for (size_t k : sizes())
					{
						if (!next(e, "from %zu to %zu elements", n, k)) continue;
						const std::vector<T> add = many<T>(k, 3);
						V v(src.data(), src.data() + n, A());
						v.resize(k);
						std::vector<T> want = src;
						want.resize(k);
						same<T>(v, want, n);
						V w(src.data(), src.data() + n, A());
						w.assign(add.data(), add.data() + k);
						same<T>(w, add);
						V u(src.data(), src.data() + n, A());
						u = w;
						same<T>(u, add); same<T>(w, add);
						V x(src.data(), src.data() + n, A());
						x = std::move(u);
						same<T>(x, add); same<T>(u, {});
						e.step(4);
						if (!e.ok()) return;
					}
				}
				account().settle();
			});
	}

	// More elements than 32 bits can count: nothing is read or written but around the limits
	template<bool Mine>
	void beyond(const char* name, bool vector)
	{
#if !defined(MC_LIGHT)
		if constexpr (Mine)
			mc::add_cases(name, [vector](Cases& e)
			{
				for (size_t n : { (size_t(1) << 31) + 3, (size_t(1) << 32) + 5 })
				{
					auto spots = [n](auto& c, size_t upTo, const char* what)
					{
						const auto& k = c;
						for (size_t i : { size_t(0), size_t(3), size_t(5), (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 31) + 2, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 2, n - 3 })
							if (i < upTo && !failed() && (k[i] != at<uint8_t>(i) || &k.at(i) != k.data() + i || &c[i] != c.data() + i)) fail("%s: element %zu is wrong", what, i);
					};
					auto fill = [n](auto& c)
					{
						for (size_t i : { size_t(0), size_t(3), size_t(5), (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 31) + 2, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 2, n - 3 })
							if (i < n) c[i] = at<uint8_t>(i);
						c[n - 2] = 7; c[n - 1] = 8;
					};
					auto count = [](auto& c, size_t want, const char* what)
					{
						const auto& k = c;
						if (!failed() && (size_t(k.size()) != want || size_t(k.end() - k.begin()) != want || size_t(k.rend() - k.rbegin()) != want || k.empty())) fail("%s: there are %zu elements instead of %zu", what, size_t(k.size()), want);
					};
					if (vector)
					{
						using V = ktl::trivial_vector<uint8_t, std::allocator<uint8_t>>;
						if (!next(e, "trivial_vector of %zu elements", n)) continue;
						e.step(); V v(n);
						count(v, n, "sized");
						if (e.ok()) { fill(v); spots(v, n - 2, "sized"); }
						if (!e.ok()) return;
						e.step(); v.erase(v.begin() + (n - 2));
						count(v, n - 1, "erase");
						spots(v, n - 2, "erase");
						if (!failed() && v[n - 2] != 8) fail("erase: the last element is wrong");
						e.step(); v.emplace(v.begin() + (n - 2), uint8_t(9));
						count(v, n, "emplace");
						if (!failed() && (v[n - 2] != 9 || v[n - 1] != 8)) fail("emplace: the last elements are wrong");
						spots(v, n - 2, "emplace");
						e.step(); v.erase(v.begin() + (n - 2), v.begin() + n);
						count(v, n - 2, "erase of a range");
						if (e.ok()) { v.emplace_back(uint8_t(9)); v.push_back(uint8_t(8)); }
						count(v, n, "push_back");
						if (!e.ok()) return;
						e.step(); v.reserve(n + 4);
						count(v, n, "reserve");
						if (!failed() && v.capacity() < n + 4) fail("reserve: the capacity is %zu", size_t(v.capacity()));
						spots(v, n - 2, "reserve");
						const uint8_t few[3] = { 1, 2, 3 };
						e.step(); v.push_back(few, few + 3);
						count(v, n + 3, "push_back of a range");
						if (!failed() && (v[n - 2] != 9 || v[n] != 1 || v[n + 2] != 3)) fail("push_back of a range: the last elements are wrong");
						e.step(); V w(std::move(v));
						count(w, n + 3, "move");
						spots(w, n - 2, "move");
						if (!failed() && v.size() != 0) fail("a moved-from vector has %zu elements", size_t(v.size()));
					}
					else
					{
						using V = ktl::trivial_array<uint8_t, std::allocator<uint8_t>>;
						if (!next(e, "trivial_array of %zu elements", n)) continue;
						e.step(); V v(n);
						count(v, n, "sized");
						if (e.ok()) { fill(v); spots(v, n - 2, "sized"); }
						if (!e.ok()) return;
						e.step(); v.resize(n + 4);
						count(v, n + 4, "resize");
						spots(v, n - 2, "resize");
						e.step(); V w(std::move(v));
						count(w, n + 4, "move");
						spots(w, n - 2, "move");
						e.step(); w.resize(n - 2);
						count(w, n - 2, "smaller");
						spots(w, n - 2, "smaller");
					}
					if (!e.ok()) return;
				}
			});
#else
		(void)name; (void)vector;
#endif
	}

	// Memory in large pages, if there are any
	template<class T>
	struct Mapped
	{
		using value_type = T;
		Mapped() noexcept = default;
		template<class U> Mapped(const Mapped<U>&) noexcept {}
		T* allocate(size_t n)
		{
			void* p = mmap(nullptr, n * sizeof(T) + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) { fail("there is no memory for %zu elements", n); _exit(1); }
			madvise(p, n * sizeof(T) + 1, MADV_HUGEPAGE);
			account().take(p, n * sizeof(T), 0);
			return static_cast<T*>(p);
		}
		void deallocate(T* p, size_t n) { if (!p) return; account().give(p, n * sizeof(T), 0); if (!failed()) munmap(static_cast<void*>(p), n * sizeof(T) + 1); }
		template<class U> bool operator==(const Mapped<U>&) const noexcept { return true; }
		template<class U> bool operator!=(const Mapped<U>&) const noexcept { return false; }
	};
	// Copies of more elements than 32 bits can count
	template<class V>
	void copyBeyond(Cases& e, const char* name)
	{
		constexpr size_t n = (size_t(1) << 32) + 5;
		auto look = [](const V& v, const char* what)
		{
			if (failed()) return;
			if (size_t(v.size()) != n) { fail("%s: there are %zu elements instead of %zu", what, size_t(v.size()), n); return; }
			for (size_t i : { size_t(0), size_t(3), size_t(1) << 16, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, n - 1 })
				if (v.data()[i] != at<uint8_t>(i)) { fail("%s: element %zu is wrong", what, i); return; }
		};
		static const char* const forms[] = { "copied", "copied with an allocator", "moved to an allocator", "copy-assigned", "moved and move-assigned" };
		for (int form = 0; form < 5; form++)
		{
			if (!thorough() && (form == 1 || form == 4)) continue; // memory of that size is slow
			if (!next(e, "%s of %zu elements, %s", name, n, forms[form])) continue;
			Mapped<uint8_t> a;
			V v(n, a);
			for (size_t i : { size_t(0), size_t(3), size_t(1) << 16, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, n - 1 }) v.data()[i] = at<uint8_t>(i);
			e.step();
			std::optional<V> w;
			switch (form)
			{
			case 0: w.emplace(static_cast<const V&>(v)); break;
			case 1: w.emplace(static_cast<const V&>(v), a); break;
			case 2: w.emplace(std::move(v), a); break;
			case 3: w.emplace(size_t(3), a); *w = static_cast<const V&>(v); break;
			default: w.emplace(size_t(3), a); { V x(std::move(v)); *w = std::move(x); }
			}
			e.step();
			look(*w, forms[form]);
			if (form == 2 || form == 4) { if (!failed() && v.size() != 0) fail("%s: the source has %zu elements", forms[form], size_t(v.size())); }
			else
			{
				look(v, "the source");
				if (!failed()) (*w).data()[n - 1]++;
				look(v, "the source after its copy was changed");
			}
			if (!e.ok()) return;
		}
	}

	// ---- buffers ----------------------------------------------------------------------------------------------------
	template<class B>
	struct PlaceOf // behind another member, on the heap
	{
		char c;
		B b;
		explicit PlaceOf(int) : c(1) {}
		template<class... X> explicit PlaceOf(char, const X&... x) : c(1), b(x...) {}
	};
	template<class T, size_t N>
	void buffer(Cases& e)
	{
		using B = ktl::trivial_buffer<T, N>;
		using Place = PlaceOf<B>;
		if (!e.next("a buffer of %zu elements of %zu bytes", N, sizeof(T))) return;
		const std::vector<T> src = many<T>(N), other = many<T>(N, 1);
		auto look = [](B& b, const std::vector<T>& want)
		{
			if (failed()) return;
			const B& k = b;
			if (size_t(k.size()) != N || size_t(k.end() - k.begin()) != N || size_t(b.end() - b.begin()) != N || size_t(k.rend() - k.rbegin()) != N || size_t(b.rend() - b.rbegin()) != N || k.data() != k.begin() || b.data() != b.begin()) { fail("the buffer shows %zu elements, %ld between its iterators", size_t(k.size()), long(k.end() - k.begin())); return; }
			for (size_t i = 0; i < N; i++) if (memcmp(k.data() + i, &want[i], sizeof(T))) { fail("element %zu of %zu is wrong", i, N); return; }
			size_t top = ~size_t(0);
			for (size_t base : { size_t(0), N, 2 * N, 3 * N - 1, size_t(255), size_t(65535), size_t(65536), (size_t(1) << 31), (size_t(1) << 32) - 1, (size_t(1) << 32), (size_t(1) << 32) + N, top - N, top - 4 })
				for (size_t d = 0; d < 4; d++)
				{
					size_t i = base + d;
					if (&b[i] != b.data() + i % N || &k[i] != k.data() + i % N || &b.at(i) != b.data() + i % N || &k.at(i) != k.data() + i % N) { fail("index %zu of %zu leads to another element than %zu", i, N, i % N); return; }
				}
			for (size_t i = 0; i < N; i += 1 + i / 9)
				if (&b[i] != b.data() + i || &k[i] != k.data() + i || &b.at(i) != b.data() + i || &k.at(i) != k.data() + i) { fail("index %zu of %zu leads to another element", i, N); return; }
		};
		{
			auto plain = std::make_unique<Place>(0);
			for (size_t i = 0; i < N; i++) plain->b[i] = src[i];
			look(plain->b, src);
			T one = at<T>(5, 2);
			auto filled = std::make_unique<Place>('v', one);
			look(filled->b, std::vector<T>(N, one));
			auto range = std::make_unique<Place>('v', src.data(), src.data() + N);
			look(range->b, src);
			auto copy = std::make_unique<Place>('v', range->b);
			look(copy->b, src);
			range->b.assign(other.data(), other.data() + N);
			look(range->b, other); look(copy->b, src);
			*copy = *range;
			look(copy->b, other);
			filled->b = std::move(range->b);
			look(filled->b, other);
			B& self = copy->b;
			copy->b = self;
			look(copy->b, other);
			e.step(7);
		}
		e.ok();
	}
	template<bool Mine, class T, size_t... N>
	void buffers(const char* name)
	{
		if constexpr (Mine)
			mc::add_cases(name, [](Cases& e)
			{
				(void)std::initializer_list<int>{ (failed() ? 0 : (buffer<T, N>(e), 0))... };
			});
	}
	template<bool Mine>
	void hugeBuffer(const char* name)
	{
#if !defined(MC_LIGHT)
		if constexpr (Mine)
			mc::add_cases(name, [](Cases& e)
			{
				constexpr size_t N = (size_t(1) << 32) + 5;
				using B = ktl::trivial_buffer<uint8_t, N>;
				if (!e.next("a buffer of %zu bytes", N)) return;
				void* mem = ::operator new(sizeof(B));
				B& b = *::new (mem) B;
				const B& k = b;
				if (size_t(k.size()) != N || size_t(k.end() - k.begin()) != N || size_t(k.rend() - k.rbegin()) != N) fail("the buffer shows %zu elements", size_t(k.size()));
				for (size_t i : { size_t(0), size_t(4), size_t(5), (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, N - 1, N, N + 1, N + 4, N + 5, 2 * N - 1, 2 * N, 3 * N + 7, size_t(1) << 63, ~size_t(0) })
				{
					e.step();
					if (!failed() && (&b[i] != b.data() + i % N || &k[i] != k.data() + i % N || &b.at(i) != b.data() + i % N || &k.at(i) != k.data() + i % N)) fail("index %zu leads to another element than %zu", i, i % N);
				}
				b.~B();
				::operator delete(mem);
				e.ok();
			});
#else
		(void)name;
#endif
	}

	// ---- heaps ------------------------------------------------------------------------------------------------------
	template<class I, class Order, bool Max, class A>
	void heap(Cases& e, size_t n, int shape, int mode)
	{
		using H = ktl::binary_heap<I, Order, A>;
		static const char* const shapes[] = { "ascending", "descending", "equal", "alternating", "shuffled", "one small at the end", "organ pipe" };
		static const char* const modes[] = { "", " reserved", " with pops between", " through a copy", " moved to another allocator", " assigned over another" };
		if (!next(e, "%zu %s keys%s", n, shapes[shape], modes[mode])) return;
		std::vector<int> keys(n);
		for (size_t i = 0; i < n; i++)
			keys[i] = shape == 0 ? int(i) : shape == 1 ? int(n - i) : shape == 2 ? 3 : shape == 3 ? int(i % 2) : shape == 4 ? int((unsigned(i) * 1103515245u + 12345u ^ unsigned(i) << 13) >> 3) : shape == 5 ? (i + 1 == n ? 1 : 5) : int(std::min(i, n - i));
		std::vector<int> left = keys;
		std::vector<char> out(n, 0);
		auto before = [](int a, int b) { return Max ? a > b : a < b; };
		{
			H h{ A() };
			if (mode == 1) h.reserve(n);
			std::vector<int> model; // a reference heap
			auto popOne = [&](H& from)
			{
				std::pop_heap(model.begin(), model.end(), [&](int a, int b) { return before(b, a); });
				int want = model.back();
				model.pop_back();
				I p = from.peek();
				I x = from.pop();
				if (p.key != x.key || p.tag != x.tag) fail("pop() returns another element than peek() shows");
				else if (x.key != want) fail("pop() returns key %d instead of %d with %zu elements left", x.key, want, size_t(from.size()));
				else if (x.tag < 0 || size_t(x.tag) >= n || keys[size_t(x.tag)] != x.key || out[size_t(x.tag)]) fail("pop() returns an element that is not in the heap");
				else out[size_t(x.tag)] = 1;
			};
			for (size_t i = 0; i < n && !failed(); i++)
			{
				I x;
				x.key = keys[i];
				x.tag = int(i);
				auto it = h.insert(x);
				model.push_back(keys[i]);
				std::push_heap(model.begin(), model.end(), [&](int a, int b) { return before(b, a); });
				if (it < h.begin() || it >= h.end() || it->tag != int(i)) fail("insert() of element %zu returns the position of another", i);
				else if (h.size() != model.size() || h.capacity() < h.size()) fail("%zu elements with a capacity of %zu, there should be %zu", size_t(h.size()), size_t(h.capacity()), model.size());
				e.step();
				if (mode == 2 && i % 3 == 2) popOne(h);
			}
			if (!e.ok()) return;
			if (mode == 0)
				for (size_t i = 0; i < n && !failed(); i += 1 + i)
				{
					I x;
					x.key = keys[i];
					x.tag = int(i);
					auto f = h.find(x);
					if (f == h.end() || f->tag != int(i)) fail("find() does not find element %zu", i);
				}
			H other{ Another<A>::make() };
			H* from = &h;
			std::unique_ptr<H> q;
			if (mode == 3) { q = std::make_unique<H>(h); from = q.get(); }
			if (mode == 4) { q = std::make_unique<H>(std::move(h), Another<A>::make()); from = q.get(); }
			if (mode == 5)
			{
				for (int i = 0; i < 300; i++) { I x; x.key = i; x.tag = -1; other.insert(x); }
				other = h;
				from = &other;
			}
			if (!failed() && from->size() != model.size()) fail("there are %zu elements instead of %zu", size_t(from->size()), model.size());
			if (mode == 1 && n % 2 == 0) { h.clear(); if (!failed() && (h.size() || !h.empty())) fail("there are %zu elements after clear()", size_t(h.size())); }
			else while (!model.empty() && !failed()) { popOne(*from); e.step(); }
			if (!failed() && !from->empty()) fail("%zu elements remain", size_t(from->size()));
		}
		e.ok();
	}
	template<bool Mine, class I, class Order, bool Max, class A = std::allocator<I>>
	void heaps(const char* name)
	{
		if constexpr (Mine)
			mc::add_cases(name, [](Cases& e)
			{
				for (size_t n : sizes())
					for (int shape = 0; shape < 7; shape++)
						for (int mode = 0; mode < 6; mode++)
							if (!failed()) heap<I, Order, Max, A>(e, n, shape, mode);
				for (size_t n : { size_t(131073), size_t(200001), size_t(400001) }) // with children beyond the limits
					for (int shape : { 0, 1, 4, 6 })
						if (!failed()) heap<I, Order, Max, A>(e, n, shape, 0);
				account().settle();
			});
	}
}
