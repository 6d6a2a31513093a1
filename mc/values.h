// Elements whose value is their bits: of every unusual kind of type, every pattern of special values, through every
// way into and out of a container.
#pragma once
#include "conts.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <limits>
#include <vector>

namespace values
{
	using namespace mc;
	struct Host { int a; int b; int c; int f() { return a; } int g() const { return b; } };
	enum class Tiny : int8_t { low = -128, minus = -1, zero = 0, high = 127 };
	enum class Wide : uint64_t { none = 0, some = 0xFFFFFFFF, more = 0x100000000ull, all = ~0ull };
	struct Fields { unsigned a : 3, b : 29; signed c : 5, d : 27; };
	// Knows neither comparison nor its own address
	struct Shy
	{
		uint16_t v[3];
		Shy* operator&() const = delete;
		template<class T> bool operator==(const T&) const = delete;
		template<class T> bool operator<(const T&) const = delete;
		template<class T> void operator,(T&&) const = delete;
	};
	union Either { float f; uint32_t u; };
	struct Big { unsigned char b[70001]; };

	template<class T> std::vector<T> special();
	template<> inline std::vector<signed char> special() { return { 0, -1, -128, 127 }; }
	template<> inline std::vector<char16_t> special() { return { 0, 1, 0xFF00, 0xFFFF }; }
	template<> inline std::vector<double> special() { return { 0.0, -0.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min(), -1.5 }; }
	template<> inline std::vector<float> special() { return { 0.0f, -0.0f, -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), 16777217.0f, -std::numeric_limits<float>::denorm_min() }; }
	template<> inline std::vector<int Host::*> special() { return { nullptr, &Host::a, &Host::c }; }
	using Method = int (Host::*)() const;
	template<> inline std::vector<Method> special() { return { nullptr, &Host::g }; }
	using Function = int (*)(int);
	template<> inline std::vector<Function> special() { return { nullptr, static_cast<Function>(&std::abs), static_cast<Function>(&std::toupper) }; }
	template<> inline std::vector<const char*> special() { static const char t[4] = "abc"; return { nullptr, t, t + 3, reinterpret_cast<const char*>(~uintptr_t(0)) }; }
	template<> inline std::vector<Tiny> special() { return { Tiny::zero, Tiny::minus, Tiny::low, Tiny::high }; }
	template<> inline std::vector<Wide> special() { return { Wide::none, Wide::some, Wide::more, Wide::all }; }
	template<> inline std::vector<Fields> special() { return { { 0, 0, 0, 0 }, { 7, 0, -1, 0 }, { 0, 0x1FFFFFFF, 0, -1 }, { 5, 5, 5, 5 } }; }
	template<> inline std::vector<Shy> special() { return { { { 0, 0, 0 } }, { { 1, 0, 0 } }, { { 0, 0, 0xFFFF } } }; }
	template<> inline std::vector<Either> special() { Either z, n, q; z.u = 0; n.u = 0x80000000u; q.u = 0x7FA00001u; return { z, n, q }; }
	template<> inline std::vector<Big> special() { std::vector<Big> r(3); for (int k = 0; k < 3; k++) for (size_t i = 0; i < sizeof(Big); i++) r[size_t(k)].b[i] = (unsigned char)(k == 0 ? 0 : i * size_t(k) + i / 256); return r; }

	template<class T> struct Source // an array of T, also where std::vector<T> is none
	{
		T* p;
		size_t n;
		explicit Source(size_t k) : p(static_cast<T*>(::operator new((k + 1) * sizeof(T), std::align_val_t(64)))), n(k) { std::memset(static_cast<void*>(p), 0, (k + 1) * sizeof(T)); }
		~Source() { ::operator delete(static_cast<void*>(p), std::align_val_t(64)); }
		Source(const Source&) = delete;
	};
	template<class T> size_t kinds() { if constexpr (std::is_same_v<T, bool>) return 2; else return special<T>().size(); }
	template<class T> void set(T* at, size_t k)
	{
		if constexpr (std::is_same_v<T, bool>) *at = k % 2 != 0;
		else { static const std::vector<T> s = special<T>(); std::memcpy(static_cast<void*>(at), static_cast<const void*>(s.data() + k % s.size()), sizeof(T)); }
	}
	template<class C, class T> bool same(const C& c, const T* p, size_t n)
	{
		if (c.size() < n) { fail("%zu elements instead of %zu", size_t(c.size()), n); return false; }
		auto b = c.begin();
		for (size_t i = 0; i < n; i++)
			if (std::memcmp(static_cast<const void*>(c.data() + i), static_cast<const void*>(p + i), sizeof(T)) || std::memcmp(static_cast<const void*>(b + long(i)), static_cast<const void*>(p + i), sizeof(T)))
			{ fail("the bits of element %zu of %zu changed", i, n); return false; }
		return true;
	}
	// Every pattern of up to three special values, and each value many times
	template<class T, class F>
	void patterns(Cases& e, F f)
	{
		size_t k = kinds<T>();
		for (size_t n = 0; n <= 3; n++)
		{
			size_t total = 1;
			for (size_t i = 0; i < n; i++) total *= k;
			for (size_t c = 0; c < total; c++)
			{
				Source<T> s(n);
				size_t x = c;
				for (size_t i = 0; i < n; i++) { set(s.p + i, x % k); x /= k; }
				if (!f("pattern", n, c, s)) return;
			}
		}
		for (size_t n : { size_t(17), size_t(64), size_t(257) })
		{
			if (n > 17 && sizeof(T) > 1000) break;
			for (size_t c = 0; c <= k; c++)
			{
				Source<T> s(n);
				for (size_t i = 0; i < n; i++) set(s.p + i, c < k ? c : i);
				if (!f(c < k ? "all" : "mixed", n, c, s)) return;
			}
		}
	}
	template<bool Mine, class T, class A = conts::TAlloc<T>>
	void vectors(const char* name)
	{
		if constexpr (Mine)
			add_cases(std::string("special values, trivial_vector<") + name + ">", [](Cases& e)
			{
				using V = ktl::trivial_vector<T, A>;
				static const char* const forms[] = { "filled", "a list", "a range", "push_back", "push_back (moved)", "push_back of a range", "emplace_back", "emplace at the start", "resize and write", "reserve and push_back", "a copy", "an assigned copy", "moved", "erase in front", "pop_back" };
				for (size_t form = 0; form < sizeof forms / sizeof *forms; form++)
					patterns<T>(e, [&](const char* how, size_t n, size_t c, Source<T>& s)
					{
						if (form == 0 && how[0] == 'm') return true;
						if (!e.next("%s: %s of %zu values, number %zu", forms[form], how, n, c)) return true;
						conts::make_pools(1);
						{
							V v;
							switch (form)
							{
							case 0: for (size_t i = 1; i < n; i++) std::memcpy(static_cast<void*>(s.p + i), static_cast<void*>(s.p), sizeof(T)); v = V(n, s.p[0]); break;
							case 1: n = (std::min)(n, size_t(3)); v = n == 0 ? V(std::initializer_list<T>{}) : n == 1 ? V({ s.p[0] }) : n == 2 ? V({ s.p[0], s.p[1] }) : V({ s.p[0], s.p[1], s.p[2] }); break;
							case 2: v = V(static_cast<const T*>(s.p), static_cast<const T*>(s.p + n)); break;
							case 3: for (size_t i = 0; i < n; i++) v.push_back(static_cast<const T&>(s.p[i])); break;
							case 4: for (size_t i = 0; i < n; i++) v.push_back(std::move(s.p[i])); break;
							case 5: v.push_back(s.p, s.p + n / 2); v.push_back(s.p + n / 2, s.p + n); break;
							case 6: for (size_t i = 0; i < n; i++) v.emplace_back(s.p[i]); break;
							case 7: for (size_t i = n; i-- > 0;) v.emplace(v.begin(), s.p[i]); break;
							case 8: v.resize(n); for (size_t i = 0; i < n; i++) v[i] = s.p[i]; v.resize(2 * n + 3); v.resize(n); break;
							case 9: v.reserve(n); for (size_t i = 0; i < n; i++) v.push_back(s.p[i]); v.reserve(3 * n); break;
							case 10: { V x(static_cast<const T*>(s.p), static_cast<const T*>(s.p + n)); V y(x); v = std::move(y); break; }
							case 11: { V x(static_cast<const T*>(s.p), static_cast<const T*>(s.p + n)); v = x; break; }
							case 12: { V x(static_cast<const T*>(s.p), static_cast<const T*>(s.p + n)); V y(std::move(x)); v = std::move(y); break; }
							case 13: v.push_back(s.p, s.p + n); v.push_back(s.p, s.p + n); v.erase(v.begin(), v.begin() + long(n)); break;
							case 14:
								v.push_back(s.p, s.p + n);
								for (size_t i = n; i-- > 0 && !failed();)
								{
									T last = v.pop_back();
									if (std::memcmp(std::addressof(last), static_cast<const void*>(s.p + i), sizeof(T))) fail("pop_back() changed the bits of element %zu", i);
								}
								n = 0;
								break;
							}
							if (!failed() && v.size() != n) fail("%zu elements instead of %zu", size_t(v.size()), n);
							if (!failed()) same(v, s.p, n);
							e.step(n + 1);
						}
						return e.ok();
					});
			});
	}
	template<bool Mine, class T, class A = conts::TAlloc<T>>
	void arrays(const char* name)
	{
		if constexpr (Mine)
			add_cases(std::string("special values, trivial_array<") + name + ">", [](Cases& e)
			{
				using V = ktl::trivial_array<T, A>;
				static const char* const forms[] = { "filled", "a list", "a range", "assign", "written", "resize", "a copy", "an assigned copy", "moved" };
				for (size_t form = 0; form < sizeof forms / sizeof *forms; form++)
					patterns<T>(e, [&](const char* how, size_t n, size_t c, Source<T>& s)
					{
						if (form == 0 && how[0] == 'm') return true;
						if (!e.next("%s: %s of %zu values, number %zu", forms[form], how, n, c)) return true;
						conts::make_pools(1);
						{
							V v;
							const T *lo = s.p, *hi = s.p + n;
							switch (form)
							{
							case 0: for (size_t i = 1; i < n; i++) std::memcpy(static_cast<void*>(s.p + i), static_cast<void*>(s.p), sizeof(T)); v = V(n, s.p[0]); break;
							case 1: n = (std::min)(n, size_t(3)); v = n == 0 ? V(std::initializer_list<T>{}) : n == 1 ? V({ s.p[0] }) : n == 2 ? V({ s.p[0], s.p[1] }) : V({ s.p[0], s.p[1], s.p[2] }); break;
							case 2: v = V(lo, hi); break;
							case 3: v.resize(n); v.assign(lo, hi); break;
							case 4: v.resize(n); for (size_t i = 0; i < n; i++) v[i] = s.p[i]; break;
							case 5: v = V(lo, hi); v.resize(2 * n + 1); v.resize(n); break;
							case 6: { V x(lo, hi); V y(x); v = std::move(y); break; }
							case 7: { V x(lo, hi); v = x; break; }
							case 8: { V x(lo, hi); V y(std::move(x)); v = std::move(y); break; }
							}
							if (!failed() && v.size() != n) fail("%zu elements instead of %zu", size_t(v.size()), n);
							if (!failed()) same(v, s.p, n);
							e.step(n + 1);
						}
						return e.ok();
					});
			});
	}
	template<class T, size_t N>
	void buffer(Cases& e)
	{
		using V = ktl::trivial_buffer<T, N>;
		static const char* const forms[] = { "filled", "a list", "a range", "assign", "written", "a copy", "an assigned copy", "moved", "moved and assigned" };
		size_t k = kinds<T>(), total = 1;
		for (size_t i = 0; i < (N < 3 ? N : 3); i++) total *= k;
		for (size_t form = 0; form < sizeof forms / sizeof *forms; form++)
			for (size_t c = 0; c < total; c++)
			{
				if (!e.next("%zu elements, %s, number %zu", N, forms[form], c)) continue;
				Source<T> s(N), other(N);
				size_t x = c;
				for (size_t i = 0; i < N; i++) { set(s.p + i, x % k); x /= k; if (!x) x = c + i; set(other.p + i, c + i + 1); }
				if (form == 0) for (size_t i = 1; i < N; i++) std::memcpy(static_cast<void*>(s.p + i), static_cast<void*>(s.p), sizeof(T));
				if (form == 1 && N > 3) for (size_t i = 3; i < N; i++) std::memset(static_cast<void*>(s.p + i), 0, sizeof(T));
				const T *lo = s.p, *hi = s.p + N, *olo = other.p, *ohi = other.p + N;
				size_t look = form == 1 ? (std::min)(N, size_t(3)) : N;
				auto build = [&]() -> V*
				{
					switch (form)
					{
					case 0: return new V(s.p[0]);
					case 1: if constexpr (N == 1) return new V(std::initializer_list<T>{ s.p[0] }); else if constexpr (N == 2) return new V({ s.p[0], s.p[1] }); else return new V({ s.p[0], s.p[1], s.p[2] });
					case 2: return new V(lo, hi);
					case 3: { V* v = new V(olo, ohi); v->assign(lo, hi); return v; }
					case 4: { V* v = new V(olo, ohi); for (size_t i = 0; i < N; i++) (*v)[i + N] = s.p[i]; return v; }
					case 5: { V f(lo, hi); return new V(f); }
					case 6: { V f(lo, hi); V* v = new V(olo, ohi); *v = f; return v; }
					case 7: { V f(lo, hi); return new V(std::move(f)); }
					default: { V f(lo, hi); V* v = new V(olo, ohi); *v = std::move(f); return v; }
					}
				};
				V* v = build();
				same(*v, s.p, look);
				delete v;
				e.step(N);
				if (!e.ok()) return;
			}
	}
	template<bool Mine, class T>
	void buffers(const char* name)
	{
		if constexpr (Mine)
			add_cases(std::string("special values, trivial_buffer<") + name + ">", [](Cases& e) { buffer<T, 1>(e); buffer<T, 2>(e); buffer<T, 3>(e); buffer<T, 17>(e); });
	}
	// The elements leave the heap in order, each with the bits it came with; Comp may hold elements equal that differ
	template<bool Mine, class T, class Comp, class A = conts::TAlloc<T>>
	void heaps(const char* name)
	{
		if constexpr (Mine)
			add_cases(std::string("special values, binary_heap<") + name + ">", [](Cases& e)
			{
				using H = ktl::binary_heap<T, Comp, A>;
				static const char* const forms[] = { "insert", "a copy", "an assigned copy", "moved" };
				for (size_t form = 0; form < sizeof forms / sizeof *forms; form++)
					patterns<T>(e, [&](const char* how, size_t n, size_t c, Source<T>& s)
					{
						if (!e.next("%s: %s of %zu values, number %zu", forms[form], how, n, c)) return true;
						conts::make_pools(1);
						{
							H h;
							for (size_t i = 0; i < n; i++) h.insert(static_cast<const T&>(s.p[i]));
							if (form == 1) { H x(h); h = std::move(x); }
							if (form == 2) { H x; x = h; h = std::move(x); }
							if (form == 3) { H x(std::move(h)); h = std::move(x); }
							if (h.size() != n) fail("%zu elements instead of %zu", size_t(h.size()), n);
							std::vector<char> taken(n, 0);
							Source<T> out(n);
							for (size_t i = 0; i < n && !failed(); i++)
							{
								T x = h.pop();
								set(out.p + i, 0);
								std::memcpy(static_cast<void*>(out.p + i), std::addressof(x), sizeof(T));
								if (i && Comp()(out.p[i], out.p[i - 1])) fail("element %zu comes out after one that it precedes", i);
								size_t j = 0;
								while (j < n && (taken[j] || std::memcmp(static_cast<const void*>(s.p + j), std::addressof(x), sizeof(T)))) j++;
								if (j == n) fail("the element at %zu came out with other bits than any that went in", i);
								else taken[j] = 1;
							}
							if (!failed() && !h.empty()) fail("the heap is not empty at the end");
							e.step(n + 1);
						}
						return e.ok();
					});
			});
	}
	struct TotalDouble { bool operator()(double a, double b) const { if (a != a) return false; if (b != b) return true; return a < b; } }; // NaN last
}
