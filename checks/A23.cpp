// PARTS: 4
// Every composite over parts with every subset of the optional operations: it compiles, offers exactly the
// optional operations that its parts make possible, and these give the answers of the parts.
#include "confs.h"
#include <memory>
#include <utility>
namespace
{
	using namespace mc;
	using conf::Text;
	enum : int { OWNS = 1, MAXI = 2, CONS = 4, DEST = 8 };

	// What reached each part
	struct Calls { int allocs = 0, frees = 0, owns = 0, cons = 0, dest = 0; size_t used = 0, live = 0; };
	Calls calls[2];
	alignas(64) char store[2][1 << 14];
	size_t maximum(int id) { return id ? 777 : 1111; }

	// Hands out memory front to back until all of it came back
	template<int ID, int M, class Size = size_t>
	struct Part
	{
		typedef Size size_type;
		void* allocate(Size n)
		{
			Calls& c = calls[ID];
			size_t t = (size_t(n) + 15) / 16 * 16;
			if (n > maximum(ID) || c.used + t > sizeof store[ID]) return nullptr;
			c.allocs++; c.live += n;
			c.used += t;
			return store[ID] + c.used - t;
		}
		void deallocate(void* p, Size n)
		{
			Calls& c = calls[ID];
			if (p < store[ID] || p >= store[ID] + sizeof store[ID]) { fail("part %d was given back %p, which is not its own", ID, p); return; }
			c.frees++; c.live -= n;
			if (c.allocs == c.frees && c.live) fail("part %d was given back other sizes than it was asked for", ID);
		}
		template<int X = M> std::enable_if_t<(X & OWNS) != 0, bool> owns(void* p) const noexcept { calls[ID].owns++; return p >= store[ID] && p < store[ID] + sizeof store[ID]; }
		template<int X = M> std::enable_if_t<(X & MAXI) != 0, Size> max_size() const noexcept { return Size(maximum(ID)); }
		template<class T, class... A> std::enable_if_t<(M & CONS) != 0 && sizeof(T*) != 0> construct(T* p, A&&... a) { calls[ID].cons++; ::new (static_cast<void*>(p)) T(std::forward<A>(a)...); }
		template<class T> std::enable_if_t<(M & DEST) != 0 && sizeof(T*) != 0> destroy(T* p) { calls[ID].dest++; p->~T(); }
		bool operator==(const Part&) const { return true; }
		bool operator!=(const Part&) const { return false; }
	};
	struct Thing { int a; static inline int built = 0, gone = 0; Thing() : a(-1) { built++; } explicit Thing(int v) : a(v) { built++; } ~Thing() { gone++; } };

	template<class A, class V, class = void> struct can_own : std::false_type {};
	template<class A, class V> struct can_own<A, V, std::void_t<decltype(std::declval<const A&>().owns(std::declval<V*>()))>> : std::true_type {};
	template<class A, class = void> struct can_max : std::false_type {};
	template<class A> struct can_max<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};
	template<class A, class = void> struct can_cons : std::false_type {};
	template<class A> struct can_cons<A, std::void_t<decltype(std::declval<A&>().construct(std::declval<Thing*>(), 1))>> : std::true_type {};
	template<class A, class = void> struct can_dest : std::false_type {};
	template<class A> struct can_dest<A, std::void_t<decltype(std::declval<A&>().destroy(std::declval<Thing*>()))>> : std::true_type {};

	// offers: what it has to offer; maxima: the largest and smallest answer of max_size(); counts in objects?
	struct Want
	{
		int offers;
		size_t atMost, atLeast;
		int parts;       // how many parts
		int mask[2];     // what the parts define
		size_t boundary; // blocks of at most this size come from part 0
		bool counted;    // construct() and destroy() are the composite's own, whatever the parts define
	};
	template<class A, bool Typed>
	bool offers(Cases& e, const char* name, const Want& w)
	{
		auto differs = [&](bool has, int bit, const char* what)
		{
			if (has != bool(w.offers & bit)) fail("%s() is %s", what, has ? "offered although a part it needs does not define it" : "not offered although the parts define it");
		};
		if (!e.next("%s: what is offered", name)) return true;
		differs(can_own<A, std::conditional_t<Typed, Thing, void>>::value, OWNS, "owns");
		differs(can_max<A>::value, MAXI, "max_size");
		differs(can_cons<A>::value, CONS, "construct");
		differs(can_dest<A>::value, DEST, "destroy");
		e.step();
		return e.ok();
	}
	// Uses what is offered
	template<bool Typed, class Make>
	bool uses(Cases& e, const char* name, const Want& w, Make make)
	{
		constexpr size_t unit = Typed ? sizeof(Thing) : 1;
		for (size_t n : { size_t(1), size_t(8), size_t(16), size_t(17), size_t(40), size_t(200), size_t(400) })
			for (int how = 0; how < 4; how++)
			{
				size_t k = n / unit;
				if (!k || !e.next("%s: %zu %s, %s", name, k, Typed ? "objects" : "bytes", how == 0 ? "allocated and given back" : how == 1 ? "asked about" : how == 2 ? "one object" : "three blocks")) continue;
				calls[0] = calls[1] = Calls();
				Thing::built = Thing::gone = 0;
				bool finished = false;
				make([&](auto& a)
				{
					using A = std::decay_t<decltype(a)>;
					const A& ca = a;
					int serves = w.parts > 1 && k * unit > w.boundary ? 1 : 0;
					void* p[3] = {};
					int blocks = how == 3 ? 3 : 1;
					for (int i = 0; i < blocks; i++)
					{
						p[i] = a.allocate(k);
						if (!p[i]) { fail("allocate(%zu) failed", k); return; }
						if (p[i] < store[serves] || static_cast<char*>(p[i]) + k * unit > store[serves] + sizeof store[serves]) { fail("allocate(%zu) was served by another part", k); return; }
						for (int j = 0; j < i; j++) if (static_cast<char*>(p[i]) - static_cast<char*>(p[j]) < long(k * unit)) { fail("blocks overlap"); return; }
						memset(p[i], 17 + i, k * unit);
					}
					using P = std::conditional_t<Typed, Thing, void>;
					if (how == 1)
					{
						if constexpr (can_own<A, P>::value)
						{
							Thing other(1);
							if (!ca.owns(static_cast<P*>(p[0]))) fail("owns() denies a live block");
							if (ca.owns(static_cast<P*>(&other))) fail("owns() claims memory of nobody");
						}
						if constexpr (can_max<A>::value)
						{
							size_t m = ca.max_size();
							if (m > w.atMost / unit || m < w.atLeast / unit) fail("max_size() is %zu instead of %zu to %zu", m, w.atLeast / unit, w.atMost / unit);
						}
						Thing::built = Thing::gone = 0;
					}
					if (how == 2 && (k * unit >= sizeof(Thing)))
					{
						Thing* t = static_cast<Thing*>(p[0]);
						bool custom[2] = { false, false };
						if constexpr (can_cons<A>::value) { a.construct(t, 42); custom[0] = w.mask[serves] & CONS; }
						else ::new (static_cast<void*>(t)) Thing(42);
						if (t->a != 42 || Thing::built != 1) fail("the object was constructed %d times, with %d", Thing::built, t->a);
						if constexpr (can_dest<A>::value) { a.destroy(t); custom[1] = w.mask[serves] & DEST; }
						else t->~Thing();
						if (Thing::gone != 1) fail("the object was destroyed %d times", Thing::gone);
						if (calls[serves].cons != custom[0] || calls[1 - serves].cons) fail("the construction went to the parts %d and %d times", calls[serves].cons, calls[1 - serves].cons);
						if (calls[serves].dest != custom[1] || calls[1 - serves].dest) fail("the destruction went to the parts %d and %d times", calls[serves].dest, calls[1 - serves].dest);
					}
					using T = std::conditional_t<Typed, Thing, void>;
					for (int i = 0; i < blocks; i++) a.deallocate(static_cast<T*>(p[i]), k);
					finished = true;
				});
				e.step();
				if (finished)
					for (int i = 0; i < 2; i++)
						if (calls[i].allocs != calls[i].frees) fail("part %d was asked for %d blocks and given back %d", i, calls[i].allocs, calls[i].frees);
				if (!e.ok()) return false;
			}
		return true;
	}
	template<class A, bool Typed, class Make>
	bool both(Cases& e, const std::string& name, const Want& w, Make make)
	{
		return offers<A, Typed>(e, name.c_str(), w) && uses<Typed>(e, name.c_str(), w, make);
	}
	std::string parts(int m)
	{
		std::string s = "part";
		const char* n[] = { "owns", "max_size", "construct", "destroy" };
		bool any = false;
		for (int i = 0; i < 4; i++) if (m >> i & 1) { s += any ? "," : "{"; s += n[i]; any = true; }
		return any ? s + "}" : s;
	}

	template<template<class> class F, class Size, int M>
	bool unary1(Cases& e)
	{
		using P = Part<0, M, Size>;
		return F<P>::run(e, M);
	}
	template<class A, class P> constexpr bool sized = std::is_same_v<typename A::size_type, typename P::size_type>;
	inline Want same(int m) { return Want{ m, maximum(0), maximum(0), 1, { m, 0 }, ~size_t(0), false }; }
#define UNARY(NAME, TEXT, TYPE, TYPED, WANT, ...) \
	template<class P> struct NAME { static bool run(Cases& e, int m) { (void)m; using A = TYPE; static_assert(sized<A, P>, "the size type is not passed on"); \
		return both<A, TYPED>(e, TEXT + ("<" + parts(m) + ">"), WANT, [](auto use) __VA_ARGS__); } };

	UNARY(Ref, "reference", ktl::reference<P>, false, same(m), { P p; A a(p); use(a); })
	UNARY(Sha, "shared", ktl::shared<P>, false, same(m), { A a; use(a); })
	UNARY(Ato, "atomic_shared", ktl::atomic_shared<P>, false, same(m), { A a; A b(a); use(b); })
	UNARY(Glo, "global", ktl::global<P>, false, same(m), { A a; use(a); })
	UNARY(Thr, "threaded", ktl::threaded<P>, false, same(m), { A a; use(a); })
	template<class P> using FreeOf = ktl::freelist<0, 512, P>;
	UNARY(Fre, "freelist<0,512>", FreeOf<P>, false, same(m), { A a; use(a); })
	UNARY(Cas, "cascading", ktl::cascading<P>, false, same(m), { A a; use(a); })
	template<class P> using OverOf = ktl::overflow<P, Text>;
	inline Want guarded(int m) { Want w = same(m | CONS | DEST); w.mask[0] = m; w.atLeast = maximum(0) - 128; return w; }
	UNARY(Ove, "overflow", OverOf<P>, false, guarded(m), { Text t; A a(t); use(a); })
	template<class P> using TypedOf = ktl::type_allocator<Thing, P>;
	UNARY(Typ, "type_allocator", TypedOf<P>, true, same(m), { A a; use(a); })
	template<class P> using TypedRef = ktl::type_allocator<Thing, ktl::reference<P>>;
	UNARY(TRef, "type_allocator<reference>", TypedRef<P>, true, same(m), { P p; A a(p); use(a); })
	template<class P> using ShaThr = ktl::shared<ktl::threaded<P>>;
	UNARY(ST, "shared<threaded>", ShaThr<P>, false, same(m), { A a; use(a); })
	template<class P> using CasFre = ktl::cascading<ktl::freelist<0, 512, P>>;
	UNARY(CF, "cascading<freelist>", CasFre<P>, false, same(m), { A a; use(a); })
	template<class P> using FreOve = ktl::freelist<0, 512, ktl::overflow<P, Text>>;
	UNARY(FO, "freelist<overflow>", FreOve<P>, false, guarded(m), { Text t; A a(t); use(a); })

	template<template<class> class F, class Size, int... M>
	bool every(Cases& e, std::integer_sequence<int, M...>) { return (unary1<F, Size, M>(e) && ...); }
	template<template<class> class F> void all(Cases& e)
	{
		every<F, size_t>(e, std::make_integer_sequence<int, 16>()) && every<F, uint32_t>(e, std::integer_sequence<int, 0, MAXI, OWNS | MAXI, CONS | DEST, 15>());
	}
	template<template<class> class F> void owning(Cases& e) // the part has to define owns()
	{
		every<F, size_t>(e, std::integer_sequence<int, 1, 3, 5, 7, 9, 11, 13, 15>()) && every<F, uint32_t>(e, std::integer_sequence<int, 1, 3, 13, 15>());
	}

	// two parts
	template<class A, int P, int F, bool Typed, class Make>
	bool pair(Cases& e, const char* text, size_t boundary, bool tells, Make make)
	{
		int any = P | F, each = P & F;
		Want w{ (each & (OWNS | MAXI)) | (tells ? any & (CONS | DEST) : 0), maximum(0), maximum(0), 2, { P, F }, boundary, false };
		return both<A, Typed>(e, text + ("<" + parts(P) + "," + parts(F) + ">"), w, make);
	}
	// blocks above 1111 bytes would be refused by the first part; with a fallback, the first part serves all of ours
	template<int P, int F> bool fall(Cases& e)
	{
		using A = ktl::fallback<Part<0, P>, Part<1, F>>;
		return pair<A, P, F, false>(e, "fallback", ~size_t(0), true, [](auto use) { A a; use(a); });
	}
	// a first part that serves at most 16 bytes
	template<int M> struct Small : Part<0, M>
	{
		void* allocate(size_t n) { return n > 16 ? nullptr : Part<0, M>::allocate(n); }
	};
	template<int P, int F> bool fallSmall(Cases& e)
	{
		using A = ktl::fallback<Small<P>, Part<1, F>>;
		return pair<A, P, F, false>(e, "fallback(small)", 16, true, [](auto use) { A a; use(a); });
	}
	template<int P, int F> bool seg(Cases& e)
	{
		using A = ktl::segragator<16, Part<0, P>, Part<1, F>>;
		return pair<A, P, F, false>(e, "segragator<16>", 16, ((P | F) & OWNS) != 0, [](auto use) { A a; use(a); });
	}
	template<int P, int F> bool typedSeg(Cases& e)
	{
		using A = ktl::type_allocator<Thing, ktl::segragator<16, Part<0, P>, Part<1, F>>>;
		return pair<A, P, F, true>(e, "type_allocator<segragator<16>>", 16, ((P | F) & OWNS) != 0, [](auto use) { A a; use(a); });
	}
	template<int P, int F> bool sharedFall(Cases& e)
	{
		using A = ktl::shared<ktl::fallback<Small<P>, Part<1, F>>>;
		return pair<A, P, F, false>(e, "shared<fallback(small)>", 16, true, [](auto use) { A a; use(a); });
	}
#define PAIRS(FN, P) (FN<P, 0>(e) && FN<P, 1>(e) && FN<P, 2>(e) && FN<P, 3>(e) && FN<P, 4>(e) && FN<P, 5>(e) && FN<P, 6>(e) && FN<P, 7>(e) && FN<P, 8>(e) && FN<P, 9>(e) && FN<P, 10>(e) && FN<P, 11>(e) && FN<P, 12>(e) && FN<P, 13>(e) && FN<P, 14>(e) && FN<P, 15>(e))

	// which composites can be copied and moved
	struct Fixed { void* allocate(size_t) { return nullptr; } void deallocate(void*, size_t) {} bool owns(void*) const { return false; } bool operator==(const Fixed&) const { return true; } bool operator!=(const Fixed&) const { return false; }
		Fixed() = default; Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete; };
	struct Movable { void* allocate(size_t) { return nullptr; } void deallocate(void*, size_t) {} bool owns(void*) const { return false; } bool operator==(const Movable&) const { return true; } bool operator!=(const Movable&) const { return false; }
		Movable() = default; Movable(Movable&&) noexcept {} Movable& operator=(Movable&&) noexcept { return *this; } };
	struct Copyable { void* allocate(size_t) { return nullptr; } void deallocate(void*, size_t) {} bool owns(void*) const { return false; } bool operator==(const Copyable&) const { return true; } bool operator!=(const Copyable&) const { return false; } };
	template<class A> bool travels(Cases& e, const char* name, bool copy, bool move)
	{
		if (!e.next("%s: can it be copied and moved", name)) return !e.stop;
		if (std::is_copy_constructible_v<A> != copy) fail("it can%s be copied", copy ? "not" : "");
		if (std::is_move_constructible_v<A> != move) fail("it can%s be moved", move ? "not" : "");
		e.step();
		return e.ok();
	}
	template<class X> bool travelAll(Cases& e, const char* part, bool copy, bool move)
	{
		std::string n = std::string("<") + part + ">";
		using namespace ktl;
		return travels<reference<X>>(e, ("reference" + n).c_str(), true, true)
			&& travels<shared<X>>(e, ("shared" + n).c_str(), true, true)
			&& travels<atomic_shared<X>>(e, ("atomic_shared" + n).c_str(), true, true)
			&& travels<threaded<X>>(e, ("threaded" + n).c_str(), false, false)
			&& travels<cascading<X>>(e, ("cascading" + n).c_str(), false, true)
			&& travels<overflow<X, Text>>(e, ("overflow" + n).c_str(), copy, move)
			&& travels<fallback<X, Copyable>>(e, ("fallback(first)" + n).c_str(), copy, move)
			&& travels<fallback<Copyable, X>>(e, ("fallback(second)" + n).c_str(), copy, move)
			&& travels<segragator<16, X, Copyable>>(e, ("segragator(first)" + n).c_str(), copy, move)
			&& travels<segragator<16, Copyable, X>>(e, ("segragator(second)" + n).c_str(), copy, move);
	}
}
MC_SUITES
{
#if MC_PART == 0
	add_cases("offered: reference", all<Ref>);
	add_cases("offered: shared", all<Sha>);
	add_cases("offered: atomic_shared", all<Ato>);
	add_cases("offered: global", all<Glo>);
	add_cases("offered: threaded", all<Thr>);
	add_cases("offered: freelist", all<Fre>);
	add_cases("offered: cascading", owning<Cas>);
	add_cases("offered: overflow", all<Ove>);
	add_cases("offered: type_allocator", all<Typ>);
	add_cases("offered: type_allocator<reference>", all<TRef>);
	add_cases("offered: shared<threaded>", all<ST>);
	add_cases("offered: cascading<freelist>", owning<CF>);
	add_cases("offered: freelist<overflow>", all<FO>);
	add_cases("offered: copies and moves", [](Cases& e) { (void)(travelAll<Copyable>(e, "copyable", true, true) && travelAll<Movable>(e, "movable", false, true) && travelAll<Fixed>(e, "fixed", false, false)
		&& travels<ktl::freelist<0, 16, Copyable>>(e, "freelist<copyable>", false, true) && travels<ktl::freelist<0, 16, Movable>>(e, "freelist<movable>", false, true)
		&& travels<ktl::type_allocator<int, Copyable>>(e, "type_allocator<copyable>", true, true)); });
#elif MC_PART == 1
	add_cases("offered: fallback", [](Cases& e) { (void)(PAIRS(fall, 1) && PAIRS(fall, 3) && PAIRS(fall, 13) && PAIRS(fall, 15)); });
	add_cases("offered: fallback behind a small part", [](Cases& e) { (void)(PAIRS(fallSmall, 1) && PAIRS(fallSmall, 5) && PAIRS(fallSmall, 7) && PAIRS(fallSmall, 9) && PAIRS(fallSmall, 15)); });
#elif MC_PART == 2
	add_cases("offered: segragator", [](Cases& e) { (void)(PAIRS(seg, 0) && PAIRS(seg, 1) && PAIRS(seg, 2) && PAIRS(seg, 3) && PAIRS(seg, 4) && PAIRS(seg, 8) && PAIRS(seg, 12) && PAIRS(seg, 13) && PAIRS(seg, 15)); });
#else
	add_cases("offered: type_allocator<segragator>", [](Cases& e) { (void)(PAIRS(typedSeg, 0) && PAIRS(typedSeg, 3) && PAIRS(typedSeg, 5) && PAIRS(typedSeg, 12) && PAIRS(typedSeg, 15)); });
	add_cases("offered: shared<fallback>", [](Cases& e) { (void)(PAIRS(sharedFall, 1) && PAIRS(sharedFall, 7) && PAIRS(sharedFall, 9) && PAIRS(sharedFall, 13)); });
#endif
}
