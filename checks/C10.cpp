// PARTS: 9
// Standard containers on KTL allocators against the same containers on std::allocator
#include "mc.h"
#include "probe.h"
#include <ktl/ktl.h>
#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace mc;
template<class A, class T> using On = ktl::type_allocator<T, A>;
template<class T> struct StdTag {};

// ---- container families -----------------------------------------------------------------------------------------
// apply() is one template for the container under test and the mirror; its result is compared.
// Arguments: x the container, y the other one (or null), k the operation, v a value
#define SEQ_DUMP template<class X> static void dump(const X& x, std::vector<long>& o) { for (auto it = x.begin(); it != x.end(); ++it) o.push_back(long(*it)); }
struct Fam
{
	template<class X> static void settle(X&) {} // gives bytes without meaning a fixed value
	static constexpr int values = 3;
	static constexpr bool sequence = true;
	static constexpr size_t maxSize = 4;
	template<class X> static size_t size(const X& x) { return x.size(); }
	template<class X> static void clear(X& x) { x.clear(); }
	template<class X> static auto alloc(const X& x) { return x.get_allocator(); }
	template<class X> static void fill(X& x) { for (int v : { 2, 0 }) x.insert(x.end(), typename X::value_type(v)); }
};
template<template<class> class AllocOf> struct Use { template<class T> using A = AllocOf<T>; };

struct VectorF : Fam
{
	static constexpr const char* name = "vector";
	template<template<class> class A> using C = std::vector<int, A<int>>;
	static constexpr int plain = 9, two = 1;
	static const char* text(int k) { static const char* t[] = { "push_back", "pop_back", "insert in the middle", "erase the first", "resize(4)", "resize(1)", "reserve(size + 3)", "shrink_to_fit", "assign two", "insert all of the other" }; return t[k]; }
	SEQ_DUMP
	template<class X> static long apply(X& x, X* y, int k, int v)
	{
		switch (k)
		{
		case 0: x.push_back(v); return x.back();
		case 1: if (x.empty()) return -1; v = x.back(); x.pop_back(); return v;
		case 2: return *x.insert(x.begin() + long(x.size() / 2), v);
		case 3: if (x.empty()) return -1; { auto it = x.erase(x.begin()); return it - x.begin(); }
		case 4: x.resize(4); return long(x.size());
		case 5: x.resize(1); return long(x.size());
		case 6: x.reserve(x.size() + 3); return x.capacity() >= x.size() + 3;
		case 7: x.shrink_to_fit(); return 0;
		case 8: x.assign(2, v); return 0;
		default: x.insert(x.begin(), y->begin(), y->end()); return 0;
		}
	}
};
struct BoolF : Fam
{
	static constexpr const char* name = "vector<bool>";
	template<class X> static void settle(X& x)
	{
		// Padding behind the two offsets is copied from the stack; give it a fixed value (libstdc++: pointer, offset, pointer, offset, pointer)
		if (sizeof(X) < 40) return;
		char* c = reinterpret_cast<char*>(&x) + sizeof(X) - 40;
		memset(c + 12, 0, 4);
		memset(c + 28, 0, 4);
	}
	template<template<class> class A> using C = std::vector<bool, A<bool>>;
	static constexpr int plain = 5, two = 0, values = 2;
	static constexpr size_t maxSize = 70;
	static const char* text(int k) { static const char* t[] = { "push_back", "pop_back", "flip", "resize(65)", "resize(2)" }; return t[k]; }
	SEQ_DUMP
	template<class X> static long apply(X& x, X*, int k, int v)
	{
		switch (k)
		{
		case 0: x.push_back(v); return x.back();
		case 1: if (x.empty()) return -1; x.pop_back(); return 0;
		case 2: x.flip(); return 0;
		case 3: x.resize(65); return 0;
		default: x.resize(2); return 0;
		}
	}
};
struct StringF : Fam
{
	static constexpr const char* name = "string";
	template<template<class> class A> using C = std::basic_string<char, std::char_traits<char>, A<char>>;
	static constexpr int plain = 8, two = 2;
	static constexpr size_t maxSize = 60;
	static const char* text(int k) { static const char* t[] = { "push_back", "pop_back", "append 20", "erase half", "insert 3 in front", "reserve", "shrink_to_fit", "replace", "+= the other", "compare with the other" }; return t[k]; }
	SEQ_DUMP
	template<class X> static void fill(X& x) { x = "abc"; }
	template<class X> static long apply(X& x, X* y, int k, int v)
	{
		char c = char('a' + v);
		switch (k)
		{
		case 0: x.push_back(c); return x.back();
		case 1: if (x.empty()) return -1; x.pop_back(); return 0;
		case 2: x.append(20, c); return 0;
		case 3: x.erase(x.size() / 2); return 0;
		case 4: x.insert(0, 3, c); return long(x.find(c));
		case 5: x.reserve(x.size() + 10); return 0;
		case 6: x.shrink_to_fit(); return 0;
		case 7: x.replace(0, x.size() / 2, "0123456789"); return 0;
		case 8: if (x.size() + y->size() > 100) return -1; x += *y; return 0;
		default: { int r = x.compare(*y); return (r > 0) - (r < 0) + 10 * (x < *y); }
		}
	}
};
struct DequeF : Fam
{
	static constexpr const char* name = "deque";
	template<template<class> class A> using C = std::deque<int, A<int>>;
	static constexpr int plain = 9, two = 1;
	static const char* text(int k) { static const char* t[] = { "push_back", "push_front", "pop_back", "pop_front", "insert in the middle", "erase in the middle", "resize(4)", "shrink_to_fit", "push_front 130 and pop_back 130", "insert all of the other" }; return t[k]; }
	SEQ_DUMP
	template<class X> static long apply(X& x, X* y, int k, int v)
	{
		switch (k)
		{
		case 0: x.push_back(v); return x.back();
		case 1: x.push_front(v); return x.front();
		case 2: if (x.empty()) return -1; x.pop_back(); return 0;
		case 3: if (x.empty()) return -1; x.pop_front(); return 0;
		case 4: return *x.insert(x.begin() + long(x.size() / 2), v);
		case 5: if (x.empty()) return -1; x.erase(x.begin() + long(x.size() / 2)); return 0;
		case 6: x.resize(4); return 0;
		case 7: x.shrink_to_fit(); return 0;
		case 8: for (int i = 0; i < 130; i++) { x.push_front(v); x.pop_back(); } return 0;
		default: x.insert(x.begin(), y->begin(), y->end()); return 0;
		}
	}
};
struct ListF : Fam
{
	static constexpr const char* name = "list";
	template<template<class> class A> using C = std::list<int, A<int>>;
	static constexpr int plain = 9, two = 4;
	static const char* text(int k) { static const char* t[] = { "push_back", "push_front", "pop_back", "pop_front", "insert second", "sort", "reverse", "unique", "remove", "splice all of the other", "splice one of the other", "splice the tail of the other", "sort both and merge" }; return t[k]; }
	SEQ_DUMP
	template<class X> static long apply(X& x, X* y, int k, int v)
	{
		switch (k)
		{
		case 0: x.push_back(v); return x.back();
		case 1: x.push_front(v); return x.front();
		case 2: if (x.empty()) return -1; x.pop_back(); return 0;
		case 3: if (x.empty()) return -1; x.erase(x.begin()); return 0;
		case 4: return *x.insert(x.empty() ? x.end() : std::next(x.begin()), v);
		case 5: x.sort(); return 0;
		case 6: x.reverse(); return 0;
		case 7: x.unique(); return 0;
		case 8: x.remove(v); return 0;
		case 9: x.splice(x.begin(), *y); return 0;
		case 10: if (y->empty()) return -1; x.splice(x.end(), *y, y->begin()); return 0;
		case 11: if (y->empty()) return -1; x.splice(x.begin(), *y, std::next(y->begin()), y->end()); return 0;
		default: x.sort(); y->sort(); x.merge(*y); return 0;
		}
	}
};
struct FListF : Fam
{
	static constexpr const char* name = "forward_list";
	template<template<class> class A> using C = std::forward_list<int, A<int>>;
	static constexpr int plain = 8, two = 3;
	static const char* text(int k) { static const char* t[] = { "push_front", "pop_front", "insert second", "erase second", "sort", "reverse", "unique", "resize(3)", "splice all of the other", "splice one of the other", "sort both and merge" }; return t[k]; }
	SEQ_DUMP
	template<class X> static size_t size(const X& x) { return size_t(std::distance(x.begin(), x.end())); }
	template<class X> static void fill(X& x) { x.push_front(0); x.push_front(2); }
	template<class X> static long apply(X& x, X* y, int k, int v)
	{
		switch (k)
		{
		case 0: x.push_front(v); return x.front();
		case 1: if (x.empty()) return -1; x.pop_front(); return 0;
		case 2: return *x.insert_after(x.empty() ? x.before_begin() : x.begin(), v);
		case 3: if (x.empty() || std::next(x.begin()) == x.end()) return -1; x.erase_after(x.begin()); return 0;
		case 4: x.sort(); return 0;
		case 5: x.reverse(); return 0;
		case 6: x.unique(); return 0;
		case 7: x.resize(3); return 0;
		case 8: x.splice_after(x.before_begin(), *y); return 0;
		case 9: if (y->empty()) return -1; x.splice_after(x.before_begin(), *y, y->before_begin()); return 0;
		default: x.sort(); y->sort(); x.merge(*y); return 0;
		}
	}
};
template<bool Map, bool Hashed> struct TreeF : Fam
{
	static constexpr int plain = Hashed ? 6 : 5, two = 2, values = 4;
	static const char* text(int k) { static const char* t[] = { "insert", "emplace", "erase", "find", "erase the first", "rehash" }; return k < plain ? t[k] : k == plain ? "extract a node and insert it into the other" : "merge the other"; }
	template<class X> static auto entry(int v) { if constexpr (Map) return typename X::value_type(v, v * 10); else return v; }
	template<class X> static void dump(const X& x, std::vector<long>& o) { for (auto& e : x) { if constexpr (Map) { o.push_back(e.first); o.push_back(e.second); } else o.push_back(e); } }
	template<class X> static void fill(X& x) { x.insert(entry<X>(2)); x.insert(entry<X>(0)); }
	template<class X> static long apply(X& x, X* y, int k, int v)
	{
		if (k >= plain) k += 6 - plain;
		switch (k)
		{
		case 0: x.insert(entry<X>(v)); return long(x.size());
		case 1: if constexpr (Map) x.emplace(v, v + 1); else x.emplace(v); return long(x.size());
		case 2: return long(x.erase(v));
		case 3: { auto it = x.find(v); if (it == x.end()) return -1; if constexpr (Map) return it->second + long(x.count(v)) * 100; else return *it + long(x.count(v)) * 100; }
		case 4: if (x.empty()) return -1; x.erase(x.begin()); return 0;
		case 5: if constexpr (Hashed) x.rehash(x.bucket_count() > 13 ? 1 : 20); return 0;
		case 6: { auto n = x.extract(v); bool had = !n.empty(); if (had && n.get_allocator() != x.get_allocator()) fail("the extracted node has another allocator"); y->insert(std::move(n)); return had; }
		default: x.merge(*y); return long(x.size());
		}
	}
};
#define TREE(N, TEXT, MAP, HASHED, ...) struct N : TreeF<MAP, HASHED> { static constexpr const char* name = TEXT; template<template<class> class A> using C = __VA_ARGS__; };
using Entry = std::pair<const int, int>;
TREE(SetF, "set", false, false, std::set<int, std::less<int>, A<int>>)
TREE(MultisetF, "multiset", false, false, std::multiset<int, std::less<int>, A<int>>)
TREE(MapF, "map", true, false, std::map<int, int, std::less<int>, A<Entry>>)
TREE(MultimapF, "multimap", true, false, std::multimap<int, int, std::less<int>, A<Entry>>)
TREE(USetF, "unordered_set", false, true, std::unordered_set<int, std::hash<int>, std::equal_to<int>, A<int>>)
TREE(UMapF, "unordered_map", true, true, std::unordered_map<int, int, std::hash<int>, std::equal_to<int>, A<Entry>>)
TREE(UMultisetF, "unordered_multiset", false, true, std::unordered_multiset<int, std::hash<int>, std::equal_to<int>, A<int>>)
TREE(UMultimapF, "unordered_multimap", true, true, std::unordered_multimap<int, int, std::hash<int>, std::equal_to<int>, A<Entry>>)
template<class Q> struct Open : Q { using Q::Q; using Q::c; };
struct QueueF : Fam
{
	static constexpr const char* name = "priority_queue";
	template<template<class> class A> using C = Open<std::priority_queue<int, std::vector<int, A<int>>>>;
	static constexpr int plain = 2, two = 1;
	static const char* text(int k) { static const char* t[] = { "push", "pop", "push the other's top" }; return t[k]; }
	template<class X> static void dump(const X& x, std::vector<long>& o) { for (int v : x.c) o.push_back(v); }
	template<class X> static void clear(X& x) { x.c.clear(); }
	template<class X> static auto alloc(const X& x) { return x.c.get_allocator(); }
	template<class X> static void fill(X& x) { x.push(2); x.push(0); }
	template<class X> static long apply(X& x, X* y, int k, int v)
	{
		switch (k)
		{
		case 0: x.push(v); return x.top();
		case 1: if (x.empty()) return -1; v = x.top(); x.pop(); return v;
		default: if (y->empty()) return -1; x.push(y->top()); return x.top();
		}
	}
};

// ---- allocators ---------------------------------------------------------------------------------------------------
// made inside the explored world; two separate states
constexpr size_t BIG = 1 << 16;
template<class UA> struct Src // default constructed
{
	using A = UA;
	Obj<UA> root[2];
	const UA& get(int i) { if (!root[i]) { pools().instBytes = BIG; pools().instBlocks = 200; pools().instMax = BIG; root[i].make(); } return *root[i]; }
	void full() {}
	void end() { for (auto& r : root) if (r) r.destroy(); }
};
template<class UA, size_t Cap> struct Bounded : Src<UA>
{
	void full()
	{
		for (auto& r : this->root)
			if (r)
			{
				UA a(*r);
				void* p = a.allocate(Cap);
				if (!p) { fail("after all containers are gone, the allocator no longer offers its full capacity of %zu bytes", Cap); return; }
				a.deallocate(p, Cap);
			}
	}
};
template<class Target, size_t Cap> struct Refers
{
	using A = ktl::reference<Target>;
	Obj<Target> t[2];
	Obj<A> root[2];
	const A& get(int i) { if (!root[i]) { t[i].make(); root[i].make(*t[i]); } return *root[i]; }
	void full()
	{
		for (auto& r : root)
			if (Cap && r)
			{
				void* p = r->allocate(Cap);
				if (!p) { fail("after all containers are gone, the allocator no longer offers its full capacity of %zu bytes", Cap); return; }
				r->deallocate(p, Cap);
			}
	}
	void end() { for (int i = 0; i < 2; i++) if (root[i]) { root[i].destroy(); t[i].destroy(); } }
};
template<size_t Cap> struct Stacks
{
	using A = ktl::stack_allocator<Cap>;
	Obj<ktl::stack<Cap>> t[2];
	Obj<A> root[2];
	const A& get(int i) { if (!root[i]) { t[i].make(); root[i].make(*t[i]); } return *root[i]; }
	void full()
	{
		for (auto& r : root)
			if (r)
			{
				void* p = r->allocate(Cap);
				if (!p) { fail("after all containers are gone, the stack no longer offers its full capacity of %zu bytes", Cap); return; }
				r->deallocate(p, Cap);
			}
	}
	void end() { for (int i = 0; i < 2; i++) if (root[i]) { root[i].destroy(); t[i].destroy(); } }
};
struct LeafSrc // instrumented, with construct and destroy of its own
{
	using A = Leaf<OWNS | CONS>;
	std::optional<A> root[2];
	const A& get(int i) { if (!root[i]) root[i].emplace(PoolId{ new_pool(size_t(1) << 18, 200, BIG) }); return *root[i]; }
	void full()
	{
		if (pools_live()) { fail("%zu blocks were never given back", pools_live()); return; }
		for (int i = 0; i < pools().used; i++) if (pools().p[i].constructs != pools().p[i].destroys) fail("%lu objects were constructed through the allocator but %lu destroyed", (unsigned long)pools().p[i].constructs, (unsigned long)pools().p[i].destroys);
	}
	void end() {}
};
struct OverSrc // the overflow allocator must have nothing to report about a standard container
{
	using Over = ktl::overflow<ktl::mallocator, std::ostringstream>;
	using A = ktl::reference<Over>;
	std::optional<std::ostringstream> out;
	Obj<Over> t[2];
	Obj<A> root[2];
	const A& get(int i) { if (!out) out.emplace(); if (!root[i]) { t[i].make(*out); root[i].make(*t[i]); } return *root[i]; }
	void full() {}
	void end()
	{
		for (int i = 0; i < 2; i++) if (root[i]) { root[i].destroy(); t[i].destroy(); }
		if (out && !out->str().empty()) fail("the overflow allocator reports: %s", out->str().c_str());
	}
};

// ---- the system -----------------------------------------------------------------------------------------------------
template<class F, class S, bool Separate>
class StlSys : public System
{
public:
	template<class T> using KA = ktl::type_allocator<T, typename S::A>;
	using X = typename F::template C<KA>;
	using M = typename F::template C<std::allocator>;
	using Typed = KA<int>;
	enum { NEW = 1, NEWFULL, COPY, COPY_WITH, MOVE, MOVE_WITH, DESTROY, ASSIGN, MOVE_ASSIGN, SELF_ASSIGN, SWAP, CLEAR, FAM };
	Obj<X> x[2];
	std::unique_ptr<M> m[2];
	Obj<S> src; // in the world, so that the same history finds it at the same place
	void start() override
	{
		world().onReset = reset_pools;
		pools().strict = true;
		src.make();
		src->get(0);
		if (Separate) src->get(1);
	}
	static Op mkop(int c, int a, int b = 0) { Op o; o.c = int16_t(c); o.a = int16_t(a); o.b = int16_t(b); return o; }
	void ops(std::vector<Op>& o) const override
	{
		for (int i = 0; i < 2; i++)
		{
			int j = 1 - i;
			if (!x[i])
			{
				if (i == 1 && !x[0] && !Separate) continue;
				o.push_back(mkop(NEW, i));
				o.push_back(mkop(NEWFULL, i));
				if (x[j]) for (int c : { COPY, COPY_WITH, MOVE, MOVE_WITH }) o.push_back(mkop(c, i));
				continue;
			}
			o.push_back(mkop(DESTROY, i));
			o.push_back(mkop(SELF_ASSIGN, i));
			size_t n = F::size(*m[i]);
			if (n) o.push_back(mkop(CLEAR, i));
			for (int k = 0; k < F::plain; k++)
				if (n < F::maxSize || (k == 1 && F::sequence)) // keep it small
					for (int v = 0; v < (usesValue(k) ? F::values : 1); v++) o.push_back(mkop(FAM + k, i, v));
			if (!x[j]) continue;
			for (int c : { ASSIGN, MOVE_ASSIGN }) o.push_back(mkop(c, i));
			bool equal = F::alloc(*x[i]) == F::alloc(*x[j]);
			if (equal && i == 0) o.push_back(mkop(SWAP, i));
			bool fits = n + F::size(*m[j]) <= 2 * F::maxSize;
			if (equal && fits) for (int k = F::plain; k < F::plain + F::two; k++) for (int v = 0; v < (usesValue(k) ? F::values : 1); v++) o.push_back(mkop(FAM + k, i, v));
		}
	}
	static bool usesValue(int k)
	{
		std::string t = F::text(k);
		for (const char* w : { "pop", "erase the first", "erase half", "erase in", "erase second", "resize", "reserve", "shrink", "sort", "reverse", "unique", "rehash", "flip", "replace", "the other", "merge" })
			if (t.find(w) != std::string::npos && t.find("extract") == std::string::npos && t.find("130") == std::string::npos) return false;
		return t.find("130") == std::string::npos;
	}
	std::string describe(const Op& o) const override
	{
		std::string a(1, char('p' + o.a)), b(1, char('p' + 1 - o.a));
		switch (o.c)
		{
		case NEW: return a + "(alloc)";
		case NEWFULL: return a + "(two elements, alloc)";
		case COPY: return a + "(" + b + ")";
		case COPY_WITH: return a + "(" + b + ", alloc)";
		case MOVE: return a + "(move(" + b + "))";
		case MOVE_WITH: return a + "(move(" + b + "), alloc)";
		case DESTROY: return "destroy " + a;
		case ASSIGN: return a + " = " + b;
		case MOVE_ASSIGN: return a + " = move(" + b + ")";
		case SELF_ASSIGN: return a + " = " + a;
		case SWAP: return "swap(p, q)";
		case CLEAR: return a + ".clear()";
		default: return a + ": " + F::text(o.c - FAM) + (usesValue(o.c - FAM) ? " " + std::to_string(o.b) : "");
		}
	}
	Typed typed(int i) { return Typed(src->get(Separate ? i : 0)); }
	void apply(const Op& o, bool) override
	{
		int i = o.a, j = 1 - i;
		switch (o.c)
		{
		case NEW: case NEWFULL:
		{
			Typed t = typed(i);
			using Own = decltype(F::alloc(std::declval<X>()));
			typename Own::template rebind<int>::other r(t);
			if (o.c == NEW) x[i].make(r);
			else x[i].make(typename Own::template rebind<long>::other(std::move(r))); // converting moves leave the source as it was
			if (!(r == t) || r != t) fail("an allocator from which the container's was converted is no longer the same");
			m[i] = std::make_unique<M>();
			if (o.c == NEWFULL) { F::fill(*x[i]); F::fill(*m[i]); }
			if (!(F::alloc(*x[i]) == t) || F::alloc(*x[i]) != t) fail("the container's allocator differs from the one it was given");
			break;
		}
		case COPY: { const X& s = *x[j]; x[i].make(s); m[i] = std::make_unique<M>(*m[j]); break; }
		case COPY_WITH: { const X& s = *x[j]; x[i].make(s, typename decltype(F::alloc(s))::template rebind<int>::other(typed(i))); m[i] = std::make_unique<M>(*m[j]); break; }
		case MOVE: x[i].make(std::move(*x[j])); m[i] = std::make_unique<M>(std::move(*m[j])); F::clear(*x[j]); F::clear(*m[j]); break;
		case MOVE_WITH: x[i].make(std::move(*x[j]), typename decltype(F::alloc(*x[j]))::template rebind<int>::other(typed(i))); m[i] = std::make_unique<M>(std::move(*m[j])); F::clear(*x[j]); F::clear(*m[j]); break;
		case DESTROY: x[i].destroy(); m[i].reset(); break;
		case ASSIGN: { const X& s = *x[j]; *x[i] = s; *m[i] = *m[j]; break; }
		case MOVE_ASSIGN: *x[i] = std::move(*x[j]); *m[i] = std::move(*m[j]); F::clear(*x[j]); F::clear(*m[j]); break;
		case SELF_ASSIGN: { const X& s = *x[i]; *x[i] = s; break; }
		case SWAP: { using std::swap; swap(*x[0], *x[1]); swap(*m[0], *m[1]); break; }
		case CLEAR: F::clear(*x[i]); F::clear(*m[i]); break;
		default:
		{
			int k = o.c - FAM;
			long r = F::apply(*x[i], x[j].get(), k, o.b), s = F::apply(*m[i], m[j].get(), k, o.b);
			if (!failed() && r != s) fail("the operation yields %ld, but %ld with std::allocator", r, s);
		}
		}
		if (failed()) return;
		for (int k = 0; k < 2; k++) if (x[k]) F::settle(*x[k]);
		for (int k = 0; k < 2; k++)
			if (x[k])
			{
				std::vector<long> have, want;
				F::dump(*x[k], have);
				F::dump(*m[k], want);
				if (have != want)
				{
					std::string s, t;
					for (long v : have) s += std::to_string(v) + " ";
					for (long v : want) t += std::to_string(v) + " ";
					fail("%c holds %sbut with std::allocator %s", 'p' + k, s.c_str(), t.c_str());
					return;
				}
			}
	}
	void key(Hash& h) override
	{
		for (int k = 0; k < 2; k++)
		{
			h.word(bool(x[k]));
			if (!x[k]) continue;
			std::vector<long> have;
			F::dump(*m[k], have);
			h.word(have.size());
			for (long v : have) h.word(uint64_t(v));
		}
		world().key(h);
	}
	void finish() override
	{
		for (int k = 0; k < 2 && !failed(); k++) if (x[k]) { x[k].destroy(); m[k].reset(); }
		if (failed()) return;
		src->full();
		if (failed()) return;
		src->end();
		src.destroy();
		if (failed()) return;
		if (pools_live()) fail("%zu blocks were never given back", pools_live());
		else if (world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
	}
};

template<bool Mine, class F, class S, bool Separate = false>
static void suite(const char* alloc, int depth = 40)
{
	if constexpr (Mine)
	{
		Bounds b;
		b.dfs = thorough() ? 3 : 2;
		b.depth = depth;
		b.maxStates = thorough() ? 30000 : 4000;
		add(std::string(F::name) + " on " + alloc + (Separate ? ", two allocators" : ""), b, []() -> System* { return new StlSys<F, S, Separate>(); });
	}
}

// allocate_shared: every order of releasing the pointers
template<class S>
static void pointers(Cases& e, const char* name)
{
	for (int n = 1; n <= (thorough() ? 6 : 4); n++)
	{
		std::vector<int> order;
		for (int i = 0; i < n; i++) order.push_back(i);
		do
			for (int copies = 0; copies < 2; copies++)
			{
				std::string t;
				for (int k : order) t += std::to_string(k) + " ";
				if (!e.next("%s: %d allocate_shared, %sreleased in the order %s", name, n, copies ? "copied, then " : "", t.c_str())) continue;
				world().onReset = reset_pools;
				auto src = std::make_unique<S>();
				ktl::type_allocator<int, typename S::A> a(src->get(0));
				std::vector<std::shared_ptr<long>> p, q;
				for (int i = 0; i < n; i++) p.push_back(std::allocate_shared<long>(a, 1000 + i));
				if (copies) { q = p; }
				for (int k : order)
				{
					for (int i = 0; i < n; i++) if (p[size_t(i)] && *p[size_t(i)] != 1000 + i) { fail("the value behind pointer %d is %ld", i, *p[size_t(i)]); break; }
					p[size_t(k)].reset();
					e.step();
					if (copies && *q[size_t(k)] != 1000 + k) fail("the value behind the copied pointer %d was lost", k);
				}
				q.clear();
				if (!failed()) src->full();
				if (!failed()) { { ktl::type_allocator<int, typename S::A> gone(std::move(a)); } }
				if (!failed()) src->end();
				if (!e.ok()) { return; }
			}
		while (std::next_permutation(order.begin(), order.end()));
	}
}

using namespace ktl;
using Linear = Bounded<shared<linear_allocator<BIG>>, BIG>;
using Pooled = LeafSrc;
using Sys = Src<mallocator>;
using Casc = Src<shared<cascading<linear_allocator<1024>>>>;
using Mixed = Src<shared<fallback<freelist<0, 64, linear_allocator<512>>, mallocator>>>;
using Sized = Src<shared<segragator<48, freelist<0, 48, cascading<linear_allocator<512>>>, mallocator>>>;
using Atomic = Bounded<atomic_shared<threaded<linear_allocator<BIG>>>, BIG>;
using Refd = Refers<linear_allocator<BIG>, BIG>;
using RefFree = Refers<segragator<64, freelist<0, 64, mallocator>, cascading<linear_allocator<2048>>>, 0>;
using Stk = Stacks<BIG>;
using Instance = Src<shared<Inst<OWNS>>>;

template<bool Mine, class F> static void onLinear() { suite<Mine, F, Linear>("shared<linear>", 7); }


// ---- many elements --------------------------------------------------------------------------------------------------
static int shuffled(size_t i) { return int((unsigned(i) * 1103515245u + 12345u) >> 3); }
template<class C, class S>
static void alike(Cases& e, const char* when, const C& c, const S& s)
{
	e.step();
	if (failed()) return;
	if (size_t(std::distance(c.begin(), c.end())) != s.size()) { fail("%zu elements instead of %zu %s", size_t(std::distance(c.begin(), c.end())), s.size(), when); return; }
	if (!std::equal(c.begin(), c.end(), s.begin())) fail("the elements differ %s", when);
}
// add: how an element is put in. drop: removes about half of the elements
template<class C, class S, class R, class Add, class Drop>
static void big(Cases& e, const char* name, const char* on, size_t n, const R& root, Add add, Drop drop)
{
	if (!e.next("%s with %zu elements on %s", name, n, on)) return;
	world().active(false); // the real heap: ours searches
	{
		typename C::allocator_type al(root);
		C c(al);
		S s;
		for (size_t i = 0; i < n; i++) { add(c, i); add(s, i); }
		alike(e, "after filling", c, s);
		C d(c);
		alike(e, "in the copy", d, s);
		drop(c); drop(s);
		alike(e, "after removing", c, s);
		C m(std::move(d));
		S whole(s);
		for (size_t i = 0; i < 300; i++) { add(c, n + i); add(s, n + i); }
		alike(e, "after adding", c, s);
		std::swap(c, m);
		alike(e, "after swapping", m, s);
		c = m;
		alike(e, "after assigning", c, s);
		d = std::move(m);
		alike(e, "after move assignment", d, s);
		c.clear();
		s.clear();
		alike(e, "after clear()", c, s);
		c = d;
		C x(std::move(c), al);
		if (!failed() && size_t(std::distance(x.begin(), x.end())) != size_t(std::distance(d.begin(), d.end()))) fail("the extended move lost elements");
	}
	e.ok();
}
template<class R>
static void bigs(Cases& e, const char* on, const R& root)
{
	auto back = [](auto& c, size_t i) { c.push_back(typename std::decay_t<decltype(c)>::value_type(shuffled(i))); };
	auto half = [](auto& c) { c.erase(std::next(c.begin(), long(c.size() / 4)), std::next(c.begin(), long(c.size() / 4 + c.size() / 2))); };
	auto put = [](auto& c, size_t i) { c.insert(shuffled(i)); };
	auto odd = [](auto& c) { bool o = false; for (auto it = c.begin(); it != c.end(); o = !o) if (o) it = c.erase(it); else ++it; };
	auto pair = [](auto& c, size_t i) { c.emplace(shuffled(i), int(i)); };
	for (size_t n : { size_t(255), size_t(257), size_t(32769), size_t(65537), size_t(thorough() ? 131073 : 1000) })
	{
		if (failed()) return;
		big<std::vector<int, On<R, int>>, std::vector<int>>(e, "vector", on, n, root, back, half);
		big<std::vector<bool, On<R, bool>>, std::vector<bool>>(e, "vector<bool>", on, n, root, back, half);
		big<std::deque<int, On<R, int>>, std::deque<int>>(e, "deque", on, n, root, back, half);
		big<std::basic_string<char, std::char_traits<char>, On<R, char>>, std::string>(e, "string", on, n, root, back, half);
		big<std::list<int, On<R, int>>, std::list<int>>(e, "list", on, n, root, back, odd);
		big<std::multiset<int, std::less<int>, On<R, int>>, std::multiset<int>>(e, "multiset", on, n, root, put, odd);
		big<std::map<int, int, std::less<int>, On<R, std::pair<const int, int>>>, std::map<int, int>>(e, "map", on, n, root, pair, odd);
		// an unordered container has its elements in an order that depends on its history: only their number and what can be found
		if (!failed() && e.next("unordered_map with %zu elements on %s", n, on))
		{
			world().active(false);
			{
				std::unordered_map<int, int, std::hash<int>, std::equal_to<int>, On<R, std::pair<const int, int>>> u{ On<R, std::pair<const int, int>>(root) };
				std::unordered_map<int, int> want;
				for (size_t i = 0; i < n; i++) { u[shuffled(i)] = int(i); want[shuffled(i)] = int(i); }
				auto v = u;
				for (size_t i = 0; i < n; i += 2) { u.erase(shuffled(i)); }
				for (auto& x : want)
				{
					auto f = v.find(x.first);
					if (f == v.end() || f->second != x.second) { fail("an element is lost"); break; }
				}
				v = std::move(u);
				for (size_t i = 0; i < n && !failed(); i += 2) if (v.count(shuffled(i))) fail("an element that was erased is found");
				if (!failed() && v.size() > want.size() - want.size() / 2 + 8) fail("%zu elements remain", v.size());
				e.step(n);
			}
			e.ok();
		}
	}
}
static void manyElements(Cases& e)
{
	using namespace ktl;
	bigs(e, "shared<mallocator>", shared<mallocator>());
	bigs(e, "shared<fallback<freelist<linear>,mallocator>>", shared<fallback<freelist<0, 64, linear_allocator<1 << 20>>, mallocator>>());
	bigs(e, "atomic_shared<threaded<segragator<freelist<mallocator>,mallocator>>>", atomic_shared<threaded<segragator<64, freelist<0, 64, mallocator>, mallocator>>>());
	std::ostringstream out;
	{
		overflow<mallocator, std::ostringstream> o(out);
		bigs(e, "reference<overflow<mallocator>>", reference<overflow<mallocator, std::ostringstream>>(o));
	}
	if (!failed() && !out.str().empty()) fail("the overflow allocator reports: %s", out.str().c_str());
}

MC_SUITES
{
	suite<MC_MINE, VectorF, Pooled>("instrumented memory");
	suite<MC_MINE, DequeF, Pooled>("instrumented memory");
	suite<MC_MINE, ListF, Pooled>("instrumented memory");
	suite<MC_MINE, FListF, Pooled>("instrumented memory");
	suite<MC_MINE, StringF, Pooled>("instrumented memory");
	suite<MC_MINE, MapF, Pooled>("instrumented memory");
	suite<MC_MINE, UMapF, Pooled>("instrumented memory");
	suite<MC_MINE, VectorF, Pooled, true>("instrumented memory");
	suite<MC_MINE, ListF, Pooled, true>("instrumented memory");
	suite<MC_MINE, MapF, Pooled, true>("instrumented memory");
	suite<MC_MINE, UMapF, Pooled, true>("instrumented memory");
	suite<MC_MINE, DequeF, Instance, true>("shared<instrumented>");
	suite<MC_MINE, QueueF, Instance>("shared<instrumented>");
	onLinear<MC_MINE, VectorF>();
	onLinear<MC_MINE, ListF>();
	onLinear<MC_MINE, UMapF>();
	onLinear<MC_MINE, MapF>();
	onLinear<MC_MINE, StringF>();
	onLinear<MC_MINE, DequeF>();
	suite<MC_MINE, VectorF, Mixed>("shared<fallback<freelist<linear>,mallocator>>");
	suite<MC_MINE, ListF, Mixed>("shared<fallback<freelist<linear>,mallocator>>");
	suite<MC_MINE, SetF, Mixed>("shared<fallback<freelist<linear>,mallocator>>");
	suite<MC_MINE, UMultimapF, Mixed>("shared<fallback<freelist<linear>,mallocator>>");
	suite<MC_MINE, StringF, Mixed, true>("shared<fallback<freelist<linear>,mallocator>>");
	suite<MC_MINE, ListF, Casc>("shared<cascading<linear>>");
	suite<MC_MINE, MultimapF, Casc>("shared<cascading<linear>>");
	suite<MC_MINE, USetF, Casc>("shared<cascading<linear>>");
	suite<MC_MINE, VectorF, Casc>("shared<cascading<linear>>");
	suite<MC_MINE, FListF, Sized>("shared<segragator<freelist<cascading>,mallocator>>");
	suite<MC_MINE, MapF, Sized>("shared<segragator<freelist<cascading>,mallocator>>");
	suite<MC_MINE, UMapF, Sized>("shared<segragator<freelist<cascading>,mallocator>>");
	suite<MC_MINE, QueueF, Sized>("shared<segragator<freelist<cascading>,mallocator>>");
	suite<MC_MINE, VectorF, Sys>("mallocator");
	suite<MC_MINE, BoolF, Sys>("mallocator");
	suite<MC_MINE, UMultisetF, Sys>("mallocator");
	suite<MC_MINE, MultisetF, Atomic>("atomic_shared<threaded<linear>>", 7);
	suite<MC_MINE, DequeF, Atomic>("atomic_shared<threaded<linear>>", 7);
	suite<MC_MINE, FListF, Atomic>("atomic_shared<threaded<linear>>", 7);
	suite<MC_MINE, MapF, Refd>("reference<linear>", 7);
	suite<MC_MINE, BoolF, Refd>("reference<linear>", 7);
	suite<MC_MINE, ListF, RefFree>("reference<segragator<freelist<mallocator>,cascading>>");
	suite<MC_MINE, USetF, RefFree>("reference<segragator<freelist<mallocator>,cascading>>");
	suite<MC_MINE, VectorF, Stk>("stack_allocator", 7);
	suite<MC_MINE, MapF, Stk, true>("stack_allocator", 7);
	suite<MC_MINE, ListF, OverSrc>("reference<overflow<mallocator>>");
	suite<MC_MINE, UMapF, OverSrc>("reference<overflow<mallocator>>");
	suite<MC_MINE, VectorF, OverSrc, true>("reference<overflow<mallocator>>");
	suite<MC_MINE, MapF, OverSrc>("reference<overflow<mallocator>>");
	bool p = MC_MINE;
	if (p)
	{
		add_cases("allocate_shared", [](Cases& e)
		{
			pointers<Pooled>(e, "instrumented memory");
			pointers<Linear>(e, "shared<linear>");
			pointers<Mixed>(e, "shared<fallback<freelist<linear>,mallocator>>");
			pointers<Casc>(e, "shared<cascading<linear>>");
			pointers<Sized>(e, "shared<segragator<freelist<cascading>,mallocator>>");
			pointers<RefFree>(e, "reference<segragator<freelist<mallocator>,cascading>>");
			pointers<OverSrc>(e, "reference<overflow<mallocator>>");
			pointers<Stk>(e, "stack_allocator");
		});
	}
	bool q = MC_MINE;
	if (q) add_cases("many elements", manyElements);
}
