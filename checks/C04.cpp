// PARTS: 6
// binary_heap against a multiset: all histories over small key alphabets, states are the heap layouts;
// and every insertion order of longer sequences.
#include "conts.h"
#include "scale.h"
#include "values.h"
#include <algorithm>
#include <optional>
using namespace mc;
using namespace conts;

struct Item // compared by key only, but identifiable
{
	int key = 0;
	int tag = 0;
	bool operator==(const Item& o) const { return key == o.key && tag == o.tag; }
	bool operator!=(const Item& o) const { return !(*this == o); }
	bool operator<(const Item& o) const { return key < o.key; }
	bool operator>(const Item& o) const { return key > o.key; }
};
struct ModLess // stateful, with many ties
{
	int mod = 0; // a default-constructed one orders differently
	bool operator()(const Item& a, const Item& b) const { return mod ? a.key % mod < b.key % mod : a.key > b.key; }
};
struct Flip // stateful direction
{
	bool up;
	explicit Flip(bool u) : up(u) {}
	bool operator()(const Item& a, const Item& b) const { return up ? a.key < b.key : b.key < a.key; }
};
static bool byLastDigit(const Item& a, const Item& b) { return (a.key * 7) % 5 < (b.key * 7) % 5; }

template<class Comp> struct MakeComp { static Comp make() { return Comp(); } };
template<> struct MakeComp<ModLess> { static ModLess make() { return ModLess{ 3 }; } };
template<> struct MakeComp<Flip> { static Flip make() { return Flip(false); } };
template<> struct MakeComp<bool (*)(const Item&, const Item&)> { static bool (*make())(const Item&, const Item&) { return &byLastDigit; } };
template<> struct MakeComp<std::function<bool(const Item&, const Item&)>> { static std::function<bool(const Item&, const Item&)> make() { int m = 2; return [m](const Item& a, const Item& b) { return a.key / m > b.key / m; }; } };

template<class Comp, class A>
class HeapSys : public System
{
public:
	using H = ktl::binary_heap<Item, Comp, A>;
	enum { DEFAULT = 1, COMP, ALLOC, ALLOC_COMP, CAP, CAP_COMP, CAP_ALLOC, CAP_ALLOC_COMP, LIST, LIST_COMP, LIST_ALLOC, LIST_ALLOC_COMP, INSERT, INSERTMOVE, POP, CLEAR, RESERVE };
	int keys;
	size_t max;
	std::optional<A> held;
	Comp comp = MakeComp<Comp>::make();
	Obj<H> h;
	std::vector<Item> m;
	static constexpr int NEWTAG = 100;
	// Are default-constructed comparators the ones we use?
	static constexpr bool defaultComp = std::is_same_v<Comp, std::less<Item>> || std::is_same_v<Comp, std::greater<Item>>;
	HeapSys(int k, size_t mx) : keys(k), max(mx) { make_pools(1); }
	void start() override { held.emplace(); }
	static Op mkop(int c, size_t a = 0, size_t b = 0) { Op o; o.c = int16_t(c); o.a = int16_t(a); o.b = int16_t(b); return o; }
	void ops(std::vector<Op>& o) const override
	{
		if (!h)
		{
			for (int c : { COMP, ALLOC_COMP }) o.push_back(mkop(c));
			for (size_t n : { size_t(0), size_t(1), size_t(3), max }) for (int c : { CAP_COMP, CAP_ALLOC_COMP }) o.push_back(mkop(c, n));
			for (size_t n = 0; n <= 3; n++)
				for (int c : { LIST_COMP, LIST_ALLOC_COMP })
					for (int k = 0; k < (n ? 6 : 1); k++) o.push_back(mkop(c, n, size_t(k)));
			if (defaultComp)
			{
				for (int c : { DEFAULT, ALLOC }) o.push_back(mkop(c));
				for (int c : { CAP, CAP_ALLOC, LIST, LIST_ALLOC }) for (size_t n = 0; n <= 3; n++) o.push_back(mkop(c, n, 1));
			}
			return;
		}
		if (m.size() < max) for (int k = 0; k < keys; k++) { o.push_back(mkop(INSERT, size_t(k))); o.push_back(mkop(INSERTMOVE, size_t(k))); }
		if (!m.empty()) o.push_back(mkop(POP));
		o.push_back(mkop(CLEAR));
		size_t cap = h->capacity();
		for (size_t n : { size_t(0), cap, cap + 1, m.size() + 2 }) if (n <= max + 2) o.push_back(mkop(RESERVE, n));
	}
	std::string describe(const Op& o) const override
	{
		static const char* ctor[] = { "", "()", "(comp)", "(alloc)", "(alloc, comp)", "(capacity)", "(capacity, comp)", "(capacity, alloc)", "(capacity, alloc, comp)", "{list}", "({list}, comp)", "({list}, alloc)", "({list}, alloc, comp)" };
		std::string a = std::to_string(o.a);
		switch (o.c)
		{
		case INSERT: return "insert(const key " + a + ")";
		case INSERTMOVE: return "insert(move(key " + a + "))";
		case POP: return "pop()";
		case CLEAR: return "clear()";
		case RESERVE: return "reserve(" + a + ")";
		default: return std::string("binary_heap") + ctor[o.c] + " with " + a + (o.c >= LIST ? " values, order " + std::to_string(o.b) : "");
		}
	}
	static std::vector<Item> listed(size_t n, size_t order)
	{
		static const int perm[6][3] = { { 0, 1, 2 }, { 2, 1, 0 }, { 1, 0, 2 }, { 1, 2, 0 }, { 0, 2, 1 }, { 2, 0, 1 } };
		std::vector<Item> r;
		for (size_t i = 0; i < n; i++) r.push_back(Item{ perm[order][i], int(i) });
		return r;
	}
	void apply(const Op& o, bool) override
	{
		size_t a = size_t(o.a);
		const A& alloc = *held;
		const Comp& cmp = comp;
		switch (o.c)
		{
		case DEFAULT: if constexpr (defaultComp) h.make(); break;
		case COMP: h.make(cmp); break;
		case ALLOC: if constexpr (defaultComp) h.make(alloc); break;
		case ALLOC_COMP: h.make(alloc, cmp); break;
		case CAP: if constexpr (defaultComp) h.make(a); break;
		case CAP_COMP: h.make(a, cmp); break;
		case CAP_ALLOC: if constexpr (defaultComp) h.make(a, alloc); break;
		case CAP_ALLOC_COMP: h.make(a, alloc, cmp); break;
		case LIST: case LIST_COMP: case LIST_ALLOC: case LIST_ALLOC_COMP:
		{
			m = listed(a, size_t(o.b));
			auto put = [&](std::initializer_list<Item> l)
			{
				if (o.c == LIST_COMP) h.make(l, cmp);
				else if (o.c == LIST_ALLOC_COMP) h.make(l, alloc, cmp);
				else if constexpr (defaultComp) { if (o.c == LIST) h.make(l); else h.make(l, alloc); }
			};
			switch (a)
			{
			case 0: put({}); break;
			case 1: put({ m[0] }); break;
			case 2: put({ m[0], m[1] }); break;
			default: put({ m[0], m[1], m[2] }); break;
			}
			break;
		}
		case INSERT: case INSERTMOVE:
		{
			Item x{ int(a), NEWTAG };
			const Item& cx = x;
			if constexpr (std::is_void_v<decltype(h->insert(cx))>) { if (o.c == INSERT) h->insert(cx); else h->insert(std::move(x)); }
			else
			{
				auto it = o.c == INSERT ? h->insert(cx) : h->insert(std::move(x));
				if (it < h->begin() || it >= h->end()) fail("insert() returned an iterator outside of the heap");
				else if (!(*it == Item{ int(a), NEWTAG })) fail("insert() returned an iterator to another element (key %d, tag %d)", it->key, it->tag);
			}
			m.push_back(Item{ int(a), NEWTAG });
			break;
		}
		case POP:
		{
			Item top = h->peek();
			Item got = h->pop();
			if (!(top == got)) fail("pop() returned another element than peek()");
			auto it = std::find(m.begin(), m.end(), got);
			if (it == m.end()) { fail("pop() returned an element that was not in the heap (key %d)", got.key); break; }
			m.erase(it);
			for (auto& x : m) if (comp(x, got)) { fail("pop() returned key %d although key %d precedes it", got.key, x.key); break; }
			break;
		}
		case CLEAR: h->clear(); m.clear(); break;
		case RESERVE: h->reserve(a); if (h->capacity() < a) fail("capacity() is %zu after reserve(%zu)", size_t(h->capacity()), a); break;
		}
		if (failed()) return;
		look();
		if (failed()) return;
		// name the elements by position
		m.clear();
		int tag = 0;
		for (auto& x : *h) { x.tag = tag++; m.push_back(x); }
	}
	void look()
	{
		const H& c = *h;
		if (c.size() != m.size()) { fail("size() is %zu instead of %zu", size_t(c.size()), m.size()); return; }
		if (c.empty() != m.empty()) { fail("empty() is %d with %zu elements", int(c.empty()), m.size()); return; }
		if (c.capacity() < m.size()) { fail("capacity() is %zu with %zu elements", size_t(c.capacity()), m.size()); return; }
		if (size_t(c.end() - c.begin()) != m.size() || size_t(h->end() - h->begin()) != m.size() || c.data() != c.begin() || h->data() != h->begin()) { fail("begin(), end() and data() do not match"); return; }
		if (size_t(c.rend() - c.rbegin()) != m.size() || size_t(h->rend() - h->rbegin()) != m.size()) { fail("reverse iterators do not match"); return; }
		auto order = [](const Item& a, const Item& b) { return a.key != b.key ? a.key < b.key : a.tag < b.tag; };
		std::vector<Item> have, back, want = m;
		for (auto& x : c) have.push_back(x);
		for (auto it = c.rbegin(); it != c.rend(); ++it) back.push_back(*it);
		std::reverse(back.begin(), back.end());
		if (!(have == back)) { fail("reverse iteration differs from iteration"); return; }
		std::sort(have.begin(), have.end(), order);
		std::sort(want.begin(), want.end(), order);
		if (!(have == want))
		{
			std::string s, t;
			for (auto& x : have) s += std::to_string(x.key) + " ";
			for (auto& x : want) t += std::to_string(x.key) + " ";
			fail("the heap holds keys { %s} instead of { %s}", s.c_str(), t.c_str());
			return;
		}
		if (!m.empty())
		{
			Item& top = h->peek();
			for (auto& x : m) if (comp(x, top)) { fail("peek() is key %d although key %d precedes it", top.key, x.key); return; }
			if (&top < h->begin() || &top >= h->end()) { fail("peek() is not an element of the heap"); return; }
		}
		for (auto& x : m)
		{
			auto it = c.find(x);
			if (it == c.end()) { fail("find() misses key %d (tag %d)", x.key, x.tag); return; }
			if (!(*it == x)) { fail("find() returned another element"); return; }
		}
		for (int k = -1; k <= keys; k++)
		{
			Item none{ k, 77 };
			if (c.find(none) != c.end()) { fail("find() found key %d, which is not there", k); return; }
		}
	}
	void key(Hash& hash) override
	{
		hash.word(bool(h));
		if (!h) return;
		hash.word(h->capacity());
		for (auto& x : *h) hash.word(uint64_t(x.key));
	}
	void finish() override
	{
		if (h)
		{
			// drain: everything comes out in order
			Item last{};
			size_t n = m.size();
			for (size_t i = 0; i < n && !failed(); i++)
			{
				Item x = h->pop();
				if (i && comp(x, last)) fail("draining the heap yields key %d after key %d", x.key, last.key);
				last = x;
			}
			if (!failed() && h->size() != 0) fail("the drained heap is not empty");
			if (!failed()) h.destroy();
		}
		if (failed()) return;
		held.reset();
		if (pools_live()) fail("%zu blocks were never given back", pools_live());
		if (world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
	}
};

template<bool Mine, class Comp, class A = TAlloc<Item>>
static void suite(const char* name, int keys, size_t max, int tkeys, size_t tmax)
{
	if constexpr (Mine)
	{
		int k = thorough() ? tkeys : keys;
		size_t mx = thorough() ? tmax : max;
		Bounds b;
		b.dfs = thorough() ? 4 : 3;
		b.depth = 100;
		b.maxStates = thorough() ? 400000 : 12000;
		add(name, b, [k, mx]() -> System* { return new HeapSys<Comp, A>(k, mx); });
	}
}

// Every sequence of n keys out of `base`, inserted in order and then drained; with `mix`, pops in between
template<class Heap, class Less>
static void sequences(Cases& e, int n, int base, int mix, Less less)
{
	std::vector<int> q(size_t(n), 0);
	for (;;)
	{
		std::string t;
		for (int x : q) t += char('0' + x);
		if (e.next("insert keys %s%s and drain", t.c_str(), mix ? (" with a pop after every " + std::to_string(mix) + " insertions").c_str() : ""))
		{
			Heap h;
			std::vector<int> m;
			int count = 0;
			for (int x : q)
			{
				h.insert(x);
				m.push_back(x);
				if (mix && ++count % mix == 0)
				{
					int got = h.pop();
					auto best = std::min_element(m.begin(), m.end(), less);
					if (got != *best) { fail("pop() returned %d instead of %d", got, *best); break; }
					m.erase(best);
				}
			}
			e.step(uint64_t(2 * n));
			std::sort(m.begin(), m.end(), less);
			for (size_t i = 0; i < m.size() && !failed(); i++)
			{
				if (h.peek() != m[i]) { fail("element %zu out of the heap is %d instead of %d", i, h.peek(), m[i]); break; }
				int got = h.pop();
				if (got != m[i]) fail("element %zu out of the heap is %d instead of %d", i, got, m[i]);
			}
			if (!failed() && !h.empty()) fail("the drained heap is not empty");
			if (!e.ok()) return;
		}
		int i = 0;
		while (i < n && ++q[size_t(i)] == base) q[size_t(i++)] = 0;
		if (i == n) break;
	}
}
template<class Heap, class Less>
static void permutations(Cases& e, int n, Less less)
{
	std::vector<int> q;
	for (int i = 0; i < n; i++) q.push_back(i);
	do
	{
		std::string t;
		for (int x : q) t += std::to_string(x) + " ";
		if (!e.next("insert %sand drain", t.c_str())) continue;
		Heap h;
		for (int x : q) h.insert(x);
		e.step(uint64_t(2 * n));
		std::vector<int> m = q;
		std::sort(m.begin(), m.end(), less);
		for (int x : m) { int got = h.pop(); if (got != x) { fail("popped %d instead of %d", got, x); break; } }
		if (!e.ok()) return;
	} while (std::next_permutation(q.begin(), q.end()));
}
// heaps of a fixed shape, so deep percolations: every position of one odd key in a heap of n equal keys, and every pair
template<class Heap, class Less>
static void odd_ones(Cases& e, int upTo, Less less)
{
	for (int n = 1; n <= upTo; n++)
		for (int i = 0; i < n; i++)
			for (int j = i; j < n; j += 1 + n / 12)
				for (int d = 0; d < 2; d++)
				{
					if (!e.next("%d keys, the %dth and %dth are %s", n, i, j, d ? "high" : "low")) continue;
					Heap h;
					std::vector<int> m;
					for (int k = 0; k < n; k++) { int x = 50; if (k == i) x = d ? 90 : 10; else if (k == j) x = d ? 91 : 11; h.insert(x); m.push_back(x); }
					e.step(uint64_t(2 * n));
					std::sort(m.begin(), m.end(), less);
					for (int x : m) { int got = h.pop(); if (got != x) { fail("popped %d instead of %d", got, x); break; } }
					if (!e.ok()) return;
				}
}

MC_SUITES
{
	using Fn = bool (*)(const Item&, const Item&);
	suite<MC_MINE, std::less<Item>>("min heap, 3 keys", 3, 6, 3, 9);
	suite<MC_MINE, std::less<Item>>("min heap, 6 keys", 6, 5, 6, 7);
	suite<MC_MINE, std::greater<Item>>("max heap, 4 keys", 4, 6, 4, 8);
	suite<MC_MINE, ModLess>("heap with a stateful comparator with ties", 6, 5, 6, 7);
	suite<MC_MINE, Flip>("heap with a comparator without default constructor", 4, 5, 4, 8);
	suite<MC_MINE, Fn>("heap ordered by a function pointer", 5, 5, 5, 7);
	suite<MC_MINE, std::function<bool(const Item&, const Item&)>>("heap ordered by a std::function", 4, 5, 4, 7);
	suite<MC_MINE, std::less<Item>, std::allocator<Item>>("min heap, std::allocator", 3, 5, 3, 7);
	suite<MC_MINE, std::greater<Item>, ktl::type_allocator<Item, ktl::mallocator>>("max heap, mallocator", 3, 5, 3, 7);
	suite<MC_MINE, std::less<Item>, ktl::type_allocator<Item, ktl::shared<ktl::linear_allocator<4096>>>>("min heap, shared<linear<4096>>", 3, 5, 3, 7);
	bool a = MC_MINE, b = MC_MINE, c = MC_MINE, d = MC_MINE, f = MC_MINE, g = MC_MINE;
	using Min = ktl::binary_min_heap<int>;
	if (a) add_cases("every sequence of keys 0 and 1", [](Cases& e) { for (int n = 1; n <= (thorough() ? 18 : 14); n++) for (int m : { 0, 2, 3 }) sequences<Min>(e, n, 2, m, std::less<int>()); });
	if (b) add_cases("every sequence of keys 0 to 2", [](Cases& e) { for (int n = 1; n <= (thorough() ? 11 : 9); n++) for (int m : { 0, 2, 3 }) sequences<ktl::binary_max_heap<int>>(e, n, 3, m, std::greater<int>()); });
	if (c) add_cases("every sequence of keys 0 to 4", [](Cases& e) { for (int n = 1; n <= (thorough() ? 8 : 6); n++) for (int m : { 0, 2, 3 }) sequences<Min>(e, n, 5, m, std::less<int>()); });
	if (d) add_cases("every permutation into a min heap", [](Cases& e) { for (int n = 1; n <= (thorough() ? 10 : 8); n++) permutations<Min>(e, n, std::less<int>()); });
	if (f) add_cases("every permutation into a max heap", [](Cases& e) { for (int n = 1; n <= (thorough() ? 9 : 7); n++) permutations<ktl::binary_max_heap<int>>(e, n, std::greater<int>()); });
	if (g) add_cases("up to two odd keys in heaps of equal keys", [](Cases& e) { odd_ones<Min>(e, thorough() ? 130 : 40, std::less<int>()); odd_ones<ktl::binary_max_heap<int>>(e, thorough() ? 130 : 40, std::greater<int>()); });
	scale::heaps<MC_MINE, Item, std::less<Item>, false>("at scale, less");
	scale::heaps<MC_MINE, Item, std::greater<Item>, true>("at scale, greater");
	scale::heaps<MC_MINE, Item, std::less<Item>, false, ktl::type_allocator<Item, ktl::mallocator>>("at scale, less, mallocator");
	values::heaps<MC_MINE, bool, std::less<bool>>("bool");
	values::heaps<MC_MINE, signed char, std::greater<signed char>>("signed char");
	values::heaps<MC_MINE, char16_t, std::less<char16_t>>("char16_t");
	values::heaps<MC_MINE, double, values::TotalDouble>("double");
	values::heaps<MC_MINE, const char*, std::less<const char*>>("pointer");
	values::heaps<MC_MINE, values::Tiny, std::less<values::Tiny>>("enumeration of 8 bits");
	values::heaps<MC_MINE, values::Wide, std::greater<values::Wide>>("enumeration of 64 bits");
}
