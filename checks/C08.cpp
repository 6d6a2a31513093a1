// PARTS: 6
// Inserting an element of the container itself, at every size, capacity and position
#include "conts.h"
#include "twoslot.h"
#include "scale.h"
using namespace mc;
using namespace conts;
constexpr unsigned NEWV = 70;

template<class T, class A>
class SelfVec : public System
{
public:
	using V = ktl::trivial_vector<T, A>;
	enum { START = 1, PUSH, PUSHCONST, PUSHMOVE, EMPLACEBACK, EMPLACEBACKMOVE, EMPLACE, EMPLACEMOVE, POP, RESERVE, PAIRBACK, PAIR };
	static constexpr bool pairs = std::is_same_v<T, Pair>;
	size_t max;
	std::optional<A> held;
	Obj<V> v;
	std::vector<T> m;
	explicit SelfVec(size_t n) : max(n) {}
	void start() override { make_pools(1); held.emplace(MakeAlloc<A>::make(0)); v.make(*held); }
	static Op mkop(int c, size_t a = 0, size_t b = 0, size_t d = 0) { Op o; o.c = int16_t(c); o.a = int16_t(a); o.b = int16_t(b); o.d = int16_t(d); return o; }
	void ops(std::vector<Op>& o) const override
	{
		size_t n = m.size(), cap = v->capacity();
		if (n == 0 && cap == 0) for (size_t k = 1; k <= max; k++) o.push_back(mkop(START, k));
		if (n == 0) return;
		o.push_back(mkop(POP));
		if (cap < max + 2) o.push_back(mkop(RESERVE, cap + 1));
		if (n >= max) return;
		for (size_t i = 0; i < n; i++)
		{
			for (int c : { PUSH, PUSHCONST, PUSHMOVE, EMPLACEBACK, EMPLACEBACKMOVE }) o.push_back(mkop(c, i));
			for (size_t at = 0; at <= n; at++) { o.push_back(mkop(EMPLACE, i, at)); o.push_back(mkop(EMPLACEMOVE, i, at)); }
			if (pairs && n <= 6)
				for (size_t j = 0; j < n; j++)
				{
					o.push_back(mkop(PAIRBACK, i, 0, j));
					for (size_t at = 0; at <= n; at++) o.push_back(mkop(PAIR, i, at, j));
				}
		}
	}
	std::string describe(const Op& o) const override
	{
		std::string i = "v[" + std::to_string(o.a) + "]", at = "begin() + " + std::to_string(o.b), j = "v[" + std::to_string(o.d) + "]";
		switch (o.c)
		{
		case START: return "v with " + std::to_string(o.a) + " elements";
		case PUSH: return "push_back(" + i + ")";
		case PUSHCONST: return "push_back(const " + i + ")";
		case PUSHMOVE: return "push_back(move(" + i + "))";
		case EMPLACEBACK: return "emplace_back(" + i + ")";
		case EMPLACEBACKMOVE: return "emplace_back(move(" + i + "))";
		case EMPLACE: return "emplace(" + at + ", " + i + ")";
		case EMPLACEMOVE: return "emplace(" + at + ", move(" + i + "))";
		case PAIRBACK: return "emplace_back(" + i + ".x, " + j + ".y)";
		case PAIR: return "emplace(" + at + ", " + i + ".x, " + j + ".y)";
		case POP: return "pop_back()";
		default: return "reserve(" + std::to_string(o.a) + ")";
		}
	}
	void apply(const Op& o, bool) override
	{
		size_t i = size_t(o.a), at = size_t(o.b), j = size_t(o.d), n = m.size();
		T x{};
		if (i < n) x = m[i];
		size_t where = n;
		bool ins = true;
		switch (o.c)
		{
		case START: v->resize(i); m.resize(i); ins = false; break;
		case PUSH: v->push_back((*v)[i]); break;
		case PUSHCONST: { const V& c = *v; v->push_back(c[i]); break; }
		case PUSHMOVE: v->push_back(std::move((*v)[i])); break;
		case EMPLACEBACK: v->emplace_back((*v)[i]); break;
		case EMPLACEBACKMOVE: v->emplace_back(std::move((*v)[i])); break;
		case EMPLACE: { const V& c = *v; v->emplace(v->begin() + at, c[i]); where = at; break; }
		case EMPLACEMOVE: v->emplace(v->begin() + at, std::move((*v)[i])); where = at; break;
		case PAIRBACK: case PAIR:
			if constexpr (pairs)
			{
				x.y = m[j].y;
				if (o.c == PAIRBACK) v->emplace_back((*v)[i].x, (*v)[j].y);
				else { v->emplace(v->begin() + at, (*v)[i].x, (*v)[j].y); where = at; }
			}
			break;
		case POP: v->pop_back(); m.pop_back(); ins = false; break;
		case RESERVE: v->reserve(i); ins = false; break;
		}
		if (failed()) return;
		if (ins) m.insert(m.begin() + long(where), x);
		if (v->size() != m.size()) { fail("size() is %zu instead of %zu", size_t(v->size()), m.size()); return; }
		if (o.c != START)
			for (size_t k = 0; k < m.size(); k++)
				if (memcmp(&(*v)[k], &m[k], sizeof(T)))
				{
					if (ins && k == where) fail("the inserted element differs from the value the argument had at the time of the call");
					else fail("element %zu is wrong after the insertion", k);
					return;
				}
		for (size_t k = 0; k < m.size(); k++) m[k] = (*v)[k] = mk<T>(unsigned(k));
	}
	void key(Hash& h) override { h.word(v->size()); h.word(v->capacity()); h.word(v->data() == nullptr); }
	void finish() override
	{
		v.destroy();
		if (failed()) return;
		held.reset();
		if (pools_live() || world().sys_live()) fail("memory was never given back");
	}
};

// A heap into which its own elements are inserted; states are layouts and capacities
template<class T, class A, class Comp>
class SelfHeap : public System
{
public:
	using H = ktl::binary_heap<T, Comp, A>;
	enum { INSERT = 1, SELF, SELFCONST, SELFMOVE, SELFPEEK, POP, RESERVE };
	struct E { int key, tag; bool operator<(const E& o) const { return key != o.key ? key < o.key : tag < o.tag; } bool operator==(const E& o) const { return key == o.key && tag == o.tag; } };
	// moving from an element of a class with a moved-from state is the caller's doing
	static constexpr bool movable = std::is_trivially_copyable_v<T>;
	size_t max, keys;
	std::optional<A> held;
	Obj<H> h;
	std::vector<E> m;
	SelfHeap(size_t n, size_t k) : max(n), keys(k) {}
	void start() override { lives().at.clear(); make_pools(1); held.emplace(MakeAlloc<A>::make(0)); h.make(*held, Orders<Comp, T>::make(1)); }
	static Op mkop(int c, size_t a = 0) { Op o; o.c = int16_t(c); o.a = int16_t(a); return o; }
	void ops(std::vector<Op>& o) const override
	{
		size_t n = m.size(), cap = h->capacity();
		if (n < max) for (size_t k = 0; k < keys; k++) o.push_back(mkop(INSERT, k));
		if (cap < max + 1) o.push_back(mkop(RESERVE, cap + 1));
		if (n == 0) return;
		o.push_back(mkop(POP));
		if (n >= max) return;
		o.push_back(mkop(SELFPEEK));
		for (size_t i = 0; i < n; i++) { o.push_back(mkop(SELF, i)); o.push_back(mkop(SELFCONST, i)); if (movable) o.push_back(mkop(SELFMOVE, i)); }
	}
	std::string describe(const Op& o) const override
	{
		std::string a = std::to_string(o.a);
		switch (o.c)
		{
		case INSERT: return "insert(key " + a + ")";
		case SELF: return "insert(begin()[" + a + "])";
		case SELFCONST: return "insert(const begin()[" + a + "])";
		case SELFMOVE: return "insert(move(begin()[" + a + "]))";
		case SELFPEEK: return "insert(peek())";
		case POP: return "pop()";
		default: return "reserve(" + a + ")";
		}
	}
	static T mkT(int k, int t) { if constexpr (std::is_same_v<T, Plain>) return Plain{ k, t }; else return T(k, t); }
	void apply(const Op& o, bool) override
	{
		size_t i = size_t(o.a);
		E e{ 0, 0 };
		if (o.c == SELFPEEK) i = 0;
		if (o.c >= SELF && o.c <= SELFPEEK) e = E{ keyOf(h->begin()[i]), tagOf(h->begin()[i]) };
		typename H::iterator it = nullptr;
		switch (o.c)
		{
		case INSERT: { e = E{ o.a, int(NEWV) }; T x = mkT(e.key, e.tag); it = h->insert(x); break; }
		case SELF: it = h->insert(h->begin()[i]); break;
		case SELFCONST: { const H& c = *h; it = h->insert(c.begin()[i]); break; }
		case SELFMOVE: if constexpr (movable) it = h->insert(std::move(h->begin()[i])); break;
		case SELFPEEK: it = h->insert(h->peek()); break;
		case POP: { T x = h->pop(); E g{ keyOf(x), tagOf(x) }; auto f = std::find(m.begin(), m.end(), g); if (f == m.end()) { fail("pop() returned an element that was not in the heap"); return; } m.erase(f); break; }
		case RESERVE: h->reserve(i); break;
		}
		if (failed()) return;
		if (o.c <= SELFPEEK)
		{
			m.push_back(e);
			if (it < h->begin() || it >= h->end()) { fail("insert() returned an iterator outside of the heap"); return; }
			if (keyOf(*it) != e.key || tagOf(*it) != e.tag) { fail("the inserted element differs from the value the argument had at the time of the call"); return; }
		}
		std::vector<E> have, want = m;
		for (auto& x : *h) have.push_back(E{ keyOf(x), tagOf(x) });
		if (failed()) return;
		for (size_t k = 1; k < have.size(); k++) if (have[k].key < keyOf(h->peek())) { fail("an element precedes the top of the heap"); return; }
		std::sort(have.begin(), have.end());
		std::sort(want.begin(), want.end());
		if (!(have == want)) { fail("the heap holds other elements than it should"); return; }
		m.clear();
		int t = 0;
		for (auto& x : *h) { retag(x, t); m.push_back(E{ keyOf(x), t++ }); }
	}
	void key(Hash& k) override { k.word(h->capacity()); k.word(h->size()); for (auto& x : *h) k.word(uint64_t(keyOf(x))); }
	void finish() override
	{
		h.destroy();
		if (failed()) return;
		held.reset();
		if (pools_live() || world().sys_live()) fail("memory was never given back");
	}
};

template<class A> constexpr bool unbounded = true;
template<class T, size_t N> constexpr bool unbounded<ktl::type_allocator<T, ktl::shared<ktl::linear_allocator<N>>>> = false;
template<class T, class B> constexpr bool unbounded<ktl::type_allocator<T, ktl::shared<ktl::freelist<0, 512, B>>>> = false;
// Every size up to several hundred, one insertion of an own element at a time: each form, the argument at each end, in
// the middle and at every power of two, at the exact capacity and with room for one more
template<class T, class A>
static void grown_vec(const char* name, size_t top)
{
	using V = ktl::trivial_vector<T, A>;
	std::string label = std::string(name) + ", every size";
	add_cases(label, [=](Cases& e)
	{
		for (size_t n = 1; n <= top; n++)
			for (int room = 0; room < 3; room++)
				for (int form = 0; form < 7; form++)
				{
					std::vector<size_t> which{ 0, n / 2, n - 1 };
					if (thorough() && !(n & (n - 1))) for (size_t p = 1; p < n; p *= 2) { which.push_back(p - 1); which.push_back(p); }
					for (size_t i : which)
					{
						std::vector<size_t> where{ n };
						if (form >= 5) where = { 0, i, i + 1, n };
						for (size_t at : where)
						{
							if (!e.next("%zu elements, room for %d more, form %d, element %zu, position %zu", n, room, form, i, at)) continue;
							make_pools(1);
							{
								A a = MakeAlloc<A>::make(0);
								V v(a);
								v.reserve(n + size_t(room));
								if (room == 2) v.reserve(2 * n);
								std::vector<T> m;
								for (size_t k = 0; k < n; k++) { m.push_back(mk<T>(unsigned(k))); v.push_back(m.back()); }
								T x = m[i];
								e.step();
								switch (form)
								{
								case 0: v.push_back(v[i]); break;
								case 1: { const V& c = v; v.push_back(c[i]); break; }
								case 2: v.push_back(std::move(v[i])); break;
								case 3: v.emplace_back(v[i]); break;
								case 4: v.emplace_back(std::move(*(v.begin() + i))); break;
								case 5: { const V& c = v; v.emplace(v.begin() + at, c[i]); break; }
								case 6: v.emplace(v.begin() + at, std::move(v[i])); break;
								}
								m.insert(m.begin() + long(at), x);
								if (size_t(v.size()) != m.size()) fail("size() is %zu instead of %zu", size_t(v.size()), m.size());
								else
									for (size_t k = 0; k < m.size(); k++)
										if (memcmp(&v[k], &m[k], sizeof(T))) { fail(k == at ? "the inserted element differs from the value the argument had at the time of the call" : "element %zu is wrong after the insertion", k); break; }
							}
							if (!failed() && (pools_live() || world().sys_live())) fail("memory was never given back");
							if (!e.ok()) return;
						}
					}
				}
	});
}
template<class T, class A, class Comp>
static void grown_heap(const char* name, size_t top)
{
	using H = ktl::binary_heap<T, Comp, A>;
	constexpr bool movable = std::is_trivially_copyable_v<T>;
	std::string label = std::string(name) + ", every size";
	add_cases(label, [=](Cases& e)
	{
		for (size_t n = 1; n <= top; n++)
			for (int room = 0; room < 2; room++)
				for (int form = 0; form < 4; form++)
					for (int low = 0; low < 2; low++)
					{
						if (form == 3 && !movable) continue;
						std::vector<size_t> which{ 0, n / 2, n - 1 };
						if (thorough() && !(n & (n - 1))) for (size_t p = 1; p < n; p *= 2) { which.push_back(p - 1); which.push_back(p); }
						for (size_t i : which)
						{
							if (form == 2 && i) continue;
							if (!e.next("%zu elements %s, room for %d more, form %d, element %zu", n, low ? "falling" : "rising", room, form, i)) continue;
							lives().at.clear();
							make_pools(1);
							{
								A a = MakeAlloc<A>::make(0);
								H h(a, Orders<Comp, T>::make(1));
								h.reserve(n + size_t(room));
								std::vector<std::pair<int, int>> want, have;
								auto mkT = [](int k, int t) -> T { if constexpr (std::is_same_v<T, Plain>) return Plain{ k, t }; else return T(k, t); };
								for (size_t k = 0; k < n; k++)
								{
									T x = mkT(low ? int(n - k) : int(k + 1), int(k));
									h.insert(x);
									want.push_back({ low ? int(n - k) : int(k + 1), int(k) });
								}
								int key = keyOf(h.begin()[i]), tag = tagOf(h.begin()[i]);
								want.push_back({ key, tag });
								e.step();
								typename H::iterator it = nullptr;
								switch (form)
								{
								case 0: it = h.insert(h.begin()[i]); break;
								case 1: { const H& c = h; it = h.insert(c.begin()[i]); break; }
								case 2: it = h.insert(h.peek()); break;
								case 3: if constexpr (movable) it = h.insert(std::move(h.begin()[i])); break;
								}
								if (!failed())
								{
									if (it < h.begin() || it >= h.end()) fail("insert() returned an iterator outside of the heap");
									else if (keyOf(*it) != key || tagOf(*it) != tag) fail("the inserted element differs from the value the argument had at the time of the call");
								}
								if (!failed())
								{
									for (auto& x : h) have.push_back({ keyOf(x), tagOf(x) });
									std::sort(have.begin(), have.end());
									std::sort(want.begin(), want.end());
									if (have != want) fail("the heap holds other elements than it should");
								}
							}
							if (!failed() && (pools_live() || world().sys_live())) fail("memory was never given back");
							if (!e.ok()) return;
						}
					}
	});
}

template<bool Mine, class T, class A = TAlloc<T>>
static void vec(const char* name, size_t max, size_t tmax)
{
	if constexpr (Mine)
	{
		size_t mx = thorough() ? tmax : max;
		Bounds b;
		b.dfs = thorough() ? 3 : 2;
		b.depth = 100;
		add(name, b, [mx]() -> System* { return new SelfVec<T, A>(mx); });
		if constexpr (unbounded<A>) grown_vec<T, A>(name, thorough() ? 270 : 140);
	}
}
template<bool Mine, class T, class A = TAlloc<T>, class Comp = ByKey>
static void heap(const char* name, size_t max, size_t keys, size_t tmax, size_t tkeys)
{
	if constexpr (Mine)
	{
		size_t mx = thorough() ? tmax : max, ks = thorough() ? tkeys : keys;
		Bounds b;
		b.dfs = 4;
		b.depth = 100;
		b.maxStates = thorough() ? 300000 : 15000;
		add(name, b, [mx, ks]() -> System* { return new SelfHeap<T, A, Comp>(mx, ks); });
		if constexpr (unbounded<A>) grown_heap<T, A, Comp>(name, thorough() ? 270 : 140);
	}
}

// Own elements of containers around the limits of narrow integers: each form, with and without room, each element and
// position of marks()
template<bool Mine, class T, class A>
static void manyVec(const char* name)
{
	if constexpr (Mine)
		add_cases(std::string("at scale, ") + name, [](Cases& e)
		{
			using V = ktl::trivial_vector<T, A>;
			for (size_t n : scale::sizes())
			{
				const std::vector<T> src = scale::many<T>(n);
				if (!n) continue;
				for (int room = 0; room < 2; room++)
					for (size_t i : scale::marks(n))
					{
						if (i == n) continue;
						if (!scale::next(e, "%zu elements, room for %d more, element %zu", n, room, i)) continue;
						for (int form = 0; form < 7 && !failed(); form++)
							for (size_t at : form < 5 ? std::vector<size_t>{ n } : scale::marks(n))
							{
								if (failed()) break;
								std::vector<T> m = src;
								V v((A()));
								v.reserve(n + size_t(room));
								v.resize(n);
								std::copy(src.begin(), src.end(), v.begin());
								switch (form)
								{
								case 0: v.push_back(v[i]); break;
								case 1: { const V& c = v; v.push_back(c[i]); break; }
								case 2: v.push_back(std::move(v[i])); break;
								case 3: v.emplace_back(v[i]); break;
								case 4: v.emplace_back(std::move(*(v.begin() + i))); break;
								case 5: { const V& c = v; v.emplace(v.begin() + at, c[i]); break; }
								case 6: v.emplace(v.begin() + at, std::move(v[i])); break;
								}
								m.insert(m.begin() + long(at), src[i]);
								scale::same<T>(v, m);
								e.step();
							}
						if (!e.ok()) return;
					}
			}
			scale::account().settle();
		});
}
struct KeyUp { bool operator()(const Plain& a, const Plain& b) const { return a.key < b.key; } };
template<bool Mine, class T, class A>
static void manyHeap(const char* name)
{
	if constexpr (Mine)
		add_cases(std::string("at scale, ") + name, [](Cases& e)
		{
			using H = ktl::binary_heap<T, KeyUp, A>;
			for (size_t n : scale::sizes())
			{
				if (!n) continue;
				for (int low = 0; low < 2; low++)
					for (int room = 0; room < 2; room++)
						for (size_t i : scale::marks(n))
						{
							if (i == n) continue;
							if (!scale::next(e, "%zu elements %s, room for %d more, element %zu", n, low ? "falling" : "rising", room, i)) continue;
							for (int form = 0; form < 4 && !failed(); form++)
							{
								H h((A()));
								h.reserve(n + size_t(room));
								std::vector<int> seen(n, 0);
								for (size_t k = 0; k < n; k++) h.insert(T{ low ? int(n - k) : int(k + 1), int(k) });
								const T x = form == 2 ? T(h.peek()) : T(h.begin()[i]);
								typename H::iterator it = nullptr;
								switch (form)
								{
								case 0: it = h.insert(h.begin()[i]); break;
								case 1: { const H& c = h; it = h.insert(c.begin()[i]); break; }
								case 2: it = h.insert(h.peek()); break;
								case 3: it = h.insert(std::move(h.begin()[i])); break;
								}
								e.step();
								if (failed()) break;
								if (size_t(h.size()) != n + 1) { fail("size() is %zu instead of %zu", size_t(h.size()), n + 1); break; }
								if (it < h.begin() || it >= h.end()) { fail("insert() returned an iterator outside of the heap"); break; }
								if (it->key != x.key || it->tag != x.tag) { fail("the inserted element differs from the value the argument had at the time of the call"); break; }
								for (auto& y : h)
								{
									if (y.tag < 0 || size_t(y.tag) >= n || y.key != (low ? int(n) - y.tag : y.tag + 1)) { fail("the heap holds an element that was never inserted"); break; }
									if (seen[size_t(y.tag)]++ && y.tag != x.tag) { fail("the heap holds an element twice that was inserted once"); break; }
									if (y.key < h.peek().key) { fail("an element precedes the top of the heap"); break; }
								}
								if (!failed() && seen[size_t(x.tag)] != 2) fail("the heap holds the element %d times instead of twice", seen[size_t(x.tag)]);
							}
							if (!e.ok()) return;
						}
			}
			scale::account().settle();
		});
}

MC_SUITES
{
	vec<MC_MINE, uint8_t>("trivial_vector<1 byte>", 9, 18);
	vec<MC_MINE, Bytes<3>>("trivial_vector<3 bytes>", 9, 18);
	vec<MC_MINE, uint32_t>("trivial_vector<4 bytes>", 17, 34);
	vec<MC_MINE, uint64_t>("trivial_vector<8 bytes>", 9, 18);
	vec<MC_MINE, Bytes<24, 8>>("trivial_vector<24 bytes>", 9, 18);
	vec<MC_MINE, Bytes<200, 8>>("trivial_vector<200 bytes>", 6, 12);
	vec<MC_MINE, Pair>("trivial_vector<pair>", 7, 9);
	vec<MC_MINE, uint32_t, std::allocator<uint32_t>>("trivial_vector<4 bytes, std::allocator>", 9, 18);
	vec<MC_MINE, uint64_t, ktl::type_allocator<uint64_t, ktl::mallocator>>("trivial_vector<8 bytes, mallocator>", 9, 18);
	vec<MC_MINE, uint32_t, ktl::type_allocator<uint32_t, ktl::shared<ktl::freelist<0, 512, ktl::mallocator>>>>("trivial_vector<4 bytes, shared<freelist<mallocator>>>", 9, 16);
	vec<MC_MINE, Bytes<3>, ktl::type_allocator<Bytes<3>, ktl::shared<ktl::linear_allocator<4096>>>>("trivial_vector<3 bytes, shared<linear<4096>>>", 9, 18);
	heap<MC_MINE, Plain>("binary_heap<8 bytes>", 5, 3, 7, 3);
	heap<MC_MINE, Plain, ktl::type_allocator<Plain, ktl::mallocator>>("binary_heap<8 bytes, mallocator>", 5, 2, 7, 3);
	heap<MC_MINE, Plain, ktl::type_allocator<Plain, ktl::shared<ktl::freelist<0, 512, ktl::mallocator>>>>("binary_heap<8 bytes, shared<freelist<mallocator>>>", 5, 2, 7, 3);
	heap<MC_MINE, Tracked<true>>("binary_heap<recorded elements>", 5, 3, 6, 3);
	heap<MC_MINE, Named>("binary_heap<owning a string>", 5, 2, 6, 3);
	heap<MC_MINE, Plain, std::allocator<Plain>, Fun<Plain>>("binary_heap<8 bytes, std::function, std::allocator>", 5, 2, 7, 3);
	manyVec<MC_MINE, uint8_t, scale::Counted<uint8_t>>("trivial_vector<1 byte>");
	manyVec<MC_MINE, uint32_t, ktl::type_allocator<uint32_t, ktl::mallocator>>("trivial_vector<4 bytes, mallocator>");
	manyVec<MC_MINE, Bytes<24, 8>, scale::Counted<Bytes<24, 8>>>("trivial_vector<24 bytes>");
	manyHeap<MC_MINE, Plain, scale::Counted<Plain>>("binary_heap<8 bytes>");
}
