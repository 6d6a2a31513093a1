// PARTS: 6
// trivial_vector against a plain sequence: every operation from every (size, capacity) state.
// Elements are opaque to the vector, so after every operation they are rewritten to values that are distinct per
// position; a state is then determined by size and capacity, and every transition is checked with distinct values.
#include "conts.h"
#include "scale.h"
#include "values.h"
#include <optional>
using namespace mc;
using namespace conts;

template<class T, class A> struct MakeAlloc { static A make() { return A(); } };

template<class T, class A>
class VecSys : public System
{
public:
	using V = ktl::trivial_vector<T, A>;
	enum
	{
		DEFAULT = 1, WITHALLOC, SIZED, SIZED_A, FILLED, FILLED_A, LIST, LIST_A, RANGE, RANGE_A,
		PUSH, PUSHMOVE, PUSHRANGE, EMPLACEBACK, EMPLACEBACK0, EMPLACE, ERASE, ERASERANGE, POP, RESIZE, RESERVE, CLEAR, WRITE
	};
	size_t max;      // elements
	bool big;        // few operations, large sizes
	static std::vector<size_t> marks() { return { 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025 }; }
	// Positions to operate on: all of them in a small vector
	std::vector<size_t> places(size_t n) const
	{
		std::vector<size_t> r;
		if (!big) for (size_t i = 0; i <= n; i++) r.push_back(i);
		else for (size_t i : { size_t(0), size_t(1), n / 2, n - 1, n }) if (i <= n && (r.empty() || i > r.back())) r.push_back(i);
		return r;
	}
	std::optional<A> held;
	Obj<V> v;
	std::vector<unsigned> m;
	static constexpr unsigned NEW = 100;
	explicit VecSys(size_t mx, bool bg = false) : max(mx), big(bg) { make_pools(1); }

	void start() override { held.emplace(); }
	static Op mkop(int c, size_t a = 0, size_t b = 0) { Op o; o.c = int16_t(c); o.a = int16_t(a); o.b = int16_t(b); return o; }
	void ops(std::vector<Op>& o) const override
	{
		if (!v)
		{
			o.push_back(mkop(DEFAULT));
			o.push_back(mkop(WITHALLOC));
			for (size_t n : { size_t(0), size_t(1), size_t(2), size_t(5), max })
				for (int c : { SIZED, SIZED_A, FILLED, FILLED_A, RANGE, RANGE_A }) o.push_back(mkop(c, n));
			for (size_t n = 0; n <= 4; n++) { o.push_back(mkop(LIST, n)); o.push_back(mkop(LIST_A, n)); }
			return;
		}
		size_t n = m.size(), cap = v->capacity();
		if (n < max)
		{
			for (int c : { PUSH, PUSHMOVE, EMPLACEBACK, EMPLACEBACK0 }) o.push_back(mkop(c));
			for (size_t i : places(n)) o.push_back(mkop(EMPLACE, i));
		}
		size_t free = cap - n;
		for (size_t k : { size_t(0), size_t(1), size_t(2), size_t(3), free, free + 1, cap + 1, 2 * cap + 1 })
			if (n + k <= max) o.push_back(mkop(PUSHRANGE, k));
		for (size_t i : places(n)) if (i < n) o.push_back(mkop(ERASE, i));
		for (size_t i : places(n)) for (size_t j : places(n)) if (i <= j) o.push_back(mkop(ERASERANGE, i, j));
		if (n) o.push_back(mkop(POP));
		if (big) for (size_t k : marks()) { if (k <= max) o.push_back(mkop(RESIZE, k)); if (k > cap) o.push_back(mkop(RESERVE, k)); if (n + k <= max) o.push_back(mkop(PUSHRANGE, k)); }
		else for (size_t k = 0; k <= max; k++) o.push_back(mkop(RESIZE, k));
		for (size_t k : { size_t(0), size_t(1), n, cap, cap + 1, cap + 3, cap * 2 }) if (k <= max + max / 2) o.push_back(mkop(RESERVE, k));
		o.push_back(mkop(CLEAR));
		if (!big) for (size_t i = 0; i < n; i++) for (size_t k = 0; k < 6; k++) o.push_back(mkop(WRITE, i, k));
	}
	std::string describe(const Op& o) const override
	{
		std::string a = std::to_string(o.a), b = std::to_string(o.b);
		switch (o.c)
		{
		case DEFAULT: return "trivial_vector()";
		case WITHALLOC: return "trivial_vector(alloc)";
		case SIZED: return "trivial_vector(" + a + ")";
		case SIZED_A: return "trivial_vector(" + a + ", alloc)";
		case FILLED: return "trivial_vector(" + a + ", value)";
		case FILLED_A: return "trivial_vector(" + a + ", value, alloc)";
		case LIST: return "trivial_vector{" + a + " values}";
		case LIST_A: return "trivial_vector({" + a + " values}, alloc)";
		case RANGE: return "trivial_vector(range of " + a + ")";
		case RANGE_A: return "trivial_vector(range of " + a + ", alloc)";
		case PUSH: return "push_back(const T&)";
		case PUSHMOVE: return "push_back(T&&)";
		case PUSHRANGE: return "push_back(range of " + a + ")";
		case EMPLACEBACK: return "emplace_back(value)";
		case EMPLACEBACK0: return "emplace_back()";
		case EMPLACE: return "emplace(begin() + " + a + ", value)";
		case ERASE: return "erase(begin() + " + a + ")";
		case ERASERANGE: return "erase(begin() + " + a + ", begin() + " + b + ")";
		case POP: return "pop_back()";
		case RESIZE: return "resize(" + a + ")";
		case RESERVE: return "reserve(" + a + ")";
		case CLEAR: return "clear()";
		default: { static const char* h[] = { "operator[]", "at()", "begin()", "data()", "rbegin()", "end()" }; return std::string("write element ") + a + " through " + h[o.b]; }
		}
	}
	std::vector<unsigned> fresh(size_t n) { std::vector<unsigned> r; for (size_t i = 0; i < n; i++) r.push_back(NEW + unsigned(i)); return r; }
	std::vector<T> values(const std::vector<unsigned>& u) { std::vector<T> r; for (unsigned x : u) r.push_back(mk<T>(x)); return r; }
	void wantAt(const T* it, size_t i, const char* what)
	{
		if (!failed() && it != v->begin() + i) fail("%s returned an iterator to index %ld instead of %zu", what, long(it - v->begin()), i);
	}
	void apply(const Op& o, bool) override
	{
		size_t a = size_t(o.a), b = size_t(o.b), n = m.size();
		const T one = mk<T>(NEW);
		const A& alloc = *held;
		switch (o.c)
		{
		case DEFAULT: v.make(); break;
		case WITHALLOC: v.make(alloc); break;
		case SIZED: v.make(a); m.assign(a, ANY); break;
		case SIZED_A: v.make(a, alloc); m.assign(a, ANY); break;
		case FILLED: v.make(a, one); m.assign(a, NEW); break;
		case FILLED_A: v.make(a, one, alloc); m.assign(a, NEW); break;
		case LIST: case LIST_A:
		{
			T x0 = mk<T>(NEW), x1 = mk<T>(NEW + 1), x2 = mk<T>(NEW + 2), x3 = mk<T>(NEW + 3);
			m = fresh(a);
			auto put = [&](std::initializer_list<T> l) { if (o.c == LIST) v.make(l); else v.make(l, alloc); };
			switch (a)
			{
			case 0: put({}); break;
			case 1: put({ x0 }); break;
			case 2: put({ x0, x1 }); break;
			case 3: put({ x0, x1, x2 }); break;
			default: put({ x0, x1, x2, x3 }); break;
			}
			break;
		}
		case RANGE: case RANGE_A:
		{
			m = fresh(a);
			std::vector<T> src = values(m);
			src.push_back(mk<T>(1)); // not empty, and not to be read
			const T* p = src.data();
			if (o.c == RANGE) v.make(p, p + a); else v.make(p, p + a, alloc);
			break;
		}
		case PUSH: { auto it = v->push_back(one); m.push_back(NEW); wantAt(it, n, "push_back"); break; }
		case PUSHMOVE: { T x = one; auto it = v->push_back(std::move(x)); m.push_back(NEW); wantAt(it, n, "push_back"); break; }
		case EMPLACEBACK: { auto it = v->emplace_back(one); m.push_back(NEW); wantAt(it, n, "emplace_back"); break; }
		case EMPLACEBACK0: { auto it = v->emplace_back(); m.push_back(ZERO); wantAt(it, n, "emplace_back"); break; }
		case PUSHRANGE:
		{
			std::vector<unsigned> f = fresh(a);
			std::vector<T> src = values(f);
			src.push_back(mk<T>(1));
			const T* p = src.data();
			auto it = v->push_back(p, p + a);
			m.insert(m.end(), f.begin(), f.end());
			if (a) wantAt(it, n, "push_back of a range");
			break;
		}
		case EMPLACE:
		{
			typename V::const_iterator at = v->begin() + a;
			if constexpr (std::is_void_v<decltype(v->emplace(at, one))>) v->emplace(at, one);
			else { auto it = v->emplace(at, one); wantAt(&*it, a, "emplace"); }
			m.insert(m.begin() + long(a), NEW);
			break;
		}
		case ERASE: { auto it = v->erase(v->begin() + a); m.erase(m.begin() + long(a)); wantAt(it, a, "erase"); break; }
		case ERASERANGE: { auto it = v->erase(v->begin() + a, v->begin() + b); m.erase(m.begin() + long(a), m.begin() + long(b)); wantAt(it, a, "erase of a range"); break; }
		case POP:
		{
			unsigned want = m.back();
			m.pop_back();
			if constexpr (std::is_void_v<decltype(v->pop_back())>) v->pop_back();
			else { T got = v->pop_back(); if (!matches<T>(got, want)) fail("pop_back() did not return the last element"); }
			break;
		}
		case RESIZE: v->resize(a); m.resize(a, ANY); break;
		case RESERVE: v->reserve(a); if (v->capacity() < a) fail("capacity() is %zu after reserve(%zu)", size_t(v->capacity()), a); break;
		case CLEAR: v->clear(); m.clear(); break;
		case WRITE:
			switch (b)
			{
			case 0: (*v)[a] = one; break;
			case 1: v->at(a) = one; break;
			case 2: v->begin()[a] = one; break;
			case 3: v->data()[a] = one; break;
			case 4: *(v->rbegin() + long(n - 1 - a)) = one; break;
			default: *(v->end() - long(n - a)) = one; break;
			}
			m[a] = NEW;
			break;
		}
		if (failed()) return;
		observe<T>(*v, m);
		const V& c = *v;
		if (failed()) return;
		if (c.empty() != m.empty()) fail("empty() is %d with %zu elements", int(c.empty()), m.size());
		if (c.capacity() < m.size()) fail("capacity() is %zu with %zu elements", size_t(c.capacity()), m.size());
		if (failed()) return;
		for (size_t i = 0; i < m.size(); i++) { (*v)[i] = mk<T>(unsigned(i)); m[i] = unsigned(i); }
		if (c.size() != m.size()) fail("writing elements changed the size");
	}
	void key(Hash& h) override
	{
		h.word(bool(v));
		if (v) { h.word(v->size()); h.word(v->capacity()); h.word(v->data() == nullptr); }
	}
	void finish() override
	{
		if (v) { observe<T>(*v, m); if (!failed()) v.destroy(); }
		if (failed()) return;
		held.reset();
		if (!failed() && pools_live()) fail("%zu blocks were never given back", pools_live());
		if (!failed() && world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
	}
};

template<bool Mine, class T, class A = TAlloc<T>>
static void suite(const char* name, size_t max, size_t thoroughMax)
{
	if constexpr (Mine)
	{
		size_t mx = thorough() ? thoroughMax : max;
		Bounds b;
		b.dfs = thorough() ? 3 : 2;
		b.depth = 200;
		b.maxStates = 100000;
		add(name, b, [mx]() -> System* { return new VecSys<T, A>(mx); });
	}
}

template<bool Mine, class T, class A = TAlloc<T>>
static void large(const char* name)
{
	if constexpr (Mine)
	{
		Bounds b;
		b.dfs = 2;
		b.depth = thorough() ? 4 : 3;
		b.maxStates = 100000;
		add(name, b, []() -> System* { return new VecSys<T, A>(1100, true); });
	}
}

// ---- arguments of emplacement ------------------------------------------------------------------------------------------
// An element that can only be moved, built from arguments of every kind
struct Ticket { int v; explicit Ticket(int x) : v(x) {} Ticket(Ticket&& o) noexcept : v(o.v) { o.v = -1; } Ticket(const Ticket&) = delete; };
struct Single
{
	int a, how;
	Single() = default;
	Single(int& lv, Ticket&& t) : a(lv * 100 + t.v), how(1) { lv = 77; t.v = -1; }
	Single(const int& c, const Ticket& t) : a(c * 100 + t.v), how(2) {}
	explicit Single(Ticket t) : a(t.v), how(3) {}
	Single(Single&&) = default;
	Single& operator=(Single&&) = default;
};
static_assert(std::is_trivially_copyable_v<Single>, "");
template<bool Mine, class A>
static void arguments(const char* name)
{
	if constexpr (Mine)
		add_cases(name, [](Cases& e)
		{
			size_t top = thorough() ? 40 : 12;
			for (size_t n = 0; n <= top; n++)
				for (size_t room : { size_t(0), n, n + 1, n + 5 })
					for (size_t at = 0; at <= n + 1; at++) // n + 1: at the end, by emplace_back
						for (int form = 0; form < 4; form++)
						{
							if (form == 3 && at <= n) continue;
							static const char* const forms[] = { "(lvalue, rvalue)", "(const, const)", "(rvalue)", "push_back(rvalue)" };
							if (!e.next("%zu elements, reserve(%zu), %s %zu %s", n, room, at > n ? "emplace_back" : "emplace at", at, forms[form])) continue;
							ktl::trivial_vector<Single, A> v;
							v.reserve(room);
							std::vector<int> want;
							for (size_t i = 0; i < n; i++) { v.emplace_back(Ticket(int(i))); want.push_back(int(i)); }
							int lv = 30;
							const int c = 40;
							Ticket t(5);
							const Ticket ct(6);
							Single s(Ticket(9));
							int expect = form == 0 ? 3005 : form == 1 ? 4006 : form == 2 ? 5 : 9;
							bool end = at > n;
							auto pos = v.begin() + long(end ? n : at);
							if (form == 0) { if (end) v.emplace_back(lv, std::move(t)); else v.emplace(pos, lv, std::move(t)); }
							else if (form == 1) { if (end) v.emplace_back(c, ct); else v.emplace(pos, c, ct); }
							else if (form == 2) { if (end) v.emplace_back(std::move(t)); else v.emplace(pos, std::move(t)); }
							else v.push_back(std::move(s));
							want.insert(want.begin() + long(end ? n : at), expect);
							e.step();
							if (v.size() != want.size()) fail("%zu elements instead of %zu", size_t(v.size()), want.size());
							for (size_t i = 0; i < want.size() && e.ok(); i++) if (v[i].a != want[i]) fail("element %zu is %d instead of %d", i, v[i].a, want[i]);
							const Single& made = v[end ? n : at];
							if (e.ok() && made.how != (form == 0 ? 1 : form == 1 ? 2 : 3)) fail("the element was built by another constructor");
							if (e.ok() && (lv != (form == 0 ? 77 : 30) || t.v != (form == 0 || form == 2 ? -1 : 5) || ct.v != 6)) fail("the arguments were not handed on as they were passed");
							if (!e.ok()) return;
						}
		});
}

MC_SUITES
{
	arguments<MC_MINE, ktl::type_allocator<Single, ktl::mallocator>>("arguments of emplacement, mallocator");
	arguments<MC_MINE, ktl::type_allocator<Single, ktl::shared<ktl::linear_allocator<8192>>>>("arguments of emplacement, shared<linear>");
	large<MC_MINE, uint32_t>("large trivial_vector<4 bytes>");
	large<MC_MINE, Bytes<3>>("large trivial_vector<3 bytes>");
	large<MC_MINE, uint8_t>("large trivial_vector<1 byte>");
	large<MC_MINE, uint64_t, ktl::type_allocator<uint64_t, ktl::mallocator>>("large trivial_vector<8 bytes, mallocator>");
	suite<MC_MINE, uint8_t>("trivial_vector<1 byte>", 13, 24);
	suite<MC_MINE, uint16_t>("trivial_vector<2 bytes>", 13, 20);
	suite<MC_MINE, Bytes<3>>("trivial_vector<3 bytes>", 13, 20);
	suite<MC_MINE, uint32_t>("trivial_vector<4 bytes>", 18, 40);
	suite<MC_MINE, uint64_t>("trivial_vector<8 bytes>", 13, 20);
	suite<MC_MINE, Bytes<12, 4>>("trivial_vector<12 bytes>", 13, 20);
	suite<MC_MINE, Packed19>("trivial_vector<19 bytes>", 13, 20);
	suite<MC_MINE, Bytes<24, 8>>("trivial_vector<24 bytes>", 13, 20);
	suite<MC_MINE, Bytes<64, 64>>("trivial_vector<64 bytes aligned to 64>", 8, 16);
	suite<MC_MINE, Bytes<200, 8>>("trivial_vector<200 bytes>", 8, 16);
	suite<MC_MINE, Pair>("trivial_vector<pair>", 8, 16);
	suite<MC_MINE, Defaulted>("trivial_vector<with default>", 8, 16);
	suite<MC_MINE, uint32_t, std::allocator<uint32_t>>("trivial_vector<4 bytes, std::allocator>", 8, 16);
	suite<MC_MINE, uint32_t, ktl::type_allocator<uint32_t, ktl::mallocator>>("trivial_vector<4 bytes, mallocator>", 13, 20);
	suite<MC_MINE, Bytes<3>, ktl::type_allocator<Bytes<3>, ktl::shared<ktl::linear_allocator<4096>>>>("trivial_vector<3 bytes, shared<linear<4096>>>", 13, 20);
	suite<MC_MINE, uint64_t, ktl::type_allocator<uint64_t, ktl::shared<ktl::fallback<ktl::freelist<0, 32, ktl::linear_allocator<64>>, ktl::mallocator>>>>("trivial_vector<8 bytes, shared<fallback<freelist<linear>,mallocator>>>", 13, 20);
	suite<MC_MINE, uint32_t, ktl::type_allocator<uint32_t, ktl::shared<ktl::cascading<ktl::linear_allocator<256>>>>>("trivial_vector<4 bytes, shared<cascading<linear<256>>>>", 13, 20);
	suite<MC_MINE, uint32_t, ktl::type_allocator<uint32_t, ktl::global<ktl::mallocator>>>("trivial_vector<4 bytes, global<mallocator>>", 8, 16);
	scale::vectors<MC_MINE, uint8_t>("at scale, trivial_vector<1 byte>");
	scale::vectors<MC_MINE, uint32_t>("at scale, trivial_vector<4 bytes>");
	scale::vectors<MC_MINE, Bytes<7>>("at scale, trivial_vector<7 bytes>");
	scale::vectors<MC_MINE, uint16_t, ktl::type_allocator<uint16_t, ktl::mallocator>>("at scale, trivial_vector<2 bytes, mallocator>");
	scale::vectors<MC_MINE, uint64_t, ktl::type_allocator<uint64_t, ktl::shared<ktl::segragator<1024, ktl::freelist<0, 1024, ktl::mallocator>, ktl::mallocator>>>>("at scale, trivial_vector<8 bytes, shared<segragator<freelist,mallocator>>>");
	scale::beyond<MC_MINE>("trivial_vector beyond 32 bits", true);
	values::vectors<MC_MINE, bool>("bool");
	values::vectors<MC_MINE, signed char>("signed char");
	values::vectors<MC_MINE, char16_t>("char16_t");
	values::vectors<MC_MINE, double>("double");
	values::vectors<MC_MINE, float>("float");
	values::vectors<MC_MINE, int values::Host::*>("pointer to data member");
	values::vectors<MC_MINE, values::Method>("pointer to member function");
	values::vectors<MC_MINE, values::Function>("pointer to function");
	values::vectors<MC_MINE, const char*>("pointer");
	values::vectors<MC_MINE, values::Tiny>("enumeration of 8 bits");
	values::vectors<MC_MINE, values::Wide>("enumeration of 64 bits");
	values::vectors<MC_MINE, values::Fields>("bit-fields");
	values::vectors<MC_MINE, values::Shy>("without operators");
	values::vectors<MC_MINE, values::Either>("union");
	values::vectors<MC_MINE, values::Big, std::allocator<values::Big>>("70001 bytes");
}
