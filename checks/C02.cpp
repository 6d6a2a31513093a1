// PARTS: 6
// trivial_array against a plain sequence: every operation from every size (see C01 for the normalisation).
#include "conts.h"
#include "scale.h"
#include "values.h"
#include <optional>
using namespace mc;
using namespace conts;

template<class T, class A>
class ArrSys : public System
{
public:
	using V = ktl::trivial_array<T, A>;
	enum { DEFAULT = 1, WITHALLOC, SIZED, SIZED_A, FILLED, FILLED_A, LIST, LIST_A, RANGE, RANGE_A, RESIZE, ASSIGN, WRITE };
	std::vector<size_t> sizes;
	std::optional<A> held;
	Obj<V> v;
	std::vector<unsigned> m;
	static constexpr unsigned NEW = 100;
	explicit ArrSys(std::vector<size_t> s) : sizes(std::move(s)) { make_pools(1); }
	void start() override { held.emplace(); }
	static Op mkop(int c, size_t a = 0, size_t b = 0) { Op o; o.c = int16_t(c); o.a = int16_t(a); o.b = int16_t(b); return o; }
	void ops(std::vector<Op>& o) const override
	{
		if (!v)
		{
			o.push_back(mkop(DEFAULT));
			o.push_back(mkop(WITHALLOC));
			for (size_t n : sizes) for (int c : { SIZED, SIZED_A, FILLED, FILLED_A, RANGE, RANGE_A }) o.push_back(mkop(c, n));
			for (size_t n = 0; n <= 4; n++) { o.push_back(mkop(LIST, n)); o.push_back(mkop(LIST_A, n)); }
			return;
		}
		for (size_t n : sizes) { o.push_back(mkop(RESIZE, n)); o.push_back(mkop(ASSIGN, n)); }
		size_t n = m.size();
		for (size_t i = 0; i < n; i++)
		{
			if (n > 40 && i > 1 && i < n - 2 && i != n / 2) continue;
			for (size_t k = 0; k < 6; k++) o.push_back(mkop(WRITE, i, k));
		}
	}
	std::string describe(const Op& o) const override
	{
		std::string a = std::to_string(o.a);
		switch (o.c)
		{
		case DEFAULT: return "trivial_array()";
		case WITHALLOC: return "trivial_array(alloc)";
		case SIZED: return "trivial_array(" + a + ")";
		case SIZED_A: return "trivial_array(" + a + ", alloc)";
		case FILLED: return "trivial_array(" + a + ", value)";
		case FILLED_A: return "trivial_array(" + a + ", value, alloc)";
		case LIST: return "trivial_array{" + a + " values}";
		case LIST_A: return "trivial_array({" + a + " values}, alloc)";
		case RANGE: return "trivial_array(range of " + a + ")";
		case RANGE_A: return "trivial_array(range of " + a + ", alloc)";
		case RESIZE: return "resize(" + a + ")";
		case ASSIGN: return "assign(range of " + a + ")";
		default: { static const char* h[] = { "operator[]", "at()", "begin()", "data()", "rbegin()", "end()" }; return "write element " + a + " through " + h[o.b]; }
		}
	}
	std::vector<unsigned> fresh(size_t n) { std::vector<unsigned> r; for (size_t i = 0; i < n; i++) r.push_back(NEW + unsigned(i)); return r; }
	std::vector<T> values(const std::vector<unsigned>& u) { std::vector<T> r; for (unsigned x : u) r.push_back(mk<T>(x)); return r; }
	void apply(const Op& o, bool) override
	{
		size_t a = size_t(o.a), b = size_t(o.b), n = m.size();
		const T one = mk<T>(NEW);
		const A& alloc = *held;
		switch (o.c)
		{
		case DEFAULT: v.make(); break;
		case WITHALLOC: v.make(alloc); break;
		case SIZED: v.make(a); m.assign(a, ANY); break;
		case SIZED_A: v.make(a, alloc); m.assign(a, ANY); break;
		case FILLED: v.make(a, one); m.assign(a, NEW); break;
		case FILLED_A: v.make(a, one, alloc); m.assign(a, NEW); break;
		case LIST: case LIST_A:
		{
			T x0 = mk<T>(NEW), x1 = mk<T>(NEW + 1), x2 = mk<T>(NEW + 2), x3 = mk<T>(NEW + 3);
			m = fresh(a);
			auto put = [&](std::initializer_list<T> l) { if (o.c == LIST) v.make(l); else v.make(l, alloc); };
			switch (a)
			{
			case 0: put({}); break;
			case 1: put({ x0 }); break;
			case 2: put({ x0, x1 }); break;
			case 3: put({ x0, x1, x2 }); break;
			default: put({ x0, x1, x2, x3 }); break;
			}
			break;
		}
		case RANGE: case RANGE_A: case ASSIGN:
		{
			m = fresh(a);
			std::vector<T> src = values(m);
			src.push_back(mk<T>(1));
			const T* p = src.data();
			if (o.c == RANGE) v.make(p, p + a);
			else if (o.c == RANGE_A) v.make(p, p + a, alloc);
			else v->assign(p, p + a);
			break;
		}
		case RESIZE: v->resize(a); m.resize(a, ANY); break;
		case WRITE:
			switch (b)
			{
			case 0: (*v)[a] = one; break;
			case 1: v->at(a) = one; break;
			case 2: v->begin()[a] = one; break;
			case 3: v->data()[a] = one; break;
			case 4: *(v->rbegin() + long(n - 1 - a)) = one; break;
			default: *(v->end() - long(n - a)) = one; break;
			}
			m[a] = NEW;
			break;
		}
		if (failed()) return;
		observe<T>(*v, m);
		const V& c = *v;
		if (failed()) return;
		if (c.empty() != m.empty()) fail("empty() is %d with %zu elements", int(c.empty()), m.size());
		if (failed()) return;
		for (size_t i = 0; i < m.size(); i++) { (*v)[i] = mk<T>(unsigned(i)); m[i] = unsigned(i); }
	}
	void key(Hash& h) override
	{
		h.word(bool(v));
		if (v) { h.word(v->size()); h.word(v->data() == nullptr); }
	}
	void finish() override
	{
		if (v) { observe<T>(*v, m); if (!failed()) v.destroy(); }
		if (failed()) return;
		held.reset();
		if (pools_live()) fail("%zu blocks were never given back", pools_live());
		if (world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
	}
};

template<bool Mine, class T, class A = TAlloc<T>>
static void suite(const char* name, size_t max, size_t thoroughMax)
{
	if constexpr (Mine)
	{
		std::vector<size_t> s;
		for (size_t i = 0; i <= (thorough() ? thoroughMax : max); i++) s.push_back(i);
		Bounds b;
		b.dfs = thorough() ? 3 : 2;
		b.depth = 200;
		add(name, b, [s]() -> System* { return new ArrSys<T, A>(s); });
	}
}
template<bool Mine, class T, class A = TAlloc<T>>
static void large(const char* name)
{
	if constexpr (Mine)
	{
		std::vector<size_t> s{ 0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025 };
		Bounds b;
		b.dfs = 2;
		add(name, b, [s]() -> System* { return new ArrSys<T, A>(s); });
	}
}

MC_SUITES
{
	suite<MC_MINE, uint8_t>("trivial_array<1 byte>", 14, 40);
	suite<MC_MINE, uint16_t>("trivial_array<2 bytes>", 14, 40);
	suite<MC_MINE, Bytes<3>>("trivial_array<3 bytes>", 14, 40);
	suite<MC_MINE, uint32_t>("trivial_array<4 bytes>", 20, 50);
	suite<MC_MINE, uint64_t>("trivial_array<8 bytes>", 14, 40);
	suite<MC_MINE, Bytes<12, 4>>("trivial_array<12 bytes>", 14, 40);
	suite<MC_MINE, Packed19>("trivial_array<19 bytes>", 14, 40);
	suite<MC_MINE, Bytes<24, 8>>("trivial_array<24 bytes>", 14, 40);
	suite<MC_MINE, Bytes<64, 64>>("trivial_array<64 bytes aligned to 64>", 8, 20);
	suite<MC_MINE, Bytes<200, 8>>("trivial_array<200 bytes>", 8, 20);
	suite<MC_MINE, Pair>("trivial_array<pair>", 8, 20);
	suite<MC_MINE, Defaulted>("trivial_array<with default>", 8, 20);
	suite<MC_MINE, uint32_t, std::allocator<uint32_t>>("trivial_array<4 bytes, std::allocator>", 8, 20);
	suite<MC_MINE, uint32_t, ktl::type_allocator<uint32_t, ktl::mallocator>>("trivial_array<4 bytes, mallocator>", 14, 40);
	suite<MC_MINE, Bytes<3>, ktl::type_allocator<Bytes<3>, ktl::shared<ktl::linear_allocator<4096>>>>("trivial_array<3 bytes, shared<linear<4096>>>", 14, 40);
	suite<MC_MINE, uint32_t, ktl::type_allocator<uint32_t, ktl::shared<ktl::cascading<ktl::linear_allocator<256>>>>>("trivial_array<4 bytes, shared<cascading<linear<256>>>>", 14, 40);
	suite<MC_MINE, uint32_t, ktl::type_allocator<uint32_t, ktl::global<ktl::mallocator>>>("trivial_array<4 bytes, global<mallocator>>", 14, 40);
	large<MC_MINE, uint32_t>("large trivial_array<4 bytes>");
	large<MC_MINE, Bytes<3>>("large trivial_array<3 bytes>");
	large<MC_MINE, uint64_t, ktl::type_allocator<uint64_t, ktl::mallocator>>("large trivial_array<8 bytes, mallocator>");
	scale::arrays<MC_MINE, uint8_t>("at scale, trivial_array<1 byte>");
	scale::arrays<MC_MINE, uint32_t>("at scale, trivial_array<4 bytes>");
	scale::arrays<MC_MINE, Bytes<7>>("at scale, trivial_array<7 bytes>");
	scale::arrays<MC_MINE, uint16_t, ktl::type_allocator<uint16_t, ktl::mallocator>>("at scale, trivial_array<2 bytes, mallocator>");
	scale::beyond<MC_MINE>("trivial_array beyond 32 bits", false);
	values::arrays<MC_MINE, bool>("bool");
	values::arrays<MC_MINE, signed char>("signed char");
	values::arrays<MC_MINE, char16_t>("char16_t");
	values::arrays<MC_MINE, double>("double");
	values::arrays<MC_MINE, float>("float");
	values::arrays<MC_MINE, int values::Host::*>("pointer to data member");
	values::arrays<MC_MINE, values::Method>("pointer to member function");
	values::arrays<MC_MINE, values::Function>("pointer to function");
	values::arrays<MC_MINE, const char*>("pointer");
	values::arrays<MC_MINE, values::Tiny>("enumeration of 8 bits");
	values::arrays<MC_MINE, values::Wide>("enumeration of 64 bits");
	values::arrays<MC_MINE, values::Fields>("bit-fields");
	values::arrays<MC_MINE, values::Shy>("without operators");
	values::arrays<MC_MINE, values::Either>("union");
	values::arrays<MC_MINE, values::Big, std::allocator<values::Big>>("70001 bytes");
}
