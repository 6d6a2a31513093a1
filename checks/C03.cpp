// PARTS: 8
// trivial_buffer: rings of every element size, alignment and length, two buffers under all copies, moves and writes.
#include "conts.h"
#include "scale.h"
#include "values.h"
using namespace mc;
using namespace conts;

template<class T, size_t N>
class BufSys : public System
{
public:
	using V = ktl::trivial_buffer<T, N>;
	struct Holder // the buffer is not the first member
	{
		char before;
		V b;
		char after;
		template<class... A> explicit Holder(int, A&&... a) : before('b'), b(std::forward<A>(a)...), after('a') {}
		explicit Holder(std::initializer_list<T> l) : before('b'), b(l), after('a') {}
	};
	enum { DEFAULT = 1, FILLED, LIST, RANGE, COPY, MOVE, COPYASSIGN, MOVEASSIGN, SELF, ASSIGN, WRITE, DROP };
	size_t shift;
	Obj<Holder> s[2];
	std::vector<unsigned> m[2];
	explicit BufSys(size_t sh) : shift(sh) {}
	void start() override { world().objShift = shift; }
	static Op mkop(int c, int slot, size_t a = 0, size_t b = 0) { Op o; o.c = int16_t(c); o.d = int16_t(slot); o.a = int16_t(a); o.b = int16_t(b); return o; }
	static std::vector<size_t> indices()
	{
		std::vector<size_t> r;
		for (size_t i = 0; i <= 2 * N + 1 && i < 20; i++) r.push_back(i);
		if (N >= 10) for (size_t i : { N - 1, N, N + 1, 2 * N, 3 * N - 1, 3 * N }) r.push_back(i);
		for (size_t i : { (size_t(1) << 31) + 1, size_t(1) << 32, (size_t(1) << 32) + 3, size_t(1) << 63, ~size_t(0) - 1, ~size_t(0) }) r.push_back(i);
		return r;
	}
	void ops(std::vector<Op>& o) const override
	{
		for (int i = 0; i < 2; i++)
		{
			int j = 1 - i;
			if (!s[i])
			{
				for (int c : { DEFAULT, FILLED, RANGE }) o.push_back(mkop(c, i));
				for (size_t n = 0; n <= N; n++) if (n <= 4 || n == N) o.push_back(mkop(LIST, i, n));
				if (s[j]) { o.push_back(mkop(COPY, i)); o.push_back(mkop(MOVE, i)); }
				continue;
			}
			if (s[j]) { o.push_back(mkop(COPYASSIGN, i)); o.push_back(mkop(MOVEASSIGN, i)); }
			o.push_back(mkop(SELF, i));
			o.push_back(mkop(ASSIGN, i));
			o.push_back(mkop(DROP, i));
			for (size_t k = 0; k < indices().size(); k++) for (size_t h = 0; h < 6; h++) if (h < 2 || indices()[k] < N) o.push_back(mkop(WRITE, i, k, h));
		}
	}
	std::string describe(const Op& o) const override
	{
		std::string x(1, char('x' + o.d)), y(1, char('y' - o.d)), a = std::to_string(o.a);
		switch (o.c)
		{
		case DEFAULT: return x + "()";
		case FILLED: return x + "(value)";
		case LIST: return x + "{" + a + " values}";
		case RANGE: return x + "(range)";
		case COPY: return x + "(" + y + ")";
		case MOVE: return x + "(move(" + y + "))";
		case COPYASSIGN: return x + " = " + y;
		case MOVEASSIGN: return x + " = move(" + y + ")";
		case SELF: return x + " = " + x;
		case ASSIGN: return x + ".assign(range)";
		case DROP: return "destroy " + x;
		default: { static const char* h[] = { "operator[]", "at()", "begin()", "data()", "rbegin()", "end()" }; return "write " + x + " at index " + std::to_string(indices()[size_t(o.a)]) + " through " + h[o.b]; }
		}
	}
	template<size_t... I> void full(Obj<Holder>& h, unsigned base, std::index_sequence<I...>) { h.make(std::initializer_list<T>{ mk<T>(base + unsigned(I))... }); }
	void apply(const Op& o, bool) override
	{
		int i = o.d, j = 1 - i;
		size_t a = size_t(o.a);
		unsigned base = 100;
		std::vector<unsigned> fresh;
		std::vector<T> src;
		for (size_t k = 0; k < N; k++) { fresh.push_back(base + unsigned(k)); src.push_back(mk<T>(fresh.back())); }
		switch (o.c)
		{
		case DEFAULT: s[i].make(0); m[i].assign(N, ANY); break;
		case FILLED: { const T one = mk<T>(base); s[i].make(0, one); m[i].assign(N, base); break; }
		case LIST:
		{
			m[i] = fresh;
			for (size_t k = a; k < N; k++) m[i][k] = ANY;
			T x0 = mk<T>(base), x1 = mk<T>(base + 1), x2 = mk<T>(base + 2), x3 = mk<T>(base + 3);
			switch (a)
			{
			case 0: s[i].make(std::initializer_list<T>{}); break;
			case 1: s[i].make(std::initializer_list<T>{ x0 }); break;
			case 2: s[i].make(std::initializer_list<T>{ x0, x1 }); break;
			case 3: s[i].make(std::initializer_list<T>{ x0, x1, x2 }); break;
			case 4: s[i].make(std::initializer_list<T>{ x0, x1, x2, x3 }); break;
			default: full(s[i], base, std::make_index_sequence<N>()); break;
			}
			break;
		}
		case RANGE: { const T* p = src.data(); s[i].make(0, p, p + N); m[i] = fresh; break; }
		case COPY: { const V& from = s[j]->b; s[i].make(0, from); m[i] = m[j]; break; }
		case MOVE: s[i].make(0, std::move(s[j]->b)); m[i] = m[j]; m[j].assign(N, ANY); break;
		case COPYASSIGN: { const V& from = s[j]->b; V& r = (s[i]->b = from); if (&r != &s[i]->b) fail("assignment returned another object"); m[i] = m[j]; break; }
		case MOVEASSIGN: s[i]->b = std::move(s[j]->b); m[i] = m[j]; m[j].assign(N, ANY); break;
		case SELF: { const V& from = s[i]->b; s[i]->b = from; break; }
		case ASSIGN: { const T* p = src.data(); s[i]->b.assign(p, p + N); m[i] = fresh; break; }
		case DROP: s[i].destroy(); m[i].clear(); return;
		case WRITE:
		{
			size_t k = indices()[a];
			const T one = mk<T>(base);
			V& v = s[i]->b;
			switch (o.b)
			{
			case 0: v[k] = one; break;
			case 1: v.at(k) = one; break;
			case 2: v.begin()[k] = one; break;
			case 3: v.data()[k] = one; break;
			case 4: *(v.rbegin() + long(N - 1 - k)) = one; break;
			default: *(v.end() - long(N - k)) = one; break;
			}
			m[i][k % N] = base;
			break;
		}
		}
		for (int k = 0; k < 2 && !failed(); k++) if (s[k]) look(k);
		if (failed()) return;
		for (int k = 0; k < 2; k++)
			if (s[k]) for (size_t e = 0; e < N; e++) { m[k][e] = unsigned(k) * 50 + unsigned(e); s[k]->b.data()[e] = mk<T>(m[k][e]); }
	}
	void look(int k)
	{
		V& v = s[k]->b;
		const V& c = v;
		observe<T>(v, m[k]);
		if (!failed() && c.size() != N) fail("size() is %zu", size_t(c.size()));
		for (size_t x : indices())
		{
			if (failed()) return;
			if (&v[x] != v.data() + x % N || &c[x] != c.data() + x % N) fail("operator[] with index %zu does not denote element %zu", x, x % N);
			else if (&v.at(x) != v.data() + x % N || &c.at(x) != c.data() + x % N) fail("at() with index %zu does not denote element %zu", x, x % N);
		}
		const char* lo = reinterpret_cast<const char*>(&*s[k]);
		if (!failed() && (reinterpret_cast<const char*>(c.begin()) < lo || reinterpret_cast<const char*>(c.end()) > lo + sizeof(Holder))) fail("the elements are not inside of the buffer");
		if (!failed() && (s[k]->before != 'b' || s[k]->after != 'a')) fail("writing the buffer changed its neighbours");
	}
	void key(Hash& h) override { h.word(bool(s[0])); h.word(bool(s[1])); }
	void finish() override
	{
		for (int i = 0; i < 2; i++) if (s[i] && !failed()) { look(i); if (!failed()) s[i].destroy(); }
	}
};

template<class T, size_t N> struct B { using type = BufSys<T, N>; };
template<bool Mine, class T, size_t... N>
static void suites_of(const char* name)
{
	if constexpr (Mine)
	{
		Bounds b;
		b.dfs = 2;
		for (size_t shift : { 0, 8 })
			(add("trivial_buffer<" + std::string(name) + ", " + std::to_string(N) + ">, object at " + std::to_string(shift / alignof(T) * alignof(T)) + " modulo 64", b, [shift]() -> System* { return new BufSys<T, N>(shift); }), ...);
	}
}
struct OtherDefault { int32_t v; OtherDefault() : v(42) {} };

MC_SUITES
{
	suites_of<MC_MINE, uint8_t, 1, 2, 3, 5, 16, 40>("1 byte");
	suites_of<MC_MINE, uint16_t, 1, 2, 3, 7>("2 bytes");
	suites_of<MC_MINE, Bytes<3>, 1, 2, 3, 6>("3 bytes");
	suites_of<MC_MINE, uint32_t, 1, 2, 3, 5, 8, 33>("4 bytes");
	suites_of<MC_MINE, uint64_t, 1, 2, 3, 5>("8 bytes");
	suites_of<MC_MINE, Bytes<12, 4>, 1, 2, 5>("12 bytes");
	suites_of<MC_MINE, Packed19, 1, 2, 5>("19 bytes");
	suites_of<MC_MINE, Bytes<24, 8>, 1, 2, 5>("24 bytes");
	suites_of<MC_MINE, Bytes<16, 16>, 1, 2, 5>("16 bytes aligned to 16");
	suites_of<MC_MINE, Bytes<32, 32>, 1, 2, 3>("32 bytes aligned to 32");
	suites_of<MC_MINE, Bytes<64, 64>, 1, 2, 3>("64 bytes aligned to 64");
	suites_of<MC_MINE, long double*, 1, 3>("pointer");
	suites_of<MC_MINE, Pair, 1, 2, 3>("pair");
	suites_of<MC_MINE, Defaulted, 1, 3>("with default");
	suites_of<MC_MINE, OtherDefault, 1, 3>("with default constructor");
	scale::buffers<MC_MINE, uint8_t, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537>("at scale, 1 byte");
	scale::buffers<MC_MINE, uint32_t, 127, 128, 129, 255, 256, 257, 1000, 16384, 65535, 65536, 65537>("at scale, 4 bytes");
	scale::buffers<MC_MINE, Bytes<7>, 128, 256, 257, 9363, 65536, 65537>("at scale, 7 bytes");
	scale::hugeBuffer<MC_MINE>("beyond 32 bits");
	values::buffers<MC_MINE, bool>("bool");
	values::buffers<MC_MINE, signed char>("signed char");
	values::buffers<MC_MINE, char16_t>("char16_t");
	values::buffers<MC_MINE, double>("double");
	values::buffers<MC_MINE, float>("float");
	values::buffers<MC_MINE, int values::Host::*>("pointer to data member");
	values::buffers<MC_MINE, values::Method>("pointer to member function");
	values::buffers<MC_MINE, values::Function>("pointer to function");
	values::buffers<MC_MINE, const char*>("pointer");
	values::buffers<MC_MINE, values::Tiny>("enumeration of 8 bits");
	values::buffers<MC_MINE, values::Wide>("enumeration of 64 bits");
	values::buffers<MC_MINE, values::Fields>("bit-fields");
	values::buffers<MC_MINE, values::Shy>("without operators");
	values::buffers<MC_MINE, values::Either>("union");
	values::buffers<MC_MINE, values::Big>("70001 bytes");
}
