// PARTS: 3
// Containers whose allocator or elements throw: nothing is lost, destroyed twice or left dangling
#include "conts.h"
using namespace conts;
using mc::thorough;
using mc::PoolId;

struct Boom { int serial; };
enum { ALLOCATIONS = 1, ELEMENTS = 2 };
struct Plan { int at = 0, kinds = 0, count = 0, thrown = 0; }; // the at-th point of these kinds throws
inline Plan& plan() { static Plan p; return p; }
inline void point(int kind)
{
	Plan& p = plan();
	if ((p.kinds & kind) && ++p.count == p.at) { p.thrown++; throw Boom{ p.thrown }; }
}

// ---- elements whose copies (and moves) may throw ------------------------------------------------------------------
struct Life { int key, id; bool moved; };
inline std::map<const void*, Life>& lives() { static std::map<const void*, Life> l; return l; }
template<bool CopyThrows, bool MoveThrows>
struct Live
{
	int key, id;
	static void born(const void* p, int key, int id) { if (!lives().emplace(p, Life{ key, id, false }).second) fail("an element is constructed where one exists already"); }
	static Life& at(const void* p, const char* what)
	{
		static Life none{ 0, 0, false };
		auto it = lives().find(p);
		if (it == lives().end()) { fail("%s an element that does not exist", what); return none; }
		return it->second;
	}
	explicit Live(int key, int id) noexcept : key(key), id(id) { born(this, key, id); }
	Live(const Live& o) noexcept(!CopyThrows) : key(o.key), id(o.id)
	{
		if (at(&o, "copies").moved) fail("copies an element that was moved from");
		if (CopyThrows) point(ELEMENTS);
		born(this, key, id);
	}
	Live(Live&& o) noexcept(!MoveThrows) : key(o.key), id(o.id)
	{
		if (at(&o, "moves").moved) fail("moves an element that was moved from");
		if (MoveThrows) point(ELEMENTS);
		at(&o, "moves").moved = true;
		born(this, key, id);
	}
	Live& operator=(const Live& o) noexcept(!CopyThrows)
	{
		if (at(&o, "assigns from").moved) fail("assigns from an element that was moved from");
		Life& me = at(this, "assigns to");
		if (CopyThrows) point(ELEMENTS);
		key = o.key; id = o.id;
		me = Life{ key, id, false };
		return *this;
	}
	Live& operator=(Live&& o) noexcept(!MoveThrows)
	{
		if (at(&o, "assigns from").moved) fail("assigns from an element that was moved from");
		Life& me = at(this, "assigns to");
		if (MoveThrows) point(ELEMENTS);
		key = o.key; id = o.id;
		at(&o, "assigns from").moved = true;
		me = Life{ key, id, false };
		return *this;
	}
	~Live() { at(this, "destroys"); lives().erase(this); }
	bool operator<(const Live& o) const { return key < o.key; }
	bool operator>(const Live& o) const { return key > o.key; }
	bool operator==(const Live& o) const { return key == o.key; }
};
struct ByKey
{
	template<class T> bool operator()(const T& a, const T& b) const noexcept { return a.key < b.key; }
};

// ---- an allocator that may throw ----------------------------------------------------------------------------------
template<class T>
struct ThrowAlloc : TAlloc<T>
{
	using value_type = T;
	template<class U> struct rebind { using other = ThrowAlloc<U>; };
	using TAlloc<T>::TAlloc;
	ThrowAlloc() noexcept {}
	T* allocate(size_t n) { point(ALLOCATIONS); return TAlloc<T>::allocate(n); }
};

// ---- heaps --------------------------------------------------------------------------------------------------------
using Keys = std::multiset<std::pair<int, int>>;
template<class T, class Alloc>
class HeapSys : public mc::System
{
public:
	using H = ktl::binary_heap<T, ByKey, Alloc>;
	enum { INSERT = 1, POP, CLEAR, RESERVE, DROP, NEW, COPY, COPY_TO, MOVE_TO, ASSIGN, LIST, LIST_TO, TAKE };
	struct Slot { Obj<H> h; Keys keys; bool broken = false; int pool = 0; };
	// what is declared not to throw ends the program instead
	static constexpr bool copying = !std::is_nothrow_copy_constructible_v<T>, moving = !std::is_nothrow_move_constructible_v<T>, assigning = !std::is_nothrow_copy_assignable_v<T>;
	size_t max;
	int points;
	Slot s[2];
	int thrown = 0;
	HeapSys(size_t max, int points) : max(max), points(points) {}
	void start() override
	{
		plan() = Plan();
		lives().clear();
		mc::world().onReset = mc::reset_pools;
		mc::reset_pools();
		make_pools(2);
		create(s[0], [&](void* p) { return ::new (p) H(Alloc(PoolId{ 0 })); });
	}
	template<class F> bool create(Slot& d, F f)
	{
		bool out = true;
		try { d.h.make_with(f); }
		catch (const Boom&) { out = false; }
		return out;
	}
	void ops(std::vector<Op>& o) const override
	{
		auto add = [&](int c, int a, int b = 0, int d = 0) { Op q; q.c = int16_t(c); q.a = int16_t(a); q.b = int16_t(b); q.d = int16_t(d); o.push_back(q); };
		for (int i = 0; i < 2; i++)
		{
			const Slot& x = s[i];
			const Slot& y = s[1 - i];
			if (x.h)
			{
				if (!x.broken)
				{
					if (x.keys.size() < max) for (int k = 0; k < 3; k++) add(INSERT, i, k);
					if (!x.keys.empty()) add(POP, i);
					add(RESERVE, i, 3);
				}
				if (x.broken || x.keys.size() > 1) add(CLEAR, i);
				add(DROP, i);
				if (y.h && !y.broken) for (int p = 0; p <= (assigning ? points : 0); p++) add(ASSIGN, i, 0, p);
				if (y.h && !y.broken) add(TAKE, i);
			}
			else
			{
				for (int p = 0; p < 2; p++) add(NEW, i, p);
				for (int n = 0; n <= 3; n += 3) for (int p = 0; p <= 1; p++) { add(LIST, i, n, p); add(LIST_TO, i, n, p); }
				if (y.h && !y.broken)
				{
					for (int p = 0; p <= points; p++)
					{
						if (copying || !p) add(COPY, i, 0, p);
						for (int q = 0; q < 2; q++) { if (copying || !p) add(COPY_TO, i, q, p); if (moving || !p) add(MOVE_TO, i, q, p); }
					}
				}
			}
		}
	}
	std::string describe(const Op& o) const override
	{
		char x = char('a' + o.a), y = char('a' + 1 - o.a);
		std::string t, X(1, x), Y(1, y), q = std::to_string(o.b);
		switch (o.c)
		{
		case INSERT: return X + ".insert(key " + q + ")";
		case POP: return X + ".pop()";
		case CLEAR: return X + ".clear()";
		case RESERVE: return X + ".reserve(3)";
		case DROP: return "destroy " + X;
		case NEW: return X + "(allocator " + q + ")";
		case COPY: t = X + "(" + Y + ")"; break;
		case COPY_TO: t = X + "(" + Y + ", allocator " + q + ")"; break;
		case MOVE_TO: t = X + "(move(" + Y + "), allocator " + q + ")"; break;
		case ASSIGN: t = X + " = " + Y; break;
		case TAKE: return X + " = move(" + Y + ")";
		case LIST: t = X + "({" + q + " elements})"; break;
		case LIST_TO: t = X + "({" + q + " elements}, allocator 1)"; break;
		}
		if (o.d) t += ", what may throw throws the " + std::to_string(int(o.d)) + ". time";
		return t;
	}
	template<class F> bool armed(int kinds, int at, F f)
	{
		plan() = Plan();
		plan().kinds = kinds;
		plan().at = at;
		bool out = true;
		try { f(); }
		catch (const Boom&) { out = false; }
		int n = plan().thrown;
		plan() = Plan();
		if (!failed() && out == (n > 0)) fail(out ? "the exception did not reach the caller" : "an exception reached the caller although nothing threw");
		if (!out) thrown++;
		return out;
	}
	// what a failed operation left behind must be a heap of some of these
	void survey(Slot& d, const Keys& a, const Keys& b)
	{
		Keys now;
		for (auto& x : *d.h)
		{
			if (!lives().count(&x)) { fail("the heap holds an element that was never constructed"); return; }
			now.insert({ x.key, x.id });
		}
		auto within = [&](const Keys& k) { return std::includes(k.begin(), k.end(), now.begin(), now.end()); };
		if (!within(a) && !within(b)) fail("after a failed assignment the heap holds elements it should not hold");
		d.keys = now;
	}
	void apply(const Op& o, bool) override
	{
		Slot& d = s[o.a];
		Slot& e = s[1 - o.a];
		switch (o.c)
		{
		case INSERT: { d.h->insert(T(int(o.b), 0)); d.keys.insert({ int(o.b), 0 }); return; }
		case POP:
		{
			T x = d.h->pop();
			auto k = std::make_pair(x.key, x.id);
			if (d.keys.empty() || *d.keys.begin() != k) fail("pop() gave key %d", x.key);
			else d.keys.erase(d.keys.begin());
			return;
		}
		case CLEAR: d.h->clear(); d.keys.clear(); d.broken = false; return;
		case RESERVE: d.h->reserve(size_t(o.b)); return;
		case DROP: d.h.destroy(); d.keys.clear(); d.broken = false; return;
		case NEW: d.h.make_with([&](void* p) { return ::new (p) H(Alloc(PoolId{ int(o.b) })); }); return;
		case TAKE: *d.h = std::move(*e.h); d.keys = std::move(e.keys); e.keys.clear(); d.broken = false; return;
		case ASSIGN:
		{
			Keys before = d.broken ? Keys() : d.keys;
			bool ok = armed(ALLOCATIONS | ELEMENTS, o.d, [&] { *d.h = *e.h; });
			if (failed()) return;
			if (ok) { d.keys = e.keys; d.broken = false; }
			else survey(d, before, e.keys);
			return;
		}
		default: break;
		}
		bool ok = armed(o.c == LIST || o.c == LIST_TO ? ALLOCATIONS : ALLOCATIONS | ELEMENTS, o.d, [&]
		{
			d.h.make_with([&](void* p)
			{
				switch (o.c)
				{
				case COPY: return ::new (p) H(*e.h);
				case COPY_TO: return ::new (p) H(*e.h, Alloc(PoolId{ int(o.b) }));
				case MOVE_TO: return ::new (p) H(std::move(*e.h), Alloc(PoolId{ int(o.b) }));
				default:
				{
					std::initializer_list<T> none, three{ T(2, 0), T(0, 0), T(1, 0) };
					return o.c == LIST ? ::new (p) H(o.b ? three : none) : ::new (p) H(o.b ? three : none, Alloc(PoolId{ 1 }));
				}
				}
			});
		});
		if (failed()) return;
		if (ok)
		{
			if (o.c == LIST || o.c == LIST_TO) { d.keys.clear(); if (o.b) for (int k = 0; k < 3; k++) d.keys.insert({ k, 0 }); }
			else { d.keys = e.keys; if (o.c == MOVE_TO) e.keys.clear(); }
		}
		else if (o.c == MOVE_TO) // elements may have been moved already; the source holds what is left of them
		{
			if (e.h->size() > e.keys.size()) fail("the source of a failed move has become longer");
			for (auto& x : *e.h) if (!lives().count(&x)) { fail("the source of a failed move holds an element that does not exist"); return; }
			bool moved = e.h->size() != e.keys.size();
			for (auto& x : *e.h) moved = moved || lives()[&x].moved;
			e.broken = moved;
			if (e.h->size() == 0) { e.broken = false; e.keys.clear(); }
		}
	}
	void check() override
	{
		size_t n = 0;
		for (auto& x : s)
			if (x.h)
			{
				n += x.h->size();
				if (x.broken) continue;
				if (x.h->size() != x.keys.size()) { fail("a heap holds %zu elements instead of %zu", size_t(x.h->size()), x.keys.size()); return; }
				Keys now;
				for (auto& y : *x.h)
				{
					auto it = lives().find(&y);
					if (it == lives().end() || it->second.moved) { fail("a heap holds an element that does not exist"); return; }
					now.insert({ y.key, y.id });
				}
				if (now != x.keys) { fail("a heap holds other elements than were put into it"); return; }
				if (!now.empty() && x.h->peek().key != now.begin()->first) { fail("peek() gives key %d", x.h->peek().key); return; }
			}
		if (lives().size() != n) { fail("%zu elements are alive although the heaps hold %zu", lives().size(), n); return; }
	}
	void key(Hash& h) override
	{
		h.word(thrown > 0);
		for (auto& x : s)
		{
			h.word(uint64_t(x.broken) * 2 + uint64_t(bool(x.h)));
			for (auto& k : x.keys) h.word(uint64_t(k.first * 64 + k.second + 7));
		}
		for (auto& l : lives()) { h.word(uint64_t(uintptr_t(l.first))); h.word(uint64_t(l.second.moved)); }
		mc::world().key(h);
	}
	void finish() override
	{
		for (auto& x : s) if (x.h && !failed()) x.h.destroy();
		if (failed()) return;
		if (!lives().empty()) fail("%zu elements were never destroyed", lives().size());
		else if (mc::pools_live()) fail("%zu blocks were never given back to the allocator", mc::pools_live());
	}
};

// ---- arrays and vectors: only the allocator can throw -------------------------------------------------------------
template<class C, bool Array>
class SeqSys : public mc::System
{
public:
	using T = typename std::iterator_traits<typename C::iterator>::value_type;
	using Alloc = ThrowAlloc<T>;
	enum { COUNT = 1, FILL, LIST, RANGE, RESIZE, ASSIGN, WRITE, DROP, DEFAULT };
	std::vector<size_t> sizes;
	Obj<C> c;
	std::vector<unsigned> model;
	unsigned serial = 0;
	int thrown = 0;
	explicit SeqSys(std::vector<size_t> sizes) : sizes(std::move(sizes)) {}
	void start() override
	{
		plan() = Plan();
		mc::world().onReset = mc::reset_pools;
		mc::reset_pools();
		make_pools(2);
	}
	void ops(std::vector<Op>& o) const override
	{
		auto add = [&](int c, size_t n, int p) { Op q; q.c = int16_t(c); q.a = int16_t(n); q.b = int16_t(p); o.push_back(q); };
		for (int p = 0; p < 2; p++)
		{
			if (!c) for (size_t n : sizes) for (int k = COUNT; k <= RANGE; k++) { if (k != LIST || n <= 3) add(k, n, p); }
			else if (Array) for (size_t n : sizes) { add(RESIZE, n, p); add(ASSIGN, n, p); }
		}
		if (c) add(DROP, 0, 0);
		else add(DEFAULT, 0, 0);
	}
	std::string describe(const Op& o) const override
	{
		static const char* n[] = { "", "(%d elements)", "(%d elements of one value)", "({%d elements})", "(range of %d elements)", "resize(%d)", "assign(range of %d elements)", "", "destroy", "()" };
		char t[80];
		snprintf(t, sizeof t, n[o.c], int(o.a));
		return std::string(t) + (o.b ? " while the allocator throws" : "");
	}
	void apply(const Op& o, bool) override
	{
		if (o.c == DROP) { c.destroy(); model.clear(); return; }
		if (o.c == DEFAULT) { c.make_with([&](void* p) { return ::new (p) C(Alloc(PoolId{ 1 })); }); return; }
		size_t n = size_t(o.a);
		std::vector<unsigned> v;
		std::vector<T> raw;
		for (size_t i = 0; i < n; i++) { v.push_back(unsigned(i) + 1); raw.push_back(mk<T>(v.back())); }
		Alloc a(PoolId{ 1 });
		plan() = Plan();
		plan().kinds = ALLOCATIONS;
		plan().at = o.b;
		bool ok = true;
		try
		{
			if (o.c < RESIZE)
				c.make_with([&](void* p)
				{
					const T* f = raw.data();
					switch (o.c)
					{
					case COUNT: return ::new (p) C(n, a);
					case FILL: return ::new (p) C(n, mk<T>(7), a);
					case LIST: return n == 0 ? ::new (p) C(std::initializer_list<T>(), a) : n == 1 ? ::new (p) C({ f[0] }, a) : n == 2 ? ::new (p) C({ f[0], f[1] }, a) : ::new (p) C({ f[0], f[1], f[2] }, a);
					default: return ::new (p) C(f, f + n, a);
					}
				});
			else if constexpr (Array) { if (o.c == RESIZE) c->resize(n); else c->assign(raw.data(), raw.data() + n); }
		}
		catch (const Boom&) { ok = false; }
		int t = plan().thrown;
		plan() = Plan();
		if (failed()) return;
		if (ok == (t > 0)) { fail(ok ? "the exception did not reach the caller" : "an exception reached the caller although nothing threw"); return; }
		if (!ok) { thrown = 1; return; } // nothing has changed
		switch (o.c)
		{
		case COUNT: model.assign(n, ANY); break;
		case FILL: model.assign(n, 7); break;
		case RESIZE: model.resize(n, ANY); break;
		default: model = v;
		}
		for (size_t i = 0; i < n; i++) if (model[i] == ANY) { c->data()[i] = mk<T>(50 + unsigned(i)); model[i] = 50 + unsigned(i); }
	}
	void check() override { if (c) observe<T>(*c, model); }
	void key(Hash& h) override
	{
		h.word(uint64_t(thrown) * 2 + uint64_t(bool(c)));
		for (unsigned m : model) h.word(m);
		mc::world().key(h);
	}
	void finish() override
	{
		if (c && !failed()) c.destroy();
		if (!failed() && mc::pools_live()) fail("%zu blocks were never given back to the allocator", mc::pools_live());
	}
};

template<bool Mine, class T>
static void heaps(const char* name, size_t max, int points)
{
	if constexpr (Mine)
	{
		if (thorough()) { max++; points += 2; }
		mc::Bounds b;
		b.dfs = thorough() ? 4 : 3;
		b.depth = thorough() ? 16 : 12;
		b.maxStates = thorough() ? 400000 : 90000;
		mc::add(name, b, [=]() -> mc::System* { return new HeapSys<T, ThrowAlloc<T>>(max, points); });
	}
}
template<bool Mine, class C, bool Array>
static void sequence(const char* name)
{
	if constexpr (Mine)
	{
		mc::Bounds b;
		b.dfs = 3;
		b.depth = thorough() ? 12 : 8;
		b.maxStates = 30000;
		mc::add(name, b, [=]() -> mc::System* { return new SeqSys<C, Array>({ 0, 1, 2, 3, 7, size_t(thorough() ? 200 : 40) }); });
	}
}
template<class T> using V = ktl::trivial_vector<T, ThrowAlloc<T>>;
template<class T> using A = ktl::trivial_array<T, ThrowAlloc<T>>;

MC_SUITES
{
	heaps<MC_MINE, Live<true, true>>("binary_heap<copies and moves may throw>", 3, 4);
	heaps<MC_MINE, Live<true, false>>("binary_heap<copies may throw>", 3, 4);
	heaps<MC_MINE, Live<false, true>>("binary_heap<moves may throw>", 3, 4);
	sequence<MC_MINE, A<uint32_t>, true>("trivial_array<4 bytes>");
	sequence<MC_MINE, A<Packed19>, true>("trivial_array<19 bytes>");
	sequence<MC_MINE, V<uint32_t>, false>("trivial_vector<4 bytes>");
	sequence<MC_MINE, V<Packed19>, false>("trivial_vector<19 bytes>");
}
