// Two containers of one type under all histories of construction (also with one of two allocators), copying, moving,
// assignment, destruction and the operations that change size or contents.
#pragma once
#include "conts.h"
#include <algorithm>
#include <map>
#include <optional>

namespace conts
{
	enum Kind { VECTOR, ARRAY, HEAP };

	// ---- elements whose lifetime is recorded ----------------------------------------------------------------------
	struct Lives
	{
		std::map<const void*, bool> at; // address -> holds a value (false: moved from)
		void born(const void* p, bool full)
		{
			if (!at.emplace(p, full).second) fail("an element was constructed at %p on top of a live one", p);
		}
		void died(const void* p)
		{
			if (!at.erase(p)) fail("an element was destroyed at %p, where no element lives", p);
		}
		bool lives(const void* p, const char* how)
		{
			auto it = at.find(p);
			if (it == at.end()) { fail("an element was %s at %p, where no element lives", how, p); return false; }
			return it->second;
		}
		void full(const void* p, bool f) { auto it = at.find(p); if (it != at.end()) it->second = f; }
	};
	inline Lives& lives() { static Lives* l = new Lives(); return *l; }

	template<bool Copyable>
	struct Tracked
	{
		int key, tag;
		Tracked(int k, int t) : key(k), tag(t) { lives().born(this, true); }
		Tracked(Tracked&& o) noexcept { take(o, "moved from"); }
		Tracked(const Tracked& o) : key(0), tag(0)
		{
			static_assert(Copyable, "the element was copied although it is only movable");
			bool f = lives().lives(&o, "copied");
			lives().born(this, f);
			key = o.key; tag = o.tag;
		}
		Tracked& operator=(Tracked&& o) noexcept
		{
			lives().lives(this, "assigned");
			bool f = lives().lives(&o, "moved from");
			int k = o.key, t = o.tag;
			o.key = o.tag = -999;
			lives().full(&o, false);
			if (this == &o) return *this; // as a real class may do: the value is lost
			key = k; tag = t;
			lives().full(this, f);
			return *this;
		}
		Tracked& operator=(const Tracked& o)
		{
			static_assert(Copyable, "the element was copied although it is only movable");
			lives().lives(this, "assigned");
			bool f = lives().lives(&o, "copied");
			key = o.key; tag = o.tag;
			lives().full(this, f);
			return *this;
		}
		~Tracked() { lives().died(this); key = tag = -888; }
		bool operator==(const Tracked& o) const
		{
			lives().lives(this, "compared");
			lives().lives(&o, "compared");
			return key == o.key && tag == o.tag;
		}
	private:
		void take(Tracked& o, const char* how)
		{
			bool f = lives().lives(&o, how);
			lives().born(this, f);
			key = o.key; tag = o.tag;
			o.key = o.tag = -999;
			lives().full(&o, false);
		}
	};
	struct MoveOnly : Tracked<true>
	{
		using Tracked<true>::Tracked;
		MoveOnly(MoveOnly&&) noexcept = default;
		MoveOnly& operator=(MoveOnly&&) noexcept = default;
		MoveOnly(const MoveOnly&) = delete;
		MoveOnly& operator=(const MoveOnly&) = delete;
	};
	struct Plain
	{
		int key = 0, tag = 0;
		bool operator==(const Plain& o) const { return key == o.key && tag == o.tag; }
	};
	struct Boxed // owns memory of its own
	{
		std::unique_ptr<Plain> p;
		Boxed(int k, int t) : p(new Plain{ k, t }) {}
		bool operator==(const Boxed& o) const { return p && o.p && *p == *o.p; }
	};
	struct Named // copyable, owns memory
	{
		std::string s;
		Named(int k, int t) : s("a rather long name so that it lives outside of the object ") { put(k); put(t); }
		void put(int v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }
		int get(size_t fromEnd) const { int v; memcpy(&v, s.data() + s.size() - fromEnd, sizeof v); return v; }
		bool operator==(const Named& o) const { return s == o.s; }
	};

	// ---- access to elements ----------------------------------------------------------------------------------------
	// key: decides the order in heaps; tag: identifies the element
	inline int keyOf(const Plain& t) { return t.key; }
	inline int tagOf(const Plain& t) { return t.tag; }
	inline void retag(Plain& t, int v) { t.tag = v; }
	template<bool C> int keyOf(const Tracked<C>& t)
	{
		if (!lives().lives(&t, "read") && !failed()) fail("an element that was moved from was read");
		return t.key;
	}
	template<bool C> int tagOf(const Tracked<C>& t) { keyOf(t); return t.tag; }
	template<bool C> void retag(Tracked<C>& t, int v) { t.tag = v; }
	inline int keyOf(const Boxed& t) { if (!t.p) { fail("an element that was moved from was read"); return 0; } return t.p->key; }
	inline int tagOf(const Boxed& t) { if (!t.p) { fail("an element that was moved from was read"); return 0; } return t.p->tag; }
	inline void retag(Boxed& t, int v) { t.p->tag = v; }
	inline int keyOf(const Named& t) { if (t.s.size() < 8) { fail("an element that was moved from was read"); return 0; } return t.get(8); }
	inline int tagOf(const Named& t) { if (t.s.size() < 8) { fail("an element that was moved from was read"); return 0; } return t.get(4); }
	inline void retag(Named& t, int v) { t.s.resize(t.s.size() - 4); t.put(v); }

	// ---- orders ------------------------------------------------------------------------------------------------------
	struct Dir // stateful; unusable once it was moved from
	{
		int up = 0;
		explicit Dir(int u) : up(u) {}
		Dir(const Dir&) = default;
		Dir& operator=(const Dir&) = default;
		Dir(Dir&& o) noexcept : up(o.up) { o.up = -1; }
		Dir& operator=(Dir&& o) noexcept { int u = o.up; o.up = -1; up = u; return *this; }
		template<class T> bool operator()(const T& a, const T& b) const
		{
			if (up != 0 && up != 1) { fail("a comparator that was moved from was used"); return false; }
			return up ? keyOf(a) < keyOf(b) : keyOf(b) < keyOf(a);
		}
	};
	struct Dir0 // stateful, still usable after it was moved from
	{
		int up = 0;
		explicit Dir0(int u) : up(u) {}
		template<class T> bool operator()(const T& a, const T& b) const { return up ? keyOf(a) < keyOf(b) : keyOf(b) < keyOf(a); }
	};
	template<class T> using Fun = std::function<bool(const T&, const T&)>;
	template<class Comp, class T> struct Orders { static Comp make(int k) { return Comp(k); } };
	template<class T> struct Orders<Fun<T>, T>
	{
		static Fun<T> make(int k) { return [k](const T& a, const T& b) { return k ? keyOf(a) < keyOf(b) : keyOf(b) < keyOf(a); }; }
	};
	struct ByKey { template<class T> bool operator()(const T& a, const T& b) const { return keyOf(a) < keyOf(b); } };
	template<class T> struct Orders<ByKey, T> { static ByKey make(int) { return ByKey(); } };

	// An allocator without default constructor
	template<class T>
	struct NoDefault : TAlloc<T>
	{
		using value_type = T;
		template<class U> struct rebind { using other = NoDefault<U>; };
		explicit NoDefault(mc::PoolId p) noexcept : TAlloc<T>(p) {}
		template<class U> NoDefault(const NoDefault<U>& o) noexcept : TAlloc<T>(o) {}
	};

	template<class A> struct MakeAlloc
	{
		static A make(int i) { return A(mc::PoolId{ i }); }
	};
	template<class T, class A> struct MakeAlloc<ktl::type_allocator<T, A>>
	{
		static ktl::type_allocator<T, A> make(int) { return ktl::type_allocator<T, A>(); }
	};
	template<class T> struct MakeAlloc<std::allocator<T>> { static std::allocator<T> make(int) { return {}; } };

	enum : int { LIVES = 1, MEMORY = 2, VALUES = 4 };

	template<Kind K, class T, class A, class Comp, int CHECKS>
	class TwoSys : public mc::System
	{
	public:
		using C = std::conditional_t<K == VECTOR, ktl::trivial_vector<T, A>, std::conditional_t<K == ARRAY, ktl::trivial_array<T, A>, ktl::binary_heap<T, Comp, A>>>;
		static constexpr bool plain = K != HEAP;               // trivially copyable elements
		static constexpr bool copyable = std::is_copy_constructible_v<T>;
		static constexpr bool pooled = std::is_base_of_v<TAlloc<T>, A>;
		static constexpr bool defaultAlloc = std::is_default_constructible_v<A>;
		static constexpr bool choice = !std::is_same_v<Comp, ByKey>; // the comparator has a direction
		static constexpr int comps = choice && K == HEAP ? 2 : 1;
		enum { DEFAULT = 1, ALLOC, SIZED, LIST, COPY, MOVE, COPY_WITH, MOVE_WITH, DESTROY, COPY_ASSIGN, MOVE_ASSIGN,
			PUSH, PUSHMOVE, EMPLACE, ERASE, POP, CLEAR, RESIZE, RESERVE, ASSIGN, RANGE, SWAP };
		struct E { int key, tag; bool operator==(const E& o) const { return key == o.key && tag == o.tag; } bool operator<(const E& o) const { return key != o.key ? key < o.key : tag < o.tag; } };
		struct Slot { std::vector<E> m; unsigned pools = 0; unsigned order = 0; };
		static constexpr int UNSET = -5; // tag of an element whose value is unspecified
		Obj<C> c[2];
		Slot s[2];
		std::vector<A> allocs;
		size_t max, keys;
		TwoSys(size_t mx, size_t k) : max(mx), keys(k) {}
		void start() override
		{
			lives().at.clear();
			make_pools(2);
			for (int i = 0; i < 2; i++) allocs.push_back(MakeAlloc<A>::make(i));
		}
		static T mkT(int key, int tag)
		{
			if constexpr (plain) { if constexpr (std::is_same_v<T, Plain>) return Plain{ key, tag }; else return mk<T>(unsigned(tag)); }
			else if constexpr (std::is_same_v<T, Plain>) return Plain{ key, tag };
			else return T(key, tag);
		}
		static Op mkop(int op, int slot, size_t b = 0, size_t d = 0) { Op o; o.c = int16_t(op); o.a = int16_t(slot); o.b = int16_t(b); o.d = int16_t(d); return o; }
		void ops(std::vector<Op>& o) const override
		{
			for (int i = 0; i < 2; i++)
			{
				bool other = bool(c[1 - i]);
				if (!c[i])
				{
					if (i == 1 && !other) continue; // the two are interchangeable
					for (int a = 0; a < (pooled ? 2 : 1); a++)
						for (int k = 0; k < comps; k++)
						{
							size_t ak = size_t(a * 2 + k);
							o.push_back(mkop(ALLOC, i, 0, ak));
							for (size_t n : { size_t(0), size_t(2), max }) o.push_back(mkop(SIZED, i, n, ak));
							if (copyable) for (size_t n : { size_t(0), size_t(1), size_t(3) }) if (n <= max) o.push_back(mkop(LIST, i, n, ak));
							if (plain) for (size_t n : { size_t(0), size_t(2) }) o.push_back(mkop(RANGE, i, n, ak));
						}
					if (defaultAlloc) o.push_back(mkop(DEFAULT, i));
					if (other)
					{
						if (copyable) o.push_back(mkop(COPY, i));
						o.push_back(mkop(MOVE, i));
						for (size_t a = 0; a < (pooled ? 2 : 1); a++)
						{
							if (copyable) o.push_back(mkop(COPY_WITH, i, a));
							o.push_back(mkop(MOVE_WITH, i, a));
						}
					}
					continue;
				}
				size_t n = s[i].m.size();
				o.push_back(mkop(DESTROY, i));
				if (i == 0 && other) o.push_back(mkop(SWAP, i));
				if (copyable) o.push_back(mkop(COPY_ASSIGN, i, size_t(i)));
				if (other)
				{
					if (copyable) o.push_back(mkop(COPY_ASSIGN, i, size_t(1 - i)));
					o.push_back(mkop(MOVE_ASSIGN, i, size_t(1 - i)));
				}
				if constexpr (K == VECTOR)
				{
					if (n < max) { o.push_back(mkop(PUSH, i)); o.push_back(mkop(EMPLACE, i, n / 2)); }
					if (n) { o.push_back(mkop(POP, i)); o.push_back(mkop(ERASE, i, 0)); }
					o.push_back(mkop(CLEAR, i));
					for (size_t k : { size_t(0), size_t(1), max }) if (k != n) o.push_back(mkop(RESIZE, i, k));
					o.push_back(mkop(RESERVE, i, c[i]->capacity() + 1 <= max + 2 ? c[i]->capacity() + 1 : 0));
				}
				if constexpr (K == ARRAY)
				{
					for (size_t k = 0; k <= max; k++) if (k != n) o.push_back(mkop(RESIZE, i, k));
					for (size_t k = 0; k <= max; k += 2) o.push_back(mkop(ASSIGN, i, k));
				}
				if constexpr (K == HEAP)
				{
					if (n < max) for (size_t k = 0; k < keys; k++) { if (copyable) o.push_back(mkop(PUSH, i, k)); o.push_back(mkop(PUSHMOVE, i, k)); }
					if (n) o.push_back(mkop(POP, i));
					o.push_back(mkop(CLEAR, i));
					o.push_back(mkop(RESERVE, i, c[i]->capacity() + 1 <= max + 2 ? c[i]->capacity() + 1 : 0));
				}
			}
		}
		std::string describe(const Op& o) const override
		{
			std::string x(1, char('p' + o.a)), y(1, char('p' + 1 - o.a)), b = std::to_string(o.b);
			std::string al = "allocator " + std::to_string(o.d / 2) + (comps > 1 ? ", order " + std::to_string(o.d % 2) : std::string());
			switch (o.c)
			{
			case DEFAULT: return x + "()";
			case ALLOC: return x + "(" + al + ")";
			case SIZED: return x + "(" + (K == HEAP ? "capacity " : "size ") + b + ", " + al + ")";
			case LIST: return x + "({" + b + " values}, " + al + ")";
			case RANGE: return x + "(range of " + b + ", " + al + ")";
			case COPY: return x + "(" + y + ")";
			case MOVE: return x + "(move(" + y + "))";
			case COPY_WITH: return x + "(" + y + ", allocator " + b + ")";
			case MOVE_WITH: return x + "(move(" + y + "), allocator " + b + ")";
			case DESTROY: return "destroy " + x;
			case COPY_ASSIGN: return x + " = " + std::string(1, char('p' + o.b));
			case MOVE_ASSIGN: return x + " = move(" + std::string(1, char('p' + o.b)) + ")";
			case PUSH: return x + (K == HEAP ? ".insert(const key " + b + ")" : std::string(".push_back()"));
			case PUSHMOVE: return x + ".insert(move(key " + b + "))";
			case EMPLACE: return x + ".emplace(at " + b + ")";
			case ERASE: return x + ".erase(at " + b + ")";
			case POP: return x + (K == HEAP ? ".pop()" : ".pop_back()");
			case CLEAR: return x + ".clear()";
			case RESIZE: return x + ".resize(" + b + ")";
			case RESERVE: return x + ".reserve(" + b + ")";
			case SWAP: return "swap(" + x + ", " + y + ")";
			default: return x + ".assign(" + b + " values)";
			}
		}
		static constexpr int NEW = 60;
		std::vector<E> fresh(size_t n) const { std::vector<E> v; for (size_t i = 0; i < n; i++) v.push_back(E{ int((i * 2 + 1) % keys), NEW + int(i) }); return v; }
		unsigned poolOf(const void* p) const
		{
			for (int i = 0; i < 2; i++) if (mc::world().pools[i].contains(p)) return 1u << i;
			return 0;
		}
		void apply(const Op& o, bool) override
		{
			int i = o.a, j = 1 - i;
			size_t b = size_t(o.b);
			int ai = o.d / 2, ck = o.d % 2;
			const A& alloc = allocs[size_t(ai)];
			uint64_t allocsBefore[2];
			for (int k = 0; k < 2; k++) allocsBefore[k] = mc::pools().p[k].allocs;
			unsigned takes = 0; // pools the operation may take memory from
			Slot& x = s[i];
			Slot& y = s[j];
			switch (o.c)
			{
			case DEFAULT:
				if constexpr (defaultAlloc)
				{
					if constexpr (K == HEAP) { c[i].make(Orders<Comp, T>::make(0)); }
					else c[i].make();
				}
				x = Slot{ {}, pooled ? 1u : 0u, 1 };
				break;
			case ALLOC:
				if constexpr (K == HEAP) c[i].make(alloc, Orders<Comp, T>::make(ck)); else c[i].make(alloc);
				x = Slot{ {}, 1u << ai, 1u << ck };
				break;
			case SIZED:
				if constexpr (K == HEAP) { c[i].make(b, alloc, Orders<Comp, T>::make(ck)); x = Slot{ {}, 1u << ai, 1u << ck }; }
				else { c[i].make(b, alloc); x = Slot{ std::vector<E>(b, E{ 0, UNSET }), 1u << ai, 1 }; }
				break;
			case LIST:
				if constexpr (copyable)
				{
					std::vector<E> f = fresh(b);
					auto put = [&](std::initializer_list<T> l) { if constexpr (K == HEAP) c[i].make(l, alloc, Orders<Comp, T>::make(ck)); else c[i].make(l, alloc); };
					if (b == 0) put({});
					else if (b == 1) put({ mkT(f[0].key, f[0].tag) });
					else put({ mkT(f[0].key, f[0].tag), mkT(f[1].key, f[1].tag), mkT(f[2].key, f[2].tag) });
					x = Slot{ f, 1u << ai, 1u << ck };
				}
				break;
			case RANGE:
				if constexpr (plain)
				{
					std::vector<E> f = fresh(b);
					std::vector<T> v;
					for (auto& e : f) v.push_back(mkT(e.key, e.tag));
					v.push_back(mkT(0, 0));
					const T* p = v.data();
					c[i].make(p, p + b, alloc);
					x = Slot{ f, 1u << ai, 1 };
				}
				break;
			case COPY: if constexpr (copyable) { const C& src = *c[j]; c[i].make(src); x = y; } break;
			case MOVE: c[i].make(std::move(*c[j])); x = y; y.m.clear(); if (comps == 2) y.order = 3; break;
			case COPY_WITH: if constexpr (copyable) { const C& src = *c[j]; c[i].make(src, allocs[b]); x = y; x.pools = 1u << b; } break;
			case MOVE_WITH: c[i].make(std::move(*c[j]), allocs[b]); x = y; x.pools = 1u << b; y.m.clear(); if (comps == 2) y.order = 3; break;
			case DESTROY: x = Slot(); c[i].destroy(); break;
			case COPY_ASSIGN:
				if constexpr (copyable)
				{
					C& dst = *c[i];
					const C& src = *c[b];
					if (&(dst = src) != &dst) fail("assignment does not return the destination");
					if (int(b) != i) { unsigned p = x.pools | y.pools; x = y; x.pools = p; }
				}
				break;
			case MOVE_ASSIGN:
			{
				C& dst = *c[i];
				if (&(dst = std::move(*c[j])) != &dst) fail("assignment does not return the destination");
				unsigned p = x.pools | y.pools;
				unsigned q = x.order | y.order;
				x = y; x.pools = p; y.pools = p;
				y.m.clear();
				if (comps == 2) y.order = q;
				break;
			}
			case SWAP:
			{
				std::swap(*c[i], *c[j]);
				std::swap(x, y);
				x.pools |= y.pools; y.pools |= x.pools;
				break;
			}
			case PUSH: case PUSHMOVE:
				if constexpr (K == HEAP)
				{
					E e{ int(b), NEW };
					{
						T v = mkT(e.key, e.tag);
						T* it = nullptr;
						if (o.c == PUSH) { if constexpr (copyable) { const T& cv = v; it = c[i]->insert(cv); } }
						else it = c[i]->insert(std::move(v));
						if (!failed())
						{
							if (it < c[i]->begin() || it >= c[i]->end()) fail("insert() returned an iterator outside of the heap");
							else if (keyOf(*it) != e.key || tagOf(*it) != e.tag) fail("insert() returned an iterator to another element");
						}
					}
					x.m.push_back(e);
				}
				else if constexpr (K == VECTOR) { T v = mkT(0, NEW); c[i]->push_back(v); x.m.push_back(E{ 0, NEW }); }
				break;
			case EMPLACE: if constexpr (K == VECTOR) { T v = mkT(0, NEW); c[i]->emplace(c[i]->begin() + b, v); x.m.insert(x.m.begin() + long(b), E{ 0, NEW }); } break;
			case ERASE: if constexpr (K == VECTOR) { c[i]->erase(c[i]->begin() + b); x.m.erase(x.m.begin() + long(b)); } break;
			case POP:
				if constexpr (K == VECTOR) { c[i]->pop_back(); x.m.pop_back(); }
				if constexpr (K == HEAP)
				{
					E want{ keyOf(c[i]->peek()), tagOf(c[i]->peek()) };
					T got = c[i]->pop();
					E g{ keyOf(got), tagOf(got) };
					if (failed()) return;
					if (!(g == want)) { fail("pop() handed out key %d, tag %d although peek() showed key %d, tag %d", g.key, g.tag, want.key, want.tag); return; }
					auto it = std::find(x.m.begin(), x.m.end(), g);
					if (it == x.m.end()) { fail("pop() handed out an element that was not in the heap"); return; }
					x.m.erase(it);
					ordered(x, g.key, "pop()");
				}
				break;
			case CLEAR: if constexpr (K != ARRAY) { c[i]->clear(); x.m.clear(); } break;
			case RESIZE: if constexpr (K != HEAP) { c[i]->resize(b); x.m.resize(b, E{ 0, UNSET }); } break;
			case RESERVE: if constexpr (K != ARRAY) c[i]->reserve(b); break;
			case ASSIGN:
				if constexpr (K == ARRAY)
				{
					std::vector<E> f = fresh(b);
					std::vector<T> v;
					for (auto& e : f) v.push_back(mkT(e.key, e.tag));
					v.push_back(mkT(0, 0));
					const T* p = v.data();
					c[i]->assign(p, p + b);
					x.m = f;
				}
				break;
			}
			if (failed()) return;
			takes = x.pools | ((o.c == COPY_ASSIGN || o.c == MOVE_ASSIGN || o.c == MOVE || o.c == COPY || o.c == SWAP) ? s[j].pools : 0u);
			if constexpr (pooled && (CHECKS & MEMORY) != 0)
			{
				for (int k = 0; k < 2; k++)
					if (mc::pools().p[k].allocs != allocsBefore[k] && !(takes >> k & 1)) { fail("the operation took memory from allocator %d, which the container does not use", k); return; }
				for (int k = 0; k < 2; k++)
				{
					if (!c[k]) continue;
					const void* d = c[k]->data();
					if (!d) continue;
					unsigned p = poolOf(d);
					if (!p) { if (c[k]->size()) fail("the elements of %c are not in memory of an allocator", 'p' + k); continue; }
					if (!(s[k].pools & p)) { fail("%c holds memory of an allocator that it was not given", 'p' + k); return; }
					s[k].pools = p;
				}
				size_t held = 0, blocks = 0;
				for (int k = 0; k < 2; k++) { held += bool(c[k]) ? 1 : 0; blocks += mc::world().pools[k].blocks.size(); }
				if (blocks > held) { fail("%zu blocks are held although only %zu containers exist", blocks, held); return; }
				for (int k = 0; k < 2; k++)
				{
					bool users = false;
					for (int q = 0; q < 2; q++) users = users || (c[q] && (s[q].pools >> k & 1));
					if (!users && mc::world().pools[k].blocks.size()) { fail("%zu blocks of allocator %d are still held although no container uses it", mc::world().pools[k].blocks.size(), k); return; }
				}
			}
			look();
			if (failed()) return;
			// give every element a name of its own: what is written to one container must not show in the other
			for (int k = 0; k < 2; k++)
				if (c[k])
				{
					std::vector<E> now;
					for (size_t n = 0; n < c[k]->size(); n++)
					{
						int tag = k * 25 + int(n);
						int key = 0;
						T& t = c[k]->begin()[n];
						if constexpr (plain) t = mkT(0, tag); else { key = keyOf(t); retag(t, tag); }
						now.push_back(E{ key, tag });
					}
					s[k].m = now;
				}
			look();
		}
		void ordered(Slot& x, int top, const char* how)
		{
			if constexpr (K == HEAP)
			{
				unsigned ok = 0;
				for (int k = 0; k < 2; k++)
				{
					bool up = !choice || k == 1, best = true;
					for (auto& e : x.m) if (up ? e.key < top : top < e.key) best = false;
					if (best) ok |= 1u << k;
				}
				x.order &= ok;
				if (!x.order) fail("%s yields key %d, which is not the first in the order the heap was given", how, top);
			}
		}
		void look()
		{
			size_t total = 0;
			for (int k = 0; k < 2 && !failed(); k++)
			{
				if (!c[k]) continue;
				C& v = *c[k];
				const C& cv = v;
				Slot& x = s[k];
				size_t n = x.m.size();
				total += n;
				if (cv.size() != n) { fail("%c has %zu elements instead of %zu", 'p' + k, size_t(cv.size()), n); return; }
				if constexpr (K != ARRAY)
				{
					if (cv.capacity() < n) { fail("%c has capacity %zu with %zu elements", 'p' + k, size_t(cv.capacity()), n); return; }
				}
				if (cv.empty() != (n == 0)) { fail("%c.empty() is wrong", 'p' + k); return; }
				if (size_t(cv.end() - cv.begin()) != n) { fail("%c: end() - begin() is wrong", 'p' + k); return; }
				if constexpr (plain)
				{
					for (size_t q = 0; q < n; q++)
						if (x.m[q].tag != UNSET && (CHECKS & VALUES) != 0 && !(memcmp(&cv.begin()[q], &(const T&)mkT(0, x.m[q].tag), sizeof(T)) == 0)) { fail("element %zu of %c is wrong", q, 'p' + k); return; }
				}
				else
				{
					std::vector<E> have, want = x.m;
					for (size_t q = 0; q < n; q++)
					{
						const T& t = cv.begin()[q];
						have.push_back(E{ keyOf(t), tagOf(t) });
						if (failed()) return;
					}
					std::sort(have.begin(), have.end());
					std::sort(want.begin(), want.end());
					if (!(have == want)) { fail("%c holds other elements than it should", 'p' + k); return; }
					if (n) ordered(x, keyOf(v.peek()), "peek()");
				}
			}
			if constexpr ((CHECKS & LIVES) != 0 && (std::is_same_v<T, Tracked<true>> || std::is_same_v<T, MoveOnly>))
			{
				if (failed()) return;
				if (lives().at.size() != total) { fail("%zu elements are alive although the heaps hold %zu", lives().at.size(), total); return; }
				for (int k = 0; k < 2; k++)
					if (c[k])
						for (size_t q = 0; q < c[k]->size(); q++)
							if (!lives().lives(c[k]->begin() + q, "expected")) { fail("element %zu of %c was moved from", q, 'p' + k); return; }
			}
		}
		void key(Hash& h) override
		{
			for (int k = 0; k < 2; k++)
			{
				h.word(bool(c[k]));
				if (!c[k]) continue;
				h.word(s[k].pools);
				h.word(s[k].order);
				h.word(c[k]->size());
				if constexpr (K == HEAP) for (size_t n = 0; n < c[k]->size(); n++) h.word(uint64_t(keyOf(c[k]->begin()[n])));
				// the object itself, with pointers to its memory replaced by the allocator that memory belongs to
				const char* raw = reinterpret_cast<const char*>(c[k].get());
				for (size_t n = 0; n + 8 <= sizeof(C); n += 8)
				{
					uint64_t w;
					memcpy(&w, raw + n, 8);
					bool ptr = mc::world().poolSpace.contains(reinterpret_cast<void*>(w)) || mc::world().is_sys(reinterpret_cast<void*>(w));
					// memory of std::allocator is not part of the world: its addresses differ from run to run
					uint64_t first = 0, bytes = 0;
					if constexpr (std::is_same_v<A, std::allocator<T>>)
					{
						first = uint64_t(uintptr_t(&*c[k]->begin()));
						if constexpr (K == ARRAY) bytes = c[k]->size() * sizeof(T); else bytes = c[k]->capacity() * sizeof(T);
					}
					bool own = first && w >= first && w <= first + bytes;
					h.word(ptr ? 1000 + poolOf(reinterpret_cast<void*>(w)) : own ? 2000 + (w - first) : w);
				}
			}
		}
		void finish() override
		{
			for (int k = 0; k < 2 && !failed(); k++)
				if (c[k])
				{
					if constexpr (K == HEAP && (CHECKS & (VALUES | LIVES)) != 0)
						while (!s[k].m.empty() && !failed()) apply(mkop(POP, k), false);
					if (failed()) return;
					c[k].destroy();
					s[k] = Slot();
				}
			if (failed()) return;
			allocs.clear();
			if ((CHECKS & LIVES) && lives().at.size()) fail("%zu elements were never destroyed", lives().at.size());
			if (CHECKS & MEMORY)
			{
				if (mc::pools_live()) fail("%zu blocks were never given back", mc::pools_live());
				else if (mc::world().sys_live()) fail("%zu system blocks were never given back", mc::world().sys_live());
			}
		}
	};
}
