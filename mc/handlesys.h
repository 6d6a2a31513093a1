// Several handles (shared, reference, stack, typed, ...) that are created, copied, moved, assigned, used, destroyed.
#pragma once
#include "allocsys.h"

namespace mc
{
	enum : int { LIFETIME = 1, EQUALITY = 2 };

	// Spec:  type, slots, fixed (number of persistent targets; 0: every creation makes a new group),
	//        create(mem, target), moveCopies (moving copies), core(handle) -> pool id behind it or -1,
	//        separate (different groups must be unequal once used), size
	template<class Spec, int CHECKS>
	class HandleSys : public System
	{
	public:
		using H = typename Spec::type;
		enum { CREATE = 1, COPY, COPY_MUT, MOVE, COPY_ASSIGN, MOVE_ASSIGN, DESTROY, ALLOC, FREE, REBIND, REBIND_MOVE };
		static constexpr int NONE = -1, NIL = -2;      // no handle, moved-from handle
		struct Block { char* p; size_t n; int group; };
		Obj<H> h[4];
		int group[4];
		std::vector<int> poolOf;      // group -> pool behind it
		std::vector<bool> handed;     // group -> has handed out memory
		std::vector<Block> live;
		std::unique_ptr<typename Spec::Env> env;
		static constexpr int slots = Spec::slots;
		int count(int g) const { int n = 0; for (int i = 0; i < slots; i++) n += group[i] == g; return n; }
		int groups() const
		{
			int n = 0;
			for (int i = 0; i < slots; i++)
			{
				if (group[i] < 0) continue;
				bool first = true;
				for (int k = 0; k < i; k++) first = first && group[k] != group[i];
				n += first;
			}
			return n;
		}
		int liveIn(int g) const { int n = 0; for (auto& b : live) n += b.group == g; return n; }

		void start() override
		{
			world().onReset = reset_pools;
			pools().strict = true;
			for (int& g : group) g = NONE;
			env = std::make_unique<typename Spec::Env>();
			if (Spec::fixed) { poolOf.resize(size_t(Spec::fixed), -1); handed.resize(size_t(Spec::fixed), false); }
		}
		~HandleSys() { if (failed()) env.release(); }
		void ops(std::vector<Op>& o) const override
		{
			auto add = [&](int c, int a, int b = 0) { Op q; q.c = int16_t(c); q.a = int16_t(a); q.b = int16_t(b); o.push_back(q); };
			bool free = false;
			for (int i = 0; i < slots; i++)
			{
				if (group[i] == NONE)
				{
					if (free) continue; // empty slots are interchangeable
					free = true;
					for (int t = 0; t < (Spec::fixed ? Spec::fixed : 1); t++) add(CREATE, i, t);
					for (int s = 0; s < slots; s++)
						if (group[s] != NONE)
						{
							add(COPY, s, i);
							add(COPY_MUT, s, i);
							add(MOVE, s, i);
							if constexpr (Spec::rebinds) { add(REBIND, s, i); add(REBIND_MOVE, s, i); }
						}
					continue;
				}
				add(DESTROY, i);
				for (int s = 0; s < slots; s++)
				{
					if (group[s] == NONE) continue;
					add(COPY_ASSIGN, s, i);
					if (s != i) add(MOVE_ASSIGN, s, i);
				}
				if (group[i] >= 0)
				{
					if (liveIn(group[i]) < 1 && live.size() < 2) add(ALLOC, i);
					for (size_t b = 0; b < live.size(); b++) if (live[b].group == group[i]) add(FREE, i, int(b));
				}
			}
		}
		std::string describe(const Op& o) const override
		{
			auto nm = [](int s) { return std::string(1, char('p' + s)); };
			switch (o.c)
			{
			case CREATE: return "new " + nm(o.a) + (Spec::fixed ? " for target " + std::to_string(o.b) : "");
			case COPY: return nm(o.b) + "(" + nm(o.a) + ") [const]";
			case COPY_MUT: return nm(o.b) + "(" + nm(o.a) + ")";
			case MOVE: return nm(o.b) + "(move(" + nm(o.a) + "))";
			case COPY_ASSIGN: return nm(o.b) + " = " + nm(o.a);
			case MOVE_ASSIGN: return nm(o.b) + " = move(" + nm(o.a) + ")";
			case DESTROY: return "destroy " + nm(o.a);
			case ALLOC: return nm(o.a) + ".allocate(" + std::to_string(Spec::size) + ")";
			case FREE: return nm(o.a) + ".deallocate(block #" + std::to_string(o.b) + ")";
			case REBIND: return nm(o.b) + "(another type(" + nm(o.a) + "))";
			default: return nm(o.b) + "(move(another type(" + nm(o.a) + ")))";
			}
		}
		// A handle left its group: does the group end?
		void left(int g)
		{
			if (g < 0 || Spec::fixed || count(g)) return;
			for (size_t i = live.size(); i-- > 0;) if (live[i].group == g) live.erase(live.begin() + long(i));
		}
		void movedFrom(int s) { if (!Spec::moveCopies) group[s] = NIL; }
		void apply(const Op& o, bool) override
		{
			int s = o.a, d = o.b;
			switch (o.c)
			{
			case CREATE:
				h[s].make_with([&](void* m) { return Spec::create(m, *env, d); });
				if (Spec::fixed) { group[s] = d; break; }
				group[s] = int(poolOf.size());
				poolOf.push_back(Spec::core(*h[s]));
				handed.push_back(false);
				break;
			case COPY: { const H& src = *h[s]; h[d].make(src); group[d] = group[s]; break; }
			case COPY_MUT: { H& src = *h[s]; h[d].make(src); group[d] = group[s]; break; }
			case MOVE: { H& src = *h[s]; h[d].make(std::move(src)); group[d] = group[s]; movedFrom(s); break; }
			case COPY_ASSIGN:
			{
				int old = group[d];
				H& dst = *h[d];
				const H& src = *h[s];
				if (&(dst = src) != &dst) fail("assignment does not return the destination");
				group[d] = group[s];
				left(old);
				break;
			}
			case MOVE_ASSIGN:
			{
				int old = group[d];
				H& dst = *h[d];
				if (&(dst = std::move(*h[s])) != &dst) fail("assignment does not return the destination");
				group[d] = group[s];
				movedFrom(s);
				left(old);
				break;
			}
			case DESTROY:
			{
				int old = group[s];
				group[s] = NONE;
				h[s].destroy();
				left(old);
				break;
			}
			case ALLOC:
			{
				int g = group[s];
				char* p = reinterpret_cast<char*>(h[s]->allocate(Spec::size));
				if (!p) { fail("allocate(%zu) failed", size_t(Spec::size)); break; }
				size_t n = Spec::size * Spec::unit;
				if (!world().covers(p, n)) { fail("allocate() returned %p, which is not memory of that size", (void*)p); break; }
				if (poolOf[size_t(g)] >= 0 && !pools().p[poolOf[size_t(g)]].area->contains(p)) { fail("the allocation was not served by part %d, to which the handles belong", poolOf[size_t(g)]); break; }
				for (auto& b : live) if (b.p < p + n && p < b.p + b.n) fail("the live block %p was handed out again", (void*)b.p);
				for (size_t i = 0; i < n; i++) p[i] = char(pat(p, n, i));
				handed[size_t(g)] = true;
				live.push_back(Block{ p, n, g });
				break;
			}
			case FREE:
			{
				Block b = live[size_t(d)];
				live.erase(live.begin() + d);
				memset(b.p, 0, b.n);
				h[s]->deallocate(reinterpret_cast<decltype(h[s]->allocate(1))>(b.p), Spec::size);
				break;
			}
			case REBIND:
			case REBIND_MOVE:
				if constexpr (Spec::rebinds)
				{
					{
						using R = typename Spec::rebound;
						Obj<R> r;
						if (o.c == REBIND) r.make(*static_cast<const H*>(h[s].get()));
						else r.make(std::move(*h[s])); // moving a typed allocator copies it
						if constexpr ((CHECKS & EQUALITY) != 0)
							if (group[s] >= 0) { same(*h[s], *r, "a rebound copy"); }
						Obj<R> r2;
						if (o.c == REBIND) { r2.make(*r); h[d].make(*static_cast<const R*>(r2.get())); }
						else { r2.make(std::move(*r)); h[d].make(std::move(*r2)); }
						if constexpr ((CHECKS & EQUALITY) != 0)
							if (group[s] >= 0) { same(*r2, *r, "the source of a copy"); same(*h[d], *r2, "the source of a rebound copy"); }
						r2.destroy();
						r.destroy();
					}
					group[d] = group[s];
				}
				break;
			}
		}
		template<class X, class Y>
		void same(const X& x, const Y& y, const char* what)
		{
			if (failed()) return;
			if (!(x == y)) { fail("%s does not compare equal", what); return; }
			if (!(y == x)) { fail("equality with %s is not symmetric", what); return; }
			if (x != y || y != x) fail("'not equal' is not the negation of 'equal' for %s", what);
		}
		void check() override
		{
			for (auto& b : live)
				for (size_t i = 0; i < b.n; i++)
					if (!world().covers(b.p, b.n) || static_cast<unsigned char>(b.p[i]) != pat(b.p, b.n, i)) { fail("the live block %p was lost or changed", (void*)b.p); return; }
			if constexpr ((CHECKS & LIFETIME) != 0)
			{
				int want = groups() * Spec::instances;
				if (pools().instancesLive != want)
				{
					fail(pools().instancesLive > want ? "%d underlying allocators exist although only %d have handles" : "only %d underlying allocators exist although %d have handles", pools().instancesLive, want);
					return;
				}
				for (int i = 0; i < slots; i++)
				{
					if (group[i] < 0) continue;
					int id = Spec::core(*h[i]);
					if (id != poolOf[size_t(group[i])]) { fail("handle %c reaches part %d, but its group belongs to part %d", 'p' + i, id, poolOf[size_t(group[i])]); return; }
					for (int k = 0; k < i; k++)
						if (group[k] == group[i] && Spec::address(*h[i]) != Spec::address(*h[k])) { fail("the handles %c and %c of one group reach different allocators", 'p' + i, 'p' + k); return; }
				}
				if (groups() == 0 && world().sys_live()) { fail("%zu system blocks remain although no handle exists", world().sys_live()); return; }
			}
			if constexpr ((CHECKS & EQUALITY) != 0)
				for (int i = 0; i < slots; i++)
				{
					if (group[i] == NONE) continue;
					for (int k = 0; k <= i; k++)
					{
						if (group[k] == NONE) continue;
						const H& x = *h[i];
						const H& y = *h[k];
						bool eq = x == y, eq2 = y == x, ne = x != y, ne2 = y != x;
						if (eq != eq2 || ne != ne2) { fail("equality of %c and %c is not symmetric", 'p' + i, 'p' + k); return; }
						if (eq == ne) { fail("'not equal' is not the negation of 'equal' for %c and %c", 'p' + i, 'p' + k); return; }
						bool must = i == k || (group[i] == group[k] && group[i] >= 0);
						if (must && !eq) { fail("%c and %c are handles of the same allocator but compare unequal", 'p' + i, 'p' + k); return; }
						if (must || !eq) continue;
						if (group[i] == NIL && group[k] == NIL) continue;
						if (group[i] == NIL || group[k] == NIL)
						{
							if (Spec::nilDistinct) { fail("a moved-from handle and a handle of an allocator compare equal (%c and %c)", 'p' + i, 'p' + k); return; }
							continue;
						}
						if (Spec::separate && (handed[size_t(group[i])] || handed[size_t(group[k])])) { fail("%c and %c are handles of separate allocators but compare equal", 'p' + i, 'p' + k); return; }
					}
				}
		}
		void key(Hash& hs) override
		{
			for (int i = 0; i < slots; i++)
			{
				hs.word(uint64_t(uintptr_t(h[i].get())));
				hs.word(uint64_t(int64_t(group[i])));
				// groups are numbered by first occurrence
				int g = group[i];
				if (g >= 0) { int f = 0; while (group[f] != g) f++; hs.word(uint64_t(f)); hs.word(handed[size_t(g)]); hs.word(uint64_t(poolOf[size_t(g)])); }
			}
			for (auto& b : live) { hs.word(uint64_t(uintptr_t(b.p))); hs.word(uint64_t(b.group)); }
			world().key(hs);
			env->key(hs);
		}
		void finish() override
		{
			for (int i = 0; i < slots && !failed(); i++)
				if (h[i])
				{
					int old = group[i];
					if (old >= 0 && count(old) == 1)
						for (size_t b = live.size(); b-- > 0;)
							if (live[b].group == old) { Op o; o.c = FREE; o.a = int16_t(i); o.b = int16_t(b); apply(o, false); }
					group[i] = NONE;
					h[i].destroy();
					left(old);
					if ((CHECKS & LIFETIME) && pools().instancesLive != groups() * Spec::instances) fail("%d underlying allocators exist although %d have handles", pools().instancesLive, groups() * Spec::instances);
				}
			// Blocks of persistent targets outlive their handles: give them back through new ones
			while (!live.empty() && !failed())
			{
				group[0] = live.back().group;
				h[0].make_with([&](void* m) { return Spec::create(m, *env, group[0]); });
				Op o; o.c = FREE; o.a = 0; o.b = int16_t(live.size() - 1);
				apply(o, false);
				group[0] = NONE;
				if (!failed()) h[0].destroy();
			}
			if (failed()) return;
			env.reset();
			if (world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
			if (pools().instancesLive) fail("%d underlying allocators were never destroyed", pools().instancesLive);
		}
	};

	struct NoEnv { void key(Hash&) {} };
	struct SharedSpec
	{
		static constexpr int slots = 3, fixed = 0, instances = 1;
		static constexpr bool moveCopies = false, separate = true, nilDistinct = true, rebinds = false;
		static constexpr size_t size = 16, unit = 1;
		using Env = NoEnv;
	};
	template<class Alloc, int Instances = 1>
	struct SharedOf : SharedSpec
	{
		using type = Alloc;
		static constexpr int instances = Instances;
		static type* create(void* m, Env&, int) { pools().instBytes = 64; pools().instBlocks = 3; pools().instMax = 64; return ::new (m) type(); }
		template<class X> static auto inner(X& x, int) -> decltype(x.get_allocator().get_allocator().id()) { return x.get_allocator().get_allocator().id(); }
		template<class X> static auto inner(X& x, long) -> decltype(x.get_allocator().id()) { return x.get_allocator().id(); }
		static int core(type& t) { return inner(t, 0); }
		static const void* address(type& t) { return &t.get_allocator(); }
	};
	template<class T, class Other, class Alloc>
	struct TypedOf : SharedSpec
	{
		using type = ktl::type_allocator<T, Alloc>;
		using rebound = ktl::type_allocator<Other, Alloc>;
		static constexpr bool moveCopies = true, rebinds = true;
		static constexpr size_t size = 2, unit = sizeof(T);
		static type* create(void* m, Env&, int) { pools().instBytes = 64; pools().instBlocks = 3; pools().instMax = 64; return ::new (m) type(); }
		static int core(type& t) { return SharedOf<Alloc>::inner(t.get_allocator(), 0); }
		static const void* address(type& t) { return &t.get_allocator().get_allocator(); }
	};
}
