// Two or three allocators that hold memory of instrumented parts, with moves, assignments and destruction.
#pragma once
#include "allocsys.h"

namespace mc
{
	enum : int { CASCADE = 1, FREELIST = 2, MOVES = 4, EQUAL = 8, REFUSES = 16 };

	struct HoldParams
	{
		std::vector<size_t> sizes;
		size_t maxLive = 3;
		bool dropLive = false;    // an allocator may be destroyed or assigned over while blocks are live
	};

	// Spec: type, slots, setup(), make(mem, slot), min/max window (free lists), instMax (cascades)
	template<class Spec, int CHECKS>
	class HoldSys : public System
	{
	public:
		using A = typename Spec::type;
		enum { ALLOC = 1, FREE = 2, MOVE_ASSIGN = 3, MOVE_CONSTRUCT = 4, RENEW = 5, SWAP = 6 };
		struct B { char* p; size_t n; int slot; unsigned age = 0; };
		HoldParams prm;
		Obj<A> a[3];
		std::vector<B> live;
		size_t peak[3] = { 0, 0, 0 };
		bool handed[3] = { false, false, false };   // has this allocator handed out memory it did not move away?
		explicit HoldSys(const HoldParams& p) : prm(p) {}
		static constexpr int slots = Spec::slots;

		void start() override
		{
			pools().strict = true;
			world().onReset = reset_pools;
			world().held = [this](const char* p, size_t n)
			{
				for (auto& b : live) if (b.n && b.p < p + n && p < b.p + b.n) return true;
				return false;
			};
			Spec::setup();
			for (int i = 0; i < slots; i++) make(i);
		}
		void make(int i)
		{
			pools().actor = i;
			a[i].make_with([i](void* m) { return Spec::make(m, i); });
			adopt(i);
		}
		// New underlying instances belong to the slot that was acting
		void adopt(int slot)
		{
			for (int i = 0; i < pools().used; i++)
			{
				Pool& p = pools().p[i];
				if (p.inUse && !p.destroyed && p.user < 0) p.user = slot;
			}
		}
		size_t liveOf(int slot) const { size_t n = 0; for (auto& b : live) n += b.slot == slot; return n; }
		bool mayDrop(int slot) const
		{
#ifdef KTL_DEBUG_ASSERT
			return liveOf(slot) == 0; // it is asserted that nothing was forgotten
#else
			return prm.dropLive || liveOf(slot) == 0;
#endif
		}
		size_t heldBy(int slot) const
		{
			size_t n = 0;
			for (int i = 0; i < pools().used; i++)
				if (pools().p[i].area && !pools().p[i].destroyed)
					for (auto& b : pools().p[i].area->blocks) n += b.tag == slot;
			return n;
		}
		size_t instancesOf(int slot) const
		{
			size_t n = 0;
			for (int i = 0; i < pools().used; i++) n += pools().p[i].inUse && !pools().p[i].destroyed && pools().p[i].user == slot;
			return n;
		}
		void retag(int from, int to)
		{
			for (int i = 0; i < pools().used; i++)
			{
				Pool& p = pools().p[i];
				if (!p.inUse || p.destroyed) continue;
				for (auto& b : p.area->blocks) if (b.tag == from) b.tag = to;
				if ((CHECKS & CASCADE) && p.user == from) p.user = to;
			}
			for (auto& b : live) if (b.slot == from) b.slot = to;
		}
		void ops(std::vector<Op>& o) const override
		{
			Op q;
			for (int s = 0; s < slots; s++)
			{
				if (live.size() < prm.maxLive)
					for (size_t i = 0; i < prm.sizes.size(); i++)
						for (int r = 0; r < ((CHECKS & REFUSES) ? 4 : 1); r++) { q = Op(); q.c = ALLOC; q.a = int16_t(s); q.b = int16_t(i); q.d = int16_t(r); o.push_back(q); }
			}
			for (size_t i = 0; i < live.size(); i++) { q = Op(); q.c = FREE; q.a = int16_t(i); o.push_back(q); }
			if constexpr (CHECKS & MOVES)
				for (int s = 0; s < slots; s++)
					for (int t = s + 1; t < slots; t++) { q = Op(); q.c = SWAP; q.a = int16_t(s); q.b = int16_t(t); o.push_back(q); }
			for (int s = 0; s < slots; s++)
			{
				bool drop = mayDrop(s);
				if (!drop) continue;
				q = Op(); q.c = RENEW; q.a = int16_t(s); o.push_back(q);
				if constexpr (CHECKS & MOVES)
					for (int t = 0; t < slots; t++)
						if (t != s)
						{
							q = Op(); q.c = MOVE_ASSIGN; q.a = int16_t(t); q.b = int16_t(s); o.push_back(q);
							q.c = MOVE_CONSTRUCT; o.push_back(q);
						}
			}
		}
		Tide script;
		unsigned clock = 0;
		bool tide(size_t w) override
		{
			return script.select(w, prm.sizes.size() * slots, thorough() ? std::vector<size_t>{ 20, 60, 280 } : std::vector<size_t>{ 12, 60, 265 }, (CHECKS & MOVES) && slots > 1 ? 4 : 0);
		}
		bool wave(Op& o) override
		{
			for (;;)
			{
				int k = script.next(live.size());
				if (k == Tide::END) return false;
				o = Op();
				if (k >= Tide::EXTRA)
				{
					k -= Tide::EXTRA;
					o.c = int16_t(k / 2 ? MOVE_CONSTRUCT : MOVE_ASSIGN);
					o.a = int16_t(k % 2); o.b = int16_t(1 - k % 2);
					if (!mayDrop(o.b)) continue;
					return true;
				}
				o.c = k >= 0 ? ALLOC : FREE;
				o.a = int16_t(k / int(prm.sizes.size()));
				o.b = int16_t(k >= 0 ? k % int(prm.sizes.size()) : 0);
				if (k < 0)
				{
					std::vector<std::pair<unsigned, size_t>> v;
					for (size_t i = 0; i < live.size(); i++) v.emplace_back(live[i].age, i);
					std::sort(v.begin(), v.end());
					o.a = int16_t(v[size_t(-1 - k)].second);
				}
				return true;
			}
		}
		std::string describe(const Op& o) const override
		{
			auto nm = [](int s) { return std::string(1, char('x' + s)); };
			switch (o.c)
			{
			case ALLOC: return nm(o.a) + ".allocate(" + std::to_string(prm.sizes[size_t(o.b)]) + ")" + (o.d == 1 ? " with the first refused" : o.d == 2 ? " with the second refused" : o.d == 3 ? " with the first two refused" : "");
			case FREE: return "deallocate(live block #" + std::to_string(o.a) + ")";
			case MOVE_ASSIGN: return nm(o.b) + " = move(" + nm(o.a) + ")";
			case MOVE_CONSTRUCT: return "replace " + nm(o.b) + " by a new allocator constructed from move(" + nm(o.a) + ")";
			case SWAP: return "swap(" + nm(o.a) + ", " + nm(o.b) + ")";
			default: return "replace " + nm(o.a) + " by a fresh allocator";
			}
		}
		void forget(int slot)
		{
			for (size_t i = live.size(); i-- > 0;) if (live[i].slot == slot) live.erase(live.begin() + long(i));
		}
		// Everything the slot held must be gone
		void gone(int slot, const char* what)
		{
			if (failed()) return;
			if (size_t n = heldBy(slot)) fail("%zu underlying blocks were not given back when their allocator was %s", n, what);
			if constexpr (CHECKS & CASCADE)
				if (size_t n = instancesOf(slot)) fail("%zu underlying instances were not destroyed when their allocator was %s", n, what);
		}
		void doAlloc(int s, size_t n, unsigned refuse = 0)
		{
			A& x = *a[s];
			pools().tried.clear();
			pools().actor = s;
			int created = pools().instancesCreated;
			size_t had = instancesOf(s), held = heldBy(s), mine = liveOf(s);
			uint64_t serial = pools().serial;
			pools().refuse = refuse;
			pools().freshRefused = false;
			char* p = static_cast<char*>(x.allocate(n));
			pools().refuse = 0;
			created = pools().instancesCreated - created;
			if (failed()) return;
			if constexpr (CHECKS & CASCADE)
			{
				bool possible = n <= Spec::freshMax && n >= Spec::freshMin;
				if (possible && !p && !pools().freshRefused) { fail("allocate(%zu) failed although a fresh instance can satisfy it", n); return; }
				if (!possible && p) { fail("allocate(%zu) succeeded although no instance can satisfy it", n); return; }
				if (created > 1 + (had == 0)) { fail("allocate(%zu) created %d instances", n, created); return; }
				if (created && had && p)
				{
					bool refused = false;
					for (int id : pools().tried) if (pools().p[id].user == s) refused = true; // (it did not serve: a new one did)
					if (!refused && Spec::asked) { fail("allocate(%zu) created an instance although the current one was not asked", n); return; }
				}
			}
			adopt(s);
			if constexpr (CHECKS & FREELIST)
			{
				bool window = n > Spec::min && n <= Spec::max;
				bool asked = pools().serial != serial;
				if (!window)
				{
					if (p) { fail("allocate(%zu) succeeded outside of the window (%zu, %zu]", n, size_t(Spec::min), size_t(Spec::max)); return; }
					if (asked) { fail("allocate(%zu) outside of the window (%zu, %zu] used the underlying allocator", n, size_t(Spec::min), size_t(Spec::max)); return; }
				}
				else if (held > mine)
				{
					if (!p) { fail("allocate(%zu) failed although %zu freed blocks can be reused", n, held - mine); return; }
					if (heldBy(s) != held) { fail("allocate(%zu) obtained an underlying block although %zu freed blocks can be reused", n, held - mine); return; }
				}
				else if (!p && heldBy(s) != held) { fail("allocate(%zu) failed although the underlying allocator provided a block", n); return; }
				else if (!p && !asked) { fail("allocate(%zu) failed without asking the underlying allocator", n); return; }
			}
			if (!p) return;
			handed[s] = true;
			if (n && !world().covers(p, n)) { fail("allocate(%zu) returned %p: not all of its bytes lie in memory the allocator may hand out", n, (void*)p); return; }
			for (auto& l : live) if (l.n && n && l.p < p + n && p < l.p + l.n) { fail("allocate(%zu) returned %p, which overlaps the live block %p", n, (void*)p, (void*)l.p); return; }
			for (size_t i = 0; i < n; i++) p[i] = char(pat(p, n, i));
			size_t pos = 0;
			while (pos < live.size() && live[pos].p < p) pos++;
			live.insert(live.begin() + long(pos), B{ p, n, s, clock++ });
			peak[s] = std::max(peak[s], liveOf(s));
		}
		void doFree(size_t i)
		{
			B b = live[i];
			live.erase(live.begin() + long(i));
			memset(b.p, 0, b.n);
			pools().actor = b.slot;
			a[b.slot]->deallocate(b.p, b.n);
		}
		void apply(const Op& o, bool) override
		{
			switch (o.c)
			{
			case ALLOC: doAlloc(o.a, prm.sizes[size_t(o.b)], unsigned(o.d)); break;
			case FREE: doFree(size_t(o.a)); break;
			case RENEW:
				forget(o.a);
				a[o.a].destroy();
				gone(o.a, "destroyed");
				if (failed()) return;
				peak[o.a] = 0;
				handed[o.a] = false;
				make(o.a);
				break;
			case MOVE_ASSIGN:
				if constexpr (CHECKS & MOVES)
				{
					// a: source, b: destination
					forget(o.b);
					pools().actor = o.b;
					*a[o.b] = std::move(*a[o.a]);
					gone(o.b, "assigned over");
					retag(o.a, o.b);
					peak[o.b] = peak[o.a]; peak[o.a] = 0;
					handed[o.b] = handed[o.a]; handed[o.a] = false;
				}
				break;
			case SWAP:
				if constexpr (CHECKS & MOVES)
				{
					constexpr int TEMP = 7;
					std::swap(*a[o.a], *a[o.b]);
					retag(o.a, TEMP); retag(o.b, o.a); retag(TEMP, o.b);
					std::swap(peak[o.a], peak[o.b]);
					std::swap(handed[o.a], handed[o.b]);
				}
				break;
			case MOVE_CONSTRUCT:
				if constexpr (CHECKS & MOVES)
				{
					forget(o.b);
					a[o.b].destroy();
					gone(o.b, "destroyed");
					if (failed()) return;
					pools().actor = o.b;
					A& src = *a[o.a];
					a[o.b].make(std::move(src));
					retag(o.a, o.b);
					peak[o.b] = peak[o.a]; peak[o.a] = 0;
					handed[o.b] = handed[o.a]; handed[o.a] = false;
				}
				break;
			}
		}
		void check() override
		{
			for (auto& b : live)
			{
				if (b.n && !world().covers(b.p, b.n)) { fail("the memory of the live block %p (%zu bytes) was released", (void*)b.p, b.n); return; }
				for (size_t i = 0; i < b.n; i++)
					if (static_cast<unsigned char>(b.p[i]) != pat(b.p, b.n, i)) { fail("byte %zu of the live block %p (%zu bytes) changed", i, (void*)b.p, b.n); return; }
			}
			if constexpr (CHECKS & EQUAL)
				for (int s = 0; s < slots; s++)
					for (int t = 0; t <= s; t++)
					{
						const A& x = *a[s];
						const A& y = *a[t];
						bool eq = x == y, eq2 = y == x, ne = x != y, ne2 = y != x;
						if (s == t && !eq) { fail("%c does not compare equal to itself", 'x' + s); return; }
						if (eq != eq2 || ne != ne2) { fail("equality of %c and %c is not symmetric", 'x' + s, 'x' + t); return; }
						if (eq == ne) { fail("'not equal' is not the negation of 'equal' for %c and %c", 'x' + s, 'x' + t); return; }
						if (s != t && eq && (CHECKS & CASCADE) && (handed[s] || handed[t])) { fail("%c and %c have separate state but compare equal", 'x' + s, 'x' + t); return; }
					}
			for (int s = 0; s < slots; s++)
			{
				if constexpr (CHECKS & CASCADE)
				{
					size_t empty = 0;
					for (int i = 0; i < pools().used; i++)
					{
						Pool& p = pools().p[i];
						if (!p.inUse || p.destroyed || p.user != s) continue;
						bool used = false;
						for (auto& b : live) if (p.area->contains(b.p)) used = true;
						empty += !used;
					}
					if (empty > 1) { fail("%zu instances without live blocks are kept", empty); return; }
				}
				if constexpr (CHECKS & FREELIST)
					if (heldBy(s) > peak[s]) { fail("%zu underlying blocks are held although never more than %zu blocks were live at once", heldBy(s), peak[s]); return; }
				if constexpr (has_owns<A>)
					for (auto& b : live)
					{
						if (b.slot == s && b.n && !a[s]->owns(b.p)) { fail("owns() denies the live block %p after it was handed over", (void*)b.p); return; }
						if ((CHECKS & CASCADE) && b.slot != s && b.n && a[s]->owns(b.p)) { fail("owns() claims a live block of another allocator"); return; }
					}
			}
		}
		void key(Hash& h) override
		{
			h.word(live.size());
			for (auto& b : live) { h.word(uint64_t(uintptr_t(b.p))); h.word(b.n); h.word(uint64_t(b.slot)); }
			for (int s = 0; s < slots; s++) { h.word(uint64_t(uintptr_t(a[s].get()))); if (CHECKS & FREELIST) h.word(peak[s]); if (CHECKS & EQUAL) h.word(handed[s]); }
			for (int i = 0; i < pools().used; i++) if (pools().p[i].inUse) { h.word(pools().p[i].destroyed); h.word(uint64_t(pools().p[i].user)); }
			world().key(h);
		}
		void finish() override
		{
			while (!live.empty() && !failed()) doFree(0);
			for (int s = 0; s < slots && !failed(); s++)
			{
				a[s].destroy();
				gone(s, "destroyed");
			}
			if (failed()) return;
			if (pools_live()) fail("%zu underlying blocks were never given back", pools_live());
			if (world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
			if (pools().instancesLive) fail("%d underlying instances were never destroyed", pools().instancesLive);
		}
	};
}
