// All histories of allocate(n) / deallocate over one allocator composition, with selectable oracles.
#pragma once
#include "confs.h"
#include <algorithm>

namespace mc
{
	enum : int { DISJOINT = 1, ALIGNED = 2, OWNED = 4, ROUTED = 8, NOTRACE = 16, MAXSIZE = 32 };

	inline unsigned char pat(const char* base, size_t n, size_t i)
	{
		uint64_t h = uint64_t(reinterpret_cast<uintptr_t>(base)) * 0x9E3779B97F4A7C15ull + n * 0xD6E8FEB86659FD93ull + (i + 1) * 0xff51afd7ed558ccdull;
		h ^= h >> 32;
		unsigned char c = static_cast<unsigned char>(h ^ (h >> 16));
		return c ? c : 0x5A;
	}

	struct LiveBlock { char* p; size_t n; unsigned age = 0; };

	struct AllocParams
	{
		std::vector<size_t> sizes;
		size_t maxLive;
		size_t shift = 0, residue = 0;  // where objects live, and where malloc blocks start
		bool leak = false;              // destroy the allocator without freeing the blocks
	};

	inline Bounds alloc_bounds(size_t sizes)
	{
		Bounds b;
		b.dfs = (thorough() ? 5 : 4) - (sizes > 5);
		b.depth = thorough() ? 18 : 11;
		b.maxStates = thorough() ? 1000000 : 25000;
		return b;
	}

	// The part that does not depend on the allocator type
	class AllocBase : public System
	{
	public:
		enum { ALLOC = 1, FREE = 2 };
		AllocParams prm;
		int checks;
		size_t hardMax;
		Obj<std::array<char, 64>> before, after;
		LiveBlock otherBlock{ nullptr, 0 };
		std::vector<LiveBlock> live;
		AllocBase(const AllocParams& p, int ch, size_t hm) : prm(p), checks(ch), hardMax(hm) {}

		virtual void* doAlloc(size_t n) = 0;
		virtual void doFree(void* p, size_t n) = 0;

		void ops(std::vector<Op>& o) const override
		{
			if (live.size() < prm.maxLive)
				for (size_t i = 0; i < prm.sizes.size(); i++) { Op x; x.c = ALLOC; x.a = int16_t(i); o.push_back(x); }
			for (size_t i = 0; i < live.size(); i++)
			{
				if (i && live[i].p == live[i - 1].p && live[i].n == live[i - 1].n) continue;
				Op x; x.c = FREE; x.a = int16_t(i); o.push_back(x);
			}
		}
		Tide script;
		unsigned clock = 0;
		bool tide(size_t w) override
		{
			return script.select(w, prm.sizes.size(), thorough() ? std::vector<size_t>{ 24, 70, 300 } : std::vector<size_t>{ 18, 70, 270 });
		}
		bool wave(Op& o) override
		{
			int k = script.next(live.size());
			if (k == Tide::END) return false;
			o = Op();
			o.c = k >= 0 ? ALLOC : FREE;
			o.a = int16_t(k);
			if (k < 0)
			{
				std::vector<std::pair<unsigned, size_t>> v;
				for (size_t i = 0; i < live.size(); i++) v.emplace_back(live[i].age, i);
				std::sort(v.begin(), v.end());
				o.a = int16_t(v[size_t(-1 - k)].second);
			}
			return true;
		}
		std::string describe(const Op& o) const override
		{
			if (o.c == ALLOC) return "allocate(" + std::to_string(prm.sizes[size_t(o.a)]) + ")";
			return "deallocate(live block #" + std::to_string(o.a) + " by address)";
		}
		void fill(const LiveBlock& b) { for (size_t i = 0; i < b.n; i++) b.p[i] = char(pat(b.p, b.n, i)); }
		void insert(const LiveBlock& b)
		{
			size_t pos = 0;
			while (pos < live.size() && (live[pos].p < b.p || (live[pos].p == b.p && live[pos].n <= b.n))) pos++;
			live.insert(live.begin() + long(pos), b);
			fill(b);
		}
		void release(size_t i)
		{
			LiveBlock b = live[i];
			live.erase(live.begin() + long(i));
			memset(b.p, 0, b.n); // freed bytes carry no history
			doFree(b.p, b.n);
		}
		void apply(const Op& o, bool) override
		{
			if (o.c == FREE) { release(size_t(o.a)); return; }
			size_t n = prm.sizes[size_t(o.a)];
			char* p = static_cast<char*>(doAlloc(n));
			if (!p) return;
			if (n > hardMax)
			{
				fail("allocate(%zu) returned a block although no more than %zu bytes can exist", n, hardMax);
				return;
			}
			bool covered = n == 0 || world().covers(p, n);
			if (checks & DISJOINT)
			{
				if (!covered)
				{
					fail("allocate(%zu) returned %p: not all of its bytes lie in memory the allocator may hand out", n, (void*)p);
					return;
				}
				for (auto& l : live)
					if (l.n && n && l.p < p + n && p < l.p + l.n)
					{
						fail("allocate(%zu) returned %p, which overlaps the live block %p of %zu bytes", n, (void*)p, (void*)l.p, l.n);
						return;
					}
			}
			if ((checks & ALIGNED) && reinterpret_cast<uintptr_t>(p) % alignof(std::max_align_t))
			{
				fail("allocate(%zu) returned the misaligned address %p", n, (void*)p);
				return;
			}
			if (!covered) n = 0; // another property's business: do not touch it
			insert(LiveBlock{ p, n, clock++ });
		}
		void checkContents()
		{
			for (auto& b : live)
				for (size_t i = 0; i < b.n; i++)
					if (static_cast<unsigned char>(b.p[i]) != pat(b.p, b.n, i))
					{
						fail("byte %zu of the live block %p (%zu bytes) changed", i, (void*)b.p, b.n);
						return;
					}
		}
		void keyLive(Hash& h)
		{
			h.word(live.size());
			for (auto& b : live) { h.word(uint64_t(reinterpret_cast<uintptr_t>(b.p))); h.word(b.n); }
		}
	};

	template<class C, int CHECKS>
	class AllocSys : public AllocBase
	{
	public:
		using A = typename C::A;
		std::unique_ptr<C> c, other;

		explicit AllocSys(const AllocParams& p) : AllocBase(p, CHECKS, C::hardMax) {}
		~AllocSys() { if (failed()) { c.release(); other.release(); } }
		void* doAlloc(size_t n) override { return c->get().allocate(n); }
		void doFree(void* p, size_t n) override { c->get().deallocate(p, n); }

		void start() override
		{
			world().objShift = prm.shift;
			world().sysResidue = prm.residue;
			pools().strict = (CHECKS & ROUTED) != 0;
			if constexpr (CHECKS & ROUTED)
				world().held = [this](const char* p, size_t n)
				{
					for (auto& b : live) if (b.n && b.p < p + n && p < b.p + b.n) return true;
					return false;
				};
			if constexpr (CHECKS & OWNED)
			{
				before.make();
			}
			c = std::make_unique<C>();
			if constexpr (CHECKS & OWNED)
			{
				after.make();
				if constexpr (!probed<C>(0)) other = std::make_unique<C>();
				otherBlock.n = 1;
				for (size_t s : prm.sizes)
					if (s && other && !otherBlock.p) { otherBlock.n = s; otherBlock.p = static_cast<char*>(other->get().allocate(s)); }
			}
		}

		void check() override
		{
			if constexpr (CHECKS & DISJOINT)
				checkContents();
			if constexpr (CHECKS & OWNED)
			{
				if constexpr (has_owns<A>)
				{
					const A& a = c->get();
					for (auto& b : live)
						for (size_t i = 0; i < b.n; i++)
							if (!a.owns(b.p + i)) { fail("owns() denies byte %zu of the live block %p (%zu bytes)", i, (void*)b.p, b.n); return; }
					auto no = [&](char* q, const char* what) { if (!failed() && a.owns(q)) fail("owns(%p) claims %s", (void*)q, what); };
					for (size_t i = 0; i < 64; i++) { no(&(*before)[i], "memory that was never the allocator's"); no(&(*after)[i], "memory that was never the allocator's"); }
					if (otherBlock.p && !isGlobal())
						for (size_t i = 0; i < otherBlock.n && i < 64; i++) no(otherBlock.p + i, "memory of another allocator");
					// Instrumented parts: the composite owns exactly what its parts own
					for (int i = 0; i < pools().used; i++)
					{
						Pool& p = pools().p[i];
						char* lo = p.area->base;
						char* hi = lo + p.area->size;
						for (char* q : { lo - 1, lo, lo + 64, hi - 1, hi })
						{
							bool in = false;
							for (int k = 0; k < pools().used; k++)
								if (owned(k) && pools().p[k].area->contains(q)) in = true;
							if (!failed() && a.owns(q) != in) fail("owns(%p) is %d although its parts say %d", (void*)q, int(!in), int(in));
						}
					}
				}
			}
		}
		bool owned(int i) { return !pools().p[i].destroyed; }
		template<class X> static constexpr auto probed(int) -> decltype(std::declval<X&>().ids, bool()) { return true; }
		template<class X> static constexpr bool probed(long) { return false; }
		template<class X> struct is_global : std::false_type {};
		template<class X> struct is_global<ktl::global<X>> : std::true_type {};
		static constexpr bool isGlobal() { return is_global<A>::value; }

		void key(Hash& h) override
		{
			keyLive(h);
			c->key(h);
			world().key(h);
		}

		void finish() override
		{
			while (!live.empty() && !failed()) release(0);
			if (failed()) return;
			live.clear();
			if constexpr (CHECKS & OWNED)
				if (otherBlock.p) other->get().deallocate(otherBlock.p, otherBlock.n);
			if (other) other->destroy();
			c->destroy();
			if constexpr (CHECKS & ROUTED)
			{
				if (failed()) return;
				if (pools_live()) fail("%zu blocks of the underlying parts were never given back", pools_live());
				if (world().sys_live()) fail("%zu system blocks were never given back", world().sys_live());
				if (pools().instancesLive) fail("%d underlying instances were never destroyed", pools().instancesLive);
			}
		}
	};
}

#define MC_UNPAREN(...) __VA_ARGS__
#define MC_TYPE(T) typename mc::strip<void T>::type
namespace mc
{
	template<class T> struct strip;
	template<class T> struct strip<void(T)> { using type = T; };
}
