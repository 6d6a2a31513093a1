// Lockstep comparison: X executes every request, Y only those that succeeded on X.
#pragma once
#include "allocsys.h"

namespace mc
{
	inline const std::vector<size_t>& huge_sizes()
	{
		static std::vector<size_t> v;
		if (v.empty())
		{
			size_t m = ~size_t(0), h = size_t(1) << 63;
			for (size_t k : { 0, 1, 7, 8, 14, 15, 16, 30, 31, 62, 63, 64, 126, 127, 128, 129, 142, 143, 144, 255, 4095 }) v.push_back(m - k);
			for (size_t x : { h, h - 1, h + 16, h - 128, size_t(1) << 62, (size_t(1) << 32), (size_t(1) << 32) + 16, (size_t(1) << 32) - 1, size_t(3) << 40 }) v.push_back(x);
		}
		return v;
	}

	template<class C>
	class LockSys : public System
	{
	public:
		using A = typename C::A;
		enum { ALLOC = 1, FREE = 2, HUGE_ALLOC = 3 };
		struct Pair { LiveBlock x, y; };
		AllocParams prm;
		std::unique_ptr<C> x, y;
		std::vector<Pair> live, past;
		int failures = 0;
		bool pending = false, pendingHuge = false;
		size_t pendingSize = 0;
		explicit LockSys(const AllocParams& p) : prm(p) {}
		~LockSys() { if (failed()) { x.release(); y.release(); } }
		void start() override
		{
			pools().strict = false;
			pools().split = true;
			world().onReset = reset_pools;
			world().side = 0; x = std::make_unique<C>();
			world().side = 1; y = std::make_unique<C>();
			world().side = 0;
		}
		void ops(std::vector<Op>& o) const override
		{
			Op q;
			if (live.size() < prm.maxLive)
				for (size_t i = 0; i < prm.sizes.size(); i++) { q.c = ALLOC; q.a = int16_t(i); o.push_back(q); }
			for (size_t i = 0; i < live.size(); i++) { q.c = FREE; q.a = int16_t(i); o.push_back(q); }
			for (size_t i = 0; i < huge_sizes().size(); i++) { q.c = HUGE_ALLOC; q.a = int16_t(i); o.push_back(q); }
		}
		Tide script;
		bool tide(size_t w) override { return script.select(w, prm.sizes.size(), thorough() ? std::vector<size_t>{ 24, 70, 300 } : std::vector<size_t>{ 16, 60 }, 3); }
		bool wave(Op& o) override
		{
			int k = script.next(live.size());
			if (k == Tide::END) return false;
			o = Op();
			if (k >= Tide::EXTRA) { o.c = HUGE_ALLOC; o.a = int16_t((k - Tide::EXTRA) * 9); return true; }
			o.c = k >= 0 ? ALLOC : FREE;
			o.a = int16_t(k >= 0 ? k : -1 - k);
			return true;
		}
		std::string describe(const Op& o) const override
		{
			if (o.c == ALLOC) return "allocate(" + std::to_string(prm.sizes[size_t(o.a)]) + ")";
			if (o.c == HUGE_ALLOC) return "allocate(" + std::to_string(huge_sizes()[size_t(o.a)]) + ")";
			return "deallocate(live block #" + std::to_string(o.a) + ")";
		}
		char* alloc(int side, size_t n)
		{
			world().side = side;
			char* p = static_cast<char*>((side ? y : x)->get().allocate(n));
			world().side = 0;
			return p;
		}
		void free(int side, LiveBlock b)
		{
			world().side = side;
			memset(b.p, 0, b.n);
			(side ? y : x)->get().deallocate(b.p, b.n);
			world().side = 0;
		}
		void fill(const LiveBlock& b) { for (size_t i = 0; i < b.n; i++) b.p[i] = char(pat(b.p, b.n, i)); }
		void apply(const Op& o, bool last) override
		{
			if (o.c == FREE)
			{
				Pair b = live[size_t(o.a)];
				live.erase(live.begin() + o.a);
				free(0, b.x);
				free(1, b.y);
				return;
			}
			size_t n = o.c == ALLOC ? prm.sizes[size_t(o.a)] : huge_sizes()[size_t(o.a)];
			char* p = alloc(0, n);
			if (p && (o.c == HUGE_ALLOC || n > C::hardMax || (n && !world().covers(p, n))))
			{
				fail("allocate(%zu) returned %p, which is not a block of that size", n, (void*)p);
				return;
			}
			if (!p)
			{
				failures++;
				if (last) { pending = true; pendingSize = n; pendingHuge = o.c != ALLOC; }
				return;
			}
			char* q = alloc(1, n);
			if (!q)
			{
				fail("allocate(%zu) succeeds after %d failed requests, but not if those are never made", n, failures);
				return;
			}
			if (n && !world().covers(q, n)) { fail("allocate(%zu) returned %p, which is not a block of that size", n, (void*)q); return; }
			Pair b{ { p, n }, { q, n } };
			fill(b.x); fill(b.y);
			live.push_back(b);
			if (past.size() < 6) past.push_back(b);
		}
		void check() override
		{
			for (auto& b : live)
				for (size_t i = 0; i < b.x.n; i++)
					if (static_cast<unsigned char>(b.x.p[i]) != pat(b.x.p, b.x.n, i)) { fail("byte %zu of the live block %p (%zu bytes) changed", i, (void*)b.x.p, b.x.n); return; }
			if constexpr (has_owns<A>)
			{
				auto cmp = [&](const Pair& b, const char* what)
				{
					for (size_t i = 0; i < (b.x.n ? b.x.n : 1); i++)
						if (x->get().owns(b.x.p + i) != y->get().owns(b.y.p + i))
						{
							fail("owns() of byte %zu of %s is %d, but %d if the failed requests are never made", i, what, int(x->get().owns(b.x.p + i)), int(!x->get().owns(b.x.p + i)));
							return false;
						}
					return true;
				};
				for (auto& b : live) if (!cmp(b, "a live block")) return;
				for (auto& b : past) if (!cmp(b, "a former block")) return;
			}
			if constexpr (has_max<A>)
				if (x->get().max_size() != y->get().max_size()) fail("max_size() changed by failed requests");
			std::string dx = x->diagnostics(), dy = y->diagnostics();
			if (dx != dy) fail("the diagnostics differ: '%s' and, without the failed requests, '%s'", dx.c_str(), dy.c_str());
		}
		void key(Hash& h) override
		{
			h.word(live.size());
			for (auto& b : live) { h.word(uint64_t(uintptr_t(b.x.p))); h.word(uint64_t(uintptr_t(b.y.p))); h.word(b.x.n); }
			h.word(uint64_t(failures > 1 ? 1 : failures));
			// `past` only selects what is looked at
			x->key(h); y->key(h);
			world().key(h);
		}
		void finish() override
		{
			// The last request failed: would it have succeeded without the failed requests before it?
			if (pending && (failures > 1 || !pendingHuge))
			{
				char* q = alloc(1, pendingSize);
				if (q && failures > 1) fail("allocate(%zu) fails after %d failed requests, but succeeds if those are never made", pendingSize, failures - 1);
				else if (q) fail("allocate(%zu) fails, but succeeds on an allocator with the same history", pendingSize);
				if (failed()) return;
			}
			if (!prm.leak)
				while (!live.empty() && !failed())
				{
					free(0, live.back().x);
					free(1, live.back().y);
					live.pop_back();
				}
			if (failed()) return;
			world().side = 0; x->destroy();
			world().side = 1; y->destroy();
			world().side = 0;
			if (failed()) return;
			std::string dx = x->diagnostics(), dy = y->diagnostics();
			if (dx != dy) fail("the final diagnostics differ: '%s' and, without the failed requests, '%s'", dx.c_str(), dy.c_str());
			if (!prm.leak && world().sys.blocks.size() != world().sysB.blocks.size())
				fail("%zu system blocks remain, but %zu if the failed requests are never made", world().sys.blocks.size(), world().sysB.blocks.size());
		}
	};
}
