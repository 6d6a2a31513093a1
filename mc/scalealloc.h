// Allocators with more instances and blocks than a narrow integer can count
#pragma once
#include "mc.h"
#include <ktl/ktl.h>
#include <algorithm>
#include <set>

namespace scale
{
	using mc::Cases;
	using mc::fail;
	using mc::failed;
	using mc::thorough;

	inline std::vector<size_t> counts()
	{
#ifdef MC_LIGHT
		if (!thorough()) return { 255, 257, 65537 };
#endif
		std::vector<size_t> s{ 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537 };
		if (thorough()) for (size_t x : { size_t(1), size_t(2), size_t(64), size_t(4096), size_t(40000), size_t(98304), size_t(131071), size_t(131072), size_t(131073) }) s.push_back(x);
		return s;
	}

	// ---- instances that provide a number of blocks of 16 bytes ----------------------------------------------------
	struct Slabs
	{
		size_t live = 0, made = 0, gone = 0; // instances
		size_t capacity = 1;                 // blocks of the next instance
	};
	inline Slabs& slabs() { static Slabs s; return s; }
	class Slab
	{
	public:
		static constexpr size_t BLOCK = 16;
		Slab() noexcept
		{
			slabs().live++;
			slabs().made++;
			m_Capacity = slabs().capacity;
			m_Mem = static_cast<char*>(::operator new(m_Capacity * BLOCK));
			m_State.assign(m_Capacity, 0);
		}
		Slab(const Slab&) = delete;
		Slab& operator=(const Slab&) = delete;
		~Slab()
		{
			if (!m_Mem) { fail("an instance was destroyed twice"); return; }
			slabs().live--;
			slabs().gone++;
			if (m_Out && !m_Doomed) fail("an instance was destroyed with %zu live blocks", m_Out);
			::operator delete(m_Mem);
			m_Mem = nullptr;
		}
		static bool& doomed() { static bool d = false; return d; } // the cascade itself is being destroyed
		void* allocate(size_t n)
		{
			if (n > BLOCK || m_Out == m_Capacity) return nullptr;
			while (m_Next < m_Capacity && m_State[m_Next]) m_Next++;
			if (m_Next == m_Capacity) { m_Next = 0; while (m_State[m_Next]) m_Next++; }
			m_State[m_Next] = 1;
			m_Out++;
			return m_Mem + BLOCK * m_Next;
		}
		void deallocate(void* p, size_t n)
		{
			size_t i = size_t(static_cast<char*>(p) - m_Mem) / BLOCK;
			if (!owns(p)) fail("a block was given to an instance that does not own it");
			else if (!m_State[i]) fail("a block was given back twice");
			else if (n > BLOCK) fail("a block is given back with %zu bytes", n);
			else { m_State[i] = 0; m_Out--; if (i < m_Next) m_Next = i; }
		}
		bool owns(const void* p) const { return p >= m_Mem && p < m_Mem + m_Capacity * BLOCK; }
		size_t max_size() const { return BLOCK; }
		bool operator==(const Slab& o) const noexcept { return this == &o; }
		bool operator!=(const Slab& o) const noexcept { return this != &o; }
	private:
		char* m_Mem = nullptr;
		size_t m_Capacity = 0, m_Out = 0, m_Next = 0;
		std::vector<char> m_State;
		bool& m_Doomed = doomed();
	};
	inline bool& ended() { return Slab::doomed(); }

	// The order in which n blocks are freed
	enum Order { NEWEST, OLDEST, MIDDLE, ODD, ORDERS };
	inline const char* orderName(int o) { static const char* const n[] = { "newest first", "oldest first", "from the middle", "every second, then the others" }; return n[o]; }
	inline std::vector<size_t> order(size_t n, int o)
	{
		std::vector<size_t> v;
		if (o == NEWEST) for (size_t i = n; i-- > 0;) v.push_back(i);
		if (o == OLDEST) for (size_t i = 0; i < n; i++) v.push_back(i);
		if (o == MIDDLE) for (size_t i = 0; i < n; i++) v.push_back((n / 2 + i) % n);
		if (o == ODD) { for (size_t i = 0; i < n; i += 2) v.push_back(i); for (size_t i = 1; i < n; i += 2) v.push_back(i); }
		return v;
	}

	// Instances of `each` blocks until there are n blocks; freed in an order
	inline void cascade(Cases& e, size_t n, size_t each, int o)
	{
		if (n / each > 1 && n > 1100 && o != NEWEST) return; // each step visits all instances
		if (!e.next("%zu blocks in instances of %zu, freed %s", n, each, orderName(o))) return;
		mc::world().active(false); // the real heap: ours searches
		slabs() = Slabs();
		slabs().capacity = each;
		ended() = false;
		{
			ktl::cascading<Slab> a;
			std::vector<uint64_t*> blocks;
			for (size_t i = 0; i < n && !failed(); i++)
			{
				void* p = a.allocate(1 + i % 16);
				if (!p) { fail("block %zu was refused", i); break; }
				blocks.push_back(static_cast<uint64_t*>(p));
				blocks.back()[0] = i; blocks.back()[1] = ~i;
				if (slabs().live != i / each + 1) fail("there are %zu instances with %zu blocks", slabs().live, i + 1);
			}
			if (!e.ok()) return;
			if (a.allocate(17) || slabs().live != (n - 1) / each + 1) fail("a request beyond the limit changed something");
			std::vector<size_t> left((n - 1) / each + 1, 0); // live blocks per instance
			for (size_t i = 0; i < n; i++) left[i / each]++;
			size_t used = left.size(), done = 0;
			for (size_t i : order(n, o))
			{
				if (failed()) break;
				uint64_t* p = blocks[i];
				if (p[0] != i || p[1] != ~i) { fail("the contents of block %zu are not intact", i); break; }
				if (!a.owns(p)) { fail("block %zu is not owned while it is live", i); break; }
				a.deallocate(p, 1 + i % 16);
				if (--left[i / each] == 0) used--;
				done++;
				if (slabs().live < used || slabs().live > used + 1) fail("there are %zu instances, %zu of them with live blocks, after freeing %zu of %zu", slabs().live, used, done, n);
			}
			e.step(2 * n);
			// and again
			if (!failed() && !a.allocate(1)) fail("a request was refused");
			if (!failed() && slabs().live > 2) fail("%zu instances remain", slabs().live);
			ended() = true;
		}
		if (!failed() && slabs().live) fail("%zu instances were never destroyed", slabs().live);
		if (!failed() && slabs().gone != slabs().made) fail("%zu instances were made and %zu destroyed", slabs().made, slabs().gone);
		e.ok();
	}
	// Destroyed or assigned over while it holds n instances
	inline void cascadeEnd(Cases& e, size_t n, int how)
	{
		static const char* const hows[] = { "destroyed", "moved, then destroyed", "assigned over" };
		if (!e.next("a cascade of %zu instances %s", n, hows[how])) return;
		mc::world().active(false); // the real heap: ours searches
		slabs() = Slabs();
		ended() = false;
		{
			ktl::cascading<Slab> a, b;
			std::vector<void*> blocks;
			for (size_t i = 0; i < n && !failed(); i++)
			{
				blocks.push_back(a.allocate(16));
				if (!blocks.back()) fail("block %zu was refused", i);
			}
			if (how == 1)
			{
				ktl::cascading<Slab> c(std::move(a));
				if (!c.owns(blocks[0]) || !c.owns(blocks[n - 1]) || a.owns(blocks[0])) fail("the blocks were not moved");
				ended() = true;
			}
			else if (how == 2)
			{
				void* p = b.allocate(16);
				ended() = true;
				a = std::move(b);
				if (!failed() && slabs().live != 1) fail("%zu instances remain after the assignment", slabs().live);
				if (!failed() && (!a.owns(p) || a.owns(blocks[0]))) fail("owns() is wrong after the assignment");
			}
			ended() = true;
			e.step(n);
		}
		if (!failed() && (slabs().live || slabs().gone != slabs().made)) fail("%zu instances were made and %zu destroyed", slabs().made, slabs().gone);
		e.ok();
	}
	inline void cascades(Cases& e)
	{
		for (size_t n : counts())
			for (int o = 0; o < ORDERS; o++)
				for (size_t each : { size_t(1), size_t(100), n - 1, n, n + 1 })
					if (each && !failed()) cascade(e, n, each, o);
#if !defined(MC_LIGHT) // with assertions, ending a cascade with several instances is an error
		for (size_t n : counts())
			for (int how = 0; how < 3; how++)
				if (!failed()) cascadeEnd(e, n, how);
#endif
	}

	// ---- free lists ---------------------------------------------------------------------------------------------
	struct Supply
	{
		std::set<void*> out;
		size_t asked = 0, returned = 0, size = 0;
	};
	inline Supply& supply() { static Supply* s = new Supply(); return *s; }
	struct Source
	{
		void* allocate(size_t n)
		{
			Supply& s = supply();
			s.asked++;
			if (n != s.size) fail("a block of %zu bytes was asked for instead of %zu", n, s.size);
			void* p = ::operator new(n);
			s.out.insert(p);
			return p;
		}
		void deallocate(void* p, size_t n)
		{
			Supply& s = supply();
			s.returned++;
			if (n != s.size) fail("a block of %zu bytes is given back as %zu", s.size, n);
			if (!s.out.erase(p)) fail("a block is given back that is not out");
			else ::operator delete(p);
		}
		bool owns(void* p) const { return supply().out.count(p) != 0; }
		bool operator==(const Source&) const noexcept { return true; }
		bool operator!=(const Source&) const noexcept { return false; }
	};
	template<size_t Min, size_t Max>
	void freelist(Cases& e, size_t n, int o, int end)
	{
		static const char* const ends[] = { "destroyed", "moved and destroyed", "assigned over" };
		if (!e.next("freelist<%zu,%zu>: %zu blocks freed %s, taken again, freed and %s", Min, Max, n, orderName(o), ends[end])) return;
		supply() = Supply();
		supply().size = Max;
		{
			using F = ktl::freelist<Min, Max, Source>;
			F a;
			std::vector<uint64_t*> blocks;
			auto size = [](size_t i) { return Min + 1 + i % (Max - Min); };
			auto take = [&](F& from)
			{
				blocks.clear();
				for (size_t i = 0; i < n && !failed(); i++)
				{
					auto p = static_cast<uint64_t*>(from.allocate(size(i)));
					if (!p) { fail("block %zu was refused", i); return; }
					p[0] = i; p[1] = ~i;
					blocks.push_back(p);
				}
				for (size_t i = 0; i < n && !failed(); i++)
				{
					if (blocks[i][0] != i || blocks[i][1] != ~i) fail("the contents of block %zu are not intact", i);
					else if (!from.owns(blocks[i])) fail("block %zu is not owned while it is live", i);
				}
			};
			auto give = [&](F& to) { for (size_t i : order(n, o)) if (!failed()) to.deallocate(blocks[i], size(i)); };
			take(a);
			if (!failed() && supply().asked != n) fail("%zu blocks were asked for although %zu are live", supply().asked, n);
			give(a);
			take(a);
			if (!failed() && supply().asked != n) fail("%zu blocks were asked for although at most %zu were live", supply().asked, n);
			auto one = failed() ? nullptr : static_cast<uint64_t*>(a.allocate(Max));
			if (!failed() && (!one || supply().asked != n + 1)) fail("another block was not asked for");
			if (one) a.deallocate(one, Max);
			give(a);
			if (!failed() && supply().returned) fail("%zu blocks were given back early", supply().returned);
			e.step(4 * n);
			if (end == 1 && !failed())
			{
				F b(std::move(a));
				take(b);
				if (!failed() && supply().asked != n + 1) fail("the moved list asked for blocks although it has %zu", n + 1);
				give(b);
			}
			if (end == 2 && !failed())
			{
				F b;
				a = std::move(b);
				if (!failed() && supply().out.size()) fail("%zu blocks were not given back by the assignment", supply().out.size());
			}
		}
		if (!failed() && supply().out.size()) fail("%zu blocks were never given back", supply().out.size());
		e.ok();
	}
	inline void freelists(Cases& e)
	{
		for (size_t n : counts())
			for (int o = 0; o < ORDERS; o++)
				for (int end = 0; end < 3; end++)
				{
					if (!failed()) freelist<0, 16>(e, n, o, end);
					if (!failed()) freelist<16, 48>(e, n, o, end);
				}
	}

	// Moved, swapped and assigned while n blocks are live or free
	template<class A>
	void travel(Cases& e, const char* name, size_t n, int o, size_t least, size_t range)
	{
		if (!e.next("%s with %zu blocks: moved along, freed %s", name, n, orderName(o))) return;
		mc::world().active(false);
		size_t capacity = slabs().capacity;
		slabs() = Slabs();
		slabs().capacity = capacity;
		ended() = false;
		supply() = Supply();
		supply().size = least + range - 1;
		{
			A a;
			std::vector<uint64_t*> blocks(n, nullptr);
			auto size = [=](size_t i) { return least + i % range; };
			auto take = [&](A& from, size_t i)
			{
				auto p = static_cast<uint64_t*>(from.allocate(size(i)));
				if (!p) { fail("block %zu was refused", i); return; }
				p[0] = i; p[1] = ~i;
				blocks[i] = p;
			};
			auto give = [&](A& to, size_t i)
			{
				if (failed()) return;
				if (blocks[i][0] != i || blocks[i][1] != ~i) { fail("the contents of block %zu are not intact", i); return; }
				if (!to.owns(blocks[i])) { fail("block %zu is not owned after the moves", i); return; }
				to.deallocate(blocks[i], size(i));
				blocks[i] = nullptr;
			};
			for (size_t i = 0; i < n && !failed(); i++) take(a, i);
			e.step(n);
			A b(std::move(a));
			std::vector<size_t> q = order(n, o);
			for (size_t k = 0; k < n / 3 && !failed(); k++) give(b, q[k]);
			if (!failed())
			{
				void* p = a.allocate(least);
				if (!p) fail("the allocator moved from is not usable");
				else a.deallocate(p, least);
			}
			a = std::move(b);
			for (size_t k = n / 3; k < n / 2 && !failed(); k++) give(a, q[k]);
			std::swap(a, b);
			for (size_t k = 0; k < n / 4 && !failed(); k++) take(b, q[k]);
			for (size_t k = n / 2; k < n && !failed(); k++) give(b, q[k]);
			a = std::move(b);
			e.step(n);
			for (size_t k = n / 4; k-- > 0 && !failed();) give(a, q[k]);
			ended() = true;
		}
		if (!failed() && (slabs().live || slabs().gone != slabs().made)) fail("%zu instances were made and %zu destroyed", slabs().made, slabs().gone);
		if (!failed() && supply().out.size()) fail("%zu blocks were never given back", supply().out.size());
		e.ok();
	}
	inline void travels(Cases& e)
	{
		for (size_t n : counts())
			for (int o = 0; o < ORDERS; o++)
			{
				if (!failed()) travel<ktl::freelist<16, 48, Source>>(e, "freelist<16,48>", n, o, 17, 32);
				for (size_t each : { size_t(1), n, n + 1 })
				{
					if (each == 1 && n > 1100 && o != NEWEST) continue; // each step visits all instances
					slabs().capacity = each;
					if (!failed()) travel<ktl::cascading<Slab>>(e, each == 1 ? "cascade of instances with one block" : each == n ? "cascade of a full instance" : "cascade of one instance", n, o, 16, 1);
				}
			}
	}

	// ---- bump allocators ------------------------------------------------------------------------------------------
	// An allocator of its kind in memory from the system, at the strictest alignment
	template<class A> struct Placed
	{
		void* mem;
		A* a;
		Placed() : mem(::operator new(sizeof(A) + 64)), a(::new (reinterpret_cast<void*>((reinterpret_cast<uintptr_t>(mem) + 63) / 64 * 64)) A) {}
		~Placed() { if (!failed()) a->~A(); ::operator delete(mem); }
		A& get() { return *a; }
		static const char* name() { return "linear_allocator"; }
	};
	template<size_t N> struct Placed<ktl::stack_allocator<N>>
	{
		Placed<ktl::stack<N>> block;
		ktl::stack_allocator<N> a{ block.get() };
		ktl::stack_allocator<N>& get() { return a; }
		static const char* name() { return "stack_allocator"; }
	};

	// Every sequence of `k` requests of the given sizes, then freed newest first or oldest first, then everything at once
	template<class A>
	void bump(Cases& e, A& a, const char* name, size_t cap, const std::vector<size_t>& sizes, size_t k)
	{
		std::vector<size_t> q(k, 0);
		for (;;)
		{
			for (int o = 0; o < 2; o++)
			{
				std::string t;
				for (size_t i : q) t += " " + std::to_string(sizes[i]);
				if (!e.next("%s: requests%s, freed %s", name, t.c_str(), orderName(o))) continue;
				size_t top = 0;
				struct B { char* p; size_t n; };
				std::vector<B> live;
				char* base = nullptr;
				for (size_t i : q)
				{
					size_t n = sizes[i], r = (n + 15) / 16 * 16;
					char* p = static_cast<char*>(a.allocate(n));
					e.step();
					bool want = n <= cap && r <= cap - top;
					if ((p != nullptr) != want) { fail("allocate(%zu) %s with %zu of %zu bytes in use", n, p ? "succeeded" : "failed", top, cap); break; }
					if (!p) continue;
					if (!base) base = p;
					if (p != base + top) { fail("allocate(%zu) returned the address %ld beyond the start instead of %zu", n, long(p - base), top); break; }
					if (!a.owns(p) || (n && !a.owns(p + n - 1)) || !a.owns(base + cap - 1) || a.owns(base + cap) || a.owns(base - 1)) { fail("owns() is wrong with %zu bytes in use", top + r); break; }
					p[0] = char(i); if (n) p[n - 1] = char(i);
					live.push_back({ p, n });
					top += r;
				}
				if (!e.ok()) return;
				if (o == 0) std::reverse(live.begin(), live.end());
				size_t left = live.size();
				for (auto& b : live)
				{
					// The top moves back over the newest block and at the end, whatever the blocks still in use add up to
					a.deallocate(b.p, b.n);
					if (b.p + (b.n + 15) / 16 * 16 == base + top) top = size_t(b.p - base);
					if (--left == 0) top = 0;
					e.step();
					if (cap - top < 16) continue;
					char* p = static_cast<char*>(a.allocate(16));
					if (p != base + top) { fail("after freeing %zu bytes the next block is %ld beyond the start instead of %zu", b.n, p ? long(p - base) : -1L, top); break; }
					a.deallocate(p, 16);
				}
				if (!e.ok()) return;
				char* all = static_cast<char*>(a.allocate(cap));
				if (!all) fail("the whole capacity is not available after everything was freed");
				else a.deallocate(all, cap);
				e.step(live.size() + 1);
				if (!e.ok()) return;
			}
			size_t i = 0;
			while (i < k && ++q[i] == sizes.size()) q[i++] = 0;
			if (i == k) break;
		}
	}
	// Many blocks of a bump allocator: the top moves back exactly over the most recent block and at the end
	template<template<size_t> class Kind>
	void bumpMany(Cases& e)
	{
		constexpr size_t N = size_t(1) << 23;
		using A = Kind<N>;
		for (size_t n : counts())
			for (int o = 0; o < ORDERS; o++)
			{
				if (!e.next("%s<%zu>: %zu blocks, freed %s", Placed<A>::name(), N, n, orderName(o))) continue;
				{
					Placed<A> placed;
					A& a = placed.get();
					struct B { char* p; size_t n; };
					std::vector<B> blocks;
					size_t top = 0, live = 0;
					char* base = nullptr;
					auto expectTop = [&](const char* when)
					{
						char* p = static_cast<char*>(a.allocate(5));
						if (!p) fail("allocate(5) failed %s of %zu blocks", when, n);
						else if (p != base + top) fail("the next block is %ld beyond the start instead of %zu, %s of %zu blocks", long(p - base), top, when, n);
						else if (!a.owns(p)) fail("owns() is wrong %s of %zu blocks", when, n);
						else
						{
							a.deallocate(p, 5);
							if (!live) top = 0;
						}
					};
					for (size_t i = 0; i < n && !failed(); i++)
					{
						size_t k = 1 + i * 7 % 40;
						char* p = static_cast<char*>(a.allocate(k));
						if (!p) { fail("block %zu was refused", i); break; }
						if (!base) base = p;
						if (p != base + top) { fail("block %zu is %ld beyond the start instead of %zu", i, long(p - base), top); break; }
						blocks.push_back({ p, k });
						top += (k + 15) / 16 * 16;
						live++;
						if (i + 10 > n) expectTop("after the allocation");
					}
					if (!e.ok()) return;
					size_t step = 0;
					for (size_t i : order(n, o))
					{
						if (failed()) break;
						a.deallocate(blocks[i].p, blocks[i].n);
						if (blocks[i].p + (blocks[i].n + 15) / 16 * 16 == base + top) top = size_t(blocks[i].p - base);
						if (--live == 0) top = 0;
						step++;
						if (step < 10 || step + 10 > n || (step & (step - 1)) == 0) expectTop("after freeing some");
					}
					e.step(2 * n);
					if (!failed() && !a.allocate(N)) fail("the whole capacity is not available after everything was freed");
				}
				if (!e.ok()) return;
			}
	}

	// Many live blocks of a composition: distinct, intact, owned, and everything served again afterwards
	// A second allocator of the type, next to it, owns none of them
	template<class A, class... X>
	void blocks(Cases& e, const char* name, X&&... make)
	{
		struct Hold
		{
			void* mem = ::operator new(sizeof(A) + 64);
			A* a = nullptr;
			~Hold() { if (a && !failed()) a->~A(); ::operator delete(mem); }
		};
		for (size_t n : counts())
			for (int o = 0; o < ORDERS; o++)
			{
				if (!e.next("%s: %zu blocks, freed %s", name, n, orderName(o))) continue;
				mc::world().active(false); // the real heap: ours searches
				{
					Hold h, sibling;
					auto at = [](Hold& x) { return reinterpret_cast<void*>((reinterpret_cast<uintptr_t>(x.mem) + 63) / 64 * 64); };
					h.a = ::new (at(h)) A(make...);
					A& a = *h.a;
					if constexpr (mc::has_owns<A>)
					{
						sibling.a = ::new (at(sibling)) A(make...);
						void* own = sibling.a->allocate(9);
						if (own) sibling.a->deallocate(static_cast<decltype(sibling.a->allocate(9))>(own), 9);
					}
					auto size = [](size_t i) { return 9 + i * 5 % 56; };
					std::vector<char*> out(n, nullptr);
					for (int round = 0; round < 2 && !failed(); round++)
					{
						for (size_t i = 0; i < n && !failed(); i++)
						{
							char* p = static_cast<char*>(static_cast<void*>(a.allocate(size(i))));
							if (!p) { fail("block %zu was refused", i); break; }
							if (reinterpret_cast<uintptr_t>(p) % alignof(std::max_align_t)) { fail("block %zu is at the misaligned address %p", i, static_cast<void*>(p)); break; }
							memset(p, int(i % 251), size(i));
							memcpy(p, &i, sizeof i);
							out[i] = p;
						}
						for (size_t i : order(n, o))
						{
							if (failed()) break;
							size_t was;
							memcpy(&was, out[i], sizeof was);
							if (was != i || (size(i) > 8 && static_cast<unsigned char>(out[i][size(i) - 1]) != i % 251)) { fail("the contents of block %zu are not intact", i); break; }
							if constexpr (mc::has_owns<A>) {
								if (!a.owns(out[i])) { fail("block %zu is not owned while it is live", i); break; }
								if (sibling.a->owns(out[i])) { fail("block %zu is owned by another allocator", i); break; }
							}
							a.deallocate(out[i], size(i));
						}
					}
					e.step(4 * n);
				}
				if (!e.ok()) return;
			}
	}
	template<class A, size_t N>
	void bigBump(Cases& e, size_t k)
	{
		Placed<A> placed;
		std::string name = std::string(placed.name()) + "<" + std::to_string(N) + ">";
		bump(e, placed.get(), name.c_str(), N, { 16, N / 2 / 16 * 16, N / 2 / 16 * 16 + 1, N - 16, N - 8, N, N + 1, size_t(1) << 32, (size_t(1) << 32) - 16 }, k);
	}
	template<size_t N> void bigLinear(Cases& e) { bigBump<ktl::linear_allocator<N>, N>(e, thorough() ? 4 : 3); }
	template<size_t N> void bigStack(Cases& e) { bigBump<ktl::stack_allocator<N>, N>(e, thorough() ? 4 : 3); }

	// Windows of every magnitude: a source that provides a little for any size
	struct Any
	{
		static constexpr size_t ROOM = 8;
		struct Book { size_t asked = 0, returned = 0, wrong = 0; unsigned out = 0; };
		static Book& book() { static Book b; return b; }
		static char (*mem())[16] { alignas(16) static char m[ROOM][16]; return m; }
		void* allocate(size_t n)
		{
			Book& b = book();
			b.asked++;
			if (n != expected()) b.wrong++;
			for (size_t i = 0; i < ROOM; i++) if (!(b.out >> i & 1)) { b.out |= 1u << i; return mem()[i]; }
			return nullptr;
		}
		void deallocate(void* p, size_t n)
		{
			Book& b = book();
			b.returned++;
			if (n != expected()) b.wrong++;
			size_t i = size_t(static_cast<char*>(p) - mem()[0]) / 16;
			if (i >= ROOM || !(b.out >> i & 1)) { fail("a block is given back that is not out"); return; }
			b.out &= ~(1u << i);
		}
		static size_t& expected() { static size_t n = 0; return n; }
		bool operator==(const Any&) const noexcept { return true; }
		bool operator!=(const Any&) const noexcept { return false; }
	};
	// Two requests, freed in either order, then two more, of all sizes around the limits
	template<size_t Min, size_t Max>
	void window(Cases& e)
	{
		std::set<size_t> around;
		for (size_t a : { Min, Max, size_t(0), size_t(256), size_t(65536), size_t(1) << 32, Min / 2 + Max / 2 })
			for (size_t d = 0; d < 3; d++) around.insert(a + d - 1);
		auto in = [](size_t n) { return n > Min && n <= Max; };
		for (size_t x : around)
			for (size_t y : around)
				for (size_t z : around)
				{
					if (failed()) return;
					if (in(x) + in(y) + in(z) < 2 && x != z) continue;
					if (!e.next("freelist<%zu,%zu>: %zu and %zu bytes, freed, then %zu", Min, Max, x, y, z)) continue;
					Any::book() = Any::Book();
					Any::expected() = Max;
					{
						ktl::freelist<Min, Max, Any> f;
						void* a = f.allocate(x);
						void* b = f.allocate(y);
						if ((a != nullptr) != in(x)) fail("allocate(%zu) %s", x, a ? "succeeded" : "failed");
						else if ((b != nullptr) != in(y)) fail("allocate(%zu) %s", y, b ? "succeeded" : "failed");
						else if (a && a == b) fail("the same block was handed out twice");
						else
						{
							if (a) f.deallocate(a, x);
							if (b) f.deallocate(b, y);
							size_t had = size_t(in(x)) + size_t(in(y));
							if (Any::book().asked != had) fail("%zu blocks were asked for instead of %zu", Any::book().asked, had);
							else if (Any::book().returned) fail("a block was given back early");
							else
							{
								void* c = f.allocate(z);
								void* d = f.allocate(z);
								if ((c != nullptr) != in(z) || (d != nullptr) != in(z)) fail("allocate(%zu) %s", z, c ? "succeeded" : "failed");
								else if (c && c == d) fail("the same block was handed out twice");
								else
								{
									size_t want = in(z) ? std::max(had, size_t(2)) : had;
									if (Any::book().asked != want) fail("%zu blocks were asked for instead of %zu, %zu of them had been freed", Any::book().asked, want, had);
									if (c) f.deallocate(c, z);
									if (d) f.deallocate(d, z);
								}
							}
						}
						e.step(8);
					}
					if (!failed() && Any::book().out) fail("a block was never given back");
					if (!failed() && Any::book().wrong) fail("blocks of %zu bytes were asked for or given back as something else", Max);
					if (!e.ok()) return;
				}
	}
	inline void windows(Cases& e)
	{
		constexpr size_t B = size_t(1) << 31, G = size_t(1) << 32, M = ~size_t(0);
		window<0, 64>(e); window<0, 255>(e); window<0, 256>(e); window<0, 1024>(e); window<128, 4096>(e);
		window<255, 256>(e); window<4096, 8192>(e); window<65535, 65536>(e); window<65536, 100000>(e); window<0, 1 << 20>(e);
		window<65535, B>(e); window<B - 1, B>(e); window<B, G>(e); window<G - 1, G>(e); window<16, G + 16>(e); window<G + 16, G + 64>(e); window<0, M>(e); window<M / 2, M>(e); window<M - 8, M - 1>(e);
	}

	// The largest request: served as reported, nothing beyond
	template<class A, size_t N>
	void largest(Cases& e)
	{
		Placed<A> placed;
		A& a = placed.get();
		std::vector<size_t> more{ N + 1, N + 15, N + 16, N + 4096, 2 * N, N + (size_t(1) << 32), ~size_t(0) / 2, ~size_t(0) - 15, ~size_t(0) };
		for (size_t used : { size_t(0), size_t(1), size_t(16), N / 2, N })
		{
			if (!e.next("%s<%zu> with %zu bytes in use", placed.name(), N, used)) continue;
			const A& c = a;
			void* p = used ? a.allocate(used) : nullptr;
			if (used && !p) fail("allocate(%zu) failed", used);
			if (c.max_size() != N) fail("max_size() is %zu", c.max_size());
			for (size_t n : more) if (!failed() && a.allocate(n)) fail("allocate(%zu) succeeded although max_size() is %zu", n, c.max_size());
			if (p) a.deallocate(p, used);
			void* all = failed() ? nullptr : a.allocate(c.max_size());
			if (!failed() && !all) fail("a request of max_size() bytes is refused although nothing is in use");
			if (all) a.deallocate(all, N);
			e.step(more.size() + 2);
			if (!e.ok()) return;
		}
	}

	// Every size: two blocks of it, and a small one behind each
	template<class A>
	void everySize(Cases& e, const char* name, size_t top, size_t apart)
	{
		std::set<size_t> sizes;
		for (size_t n = 0; n <= top; n += apart) for (size_t d = 0; d < 3; d++) sizes.insert(n + d);
		for (int k = 4; k < 20; k++) for (size_t d = 0; d < 37; d++) sizes.insert((size_t(1) << k) + d - 18 + (k == 4 ? 18 : 0));
		Placed<A> placed;
		A& a = placed.get();
		mc::world().active(false);
		for (size_t n : sizes)
		{
			if (!e.next("%s: %zu bytes", name, n)) continue;
			mc::world().active(false);
			struct B { char* p; size_t n; };
			std::vector<B> out;
			for (size_t k : { n, size_t(1), n, size_t(9) })
			{
				char* p = static_cast<char*>(static_cast<void*>(a.allocate(k)));
				if (!p) { if (k) fail("allocate(%zu) failed", k); continue; }
				if (reinterpret_cast<uintptr_t>(p) % alignof(std::max_align_t)) { fail("a block of %zu bytes is at the misaligned address %p", k, static_cast<void*>(p)); break; }
				for (auto& b : out) if (p < b.p + b.n && b.p < p + k) fail("a block of %zu bytes overlaps one of %zu", k, b.n);
				out.push_back({ p, k });
			}
			while (!out.empty()) { if (!failed()) a.deallocate(out.back().p, out.back().n); out.pop_back(); }
			e.step(8);
			if (!e.ok()) return;
		}
	}
}
