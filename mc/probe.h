// Instrumented leaf allocators: they check that what is given back is exactly what was handed out.
#pragma once
#include "mc.h"
#include <type_traits>

namespace mc
{
	struct Pool
	{
		bool inUse = false;
		Area* area = nullptr;
		int id = 0;
		size_t capBytes = 0, capBlocks = 0, maxBlock = 0;
		size_t liveBytes = 0;
		uint64_t allocs = 0, deallocs = 0, refused = 0, constructs = 0, destroys = 0;
		size_t lastSize = 0;   // size of the last request
		bool destroyed = false; // its instance is gone
		int flags = 0;
		int user = -1;          // slot of the allocator it belongs to (harness bookkeeping)
	};
	struct Pools
	{
		Pool p[World::POOLS];
		int used = 0;
		// Which misuses are reported (they belong to specific properties)
		bool strict = true;
		size_t instBytes = 64, instBlocks = 100, instMax = 64; // configuration of default-constructed instances
		int instancesLive = 0, instancesPeak = 0, instancesCreated = 0, instancesDestroyed = 0, destroyedWithBlocks = 0;
		uint64_t log = 0;      // hash of all calls, for comparisons
		bool split = false;
		int actor = 0;         // slot on which the current operation is executed: tags the blocks
		int lastServed = -1;   // pool that served the last successful request
		uint64_t serial = 0;   // number of leaf calls
		unsigned refuse = 0;   // bit k: the k-th request from now on is refused
		bool freshRefused = false; // one of them was to an instance created by this operation
		std::vector<int> tried; // pools asked by the current operation, in order
	};
	inline Pools& pools() { static Pools* s = new Pools(); return *s; }
	inline void reset_pools()
	{
		Pools& s = pools();
		for (int i = 0; i < s.used; i++) s.p[i] = Pool();
		s.used = 0;
		s.instBytes = 64; s.instBlocks = 100; s.instMax = 64;
		s.instancesLive = s.instancesPeak = s.instancesCreated = s.instancesDestroyed = s.destroyedWithBlocks = 0;
		s.lastServed = -1;
		s.split = false;
		s.actor = 0;
		s.serial = 0;
		s.refuse = 0;
		s.tried.clear();
	}
	inline int new_pool(size_t capBytes, size_t capBlocks, size_t maxBlock)
	{
		Pools& s = pools();
		world().onReset = reset_pools;
		// Lowest free id, so that equal states look equal
		// (each side of a lockstep comparison has ids of its own)
		int id = world().side;
		while (s.p[id].inUse && !s.p[id].destroyed) id += s.split ? 2 : 1;
		if (id >= World::POOLS - 1) { fprintf(stderr, "out of pools\n"); _exit(3); }
		if (id >= s.used) s.used = id + 1;
		if (id >= world().poolsUsed) world().poolsUsed = id + 1;
		Pool& p = s.p[id];
		p = Pool();
		p.inUse = true;
		p.id = id;
		p.area = &world().pools[id];
		p.capBytes = capBytes; p.capBlocks = capBlocks; p.maxBlock = maxBlock;
		return id;
	}
	inline void* pool_alloc(int id, size_t n)
	{
		Pools& s = pools();
		Pool& p = s.p[id];
		s.serial++;
		s.tried.push_back(id);
		if (p.destroyed && s.strict) fail("allocate(%zu) on the destroyed part %d", n, id);
		p.lastSize = n;
		bool forced = s.refuse & 1;
		s.refuse >>= 1;
		if (forced)
		{
			p.refused++;
			if (p.user < 0) s.freshRefused = true;
			return nullptr;
		}
		if (n > p.maxBlock || n > p.capBytes || p.liveBytes + n > p.capBytes || p.area->blocks.size() >= p.capBlocks)
		{
			p.refused++;
			return nullptr;
		}
		void* r = p.area->alloc(n, 16, s.actor, 0xCD);
		if (!r) { p.refused++; return nullptr; }
		p.allocs++;
		p.liveBytes += n;
		s.lastServed = id;
		return r;
	}
	inline bool pool_owns(int id, const void* q) { return pools().p[id].area->contains(q); }
	inline void pool_dealloc(int id, void* q, size_t n)
	{
		Pools& s = pools();
		Pool& p = s.p[id];
		s.serial++;
		Area::Block* b = p.area->find(q);
		if (s.strict)
		{
			if (p.destroyed) { fail("deallocate(%p, %zu) on the destroyed part %d", q, n, id); return; }
			if (!b)
			{
				for (int i = 0; i < s.used; i++)
					if (s.p[i].area && s.p[i].area->find(q))
					{
						fail("block %p of %zu bytes obtained from part %d was given back to part %d", q, n, i, id);
						return;
					}
				fail("part %d was given back %p (%zu bytes), which is not one of its live blocks (freed twice, or never handed out)", id, q, n);
				return;
			}
			if (b->user != n) { fail("part %d handed out %zu bytes at %p but was given back %zu bytes", id, b->user, q, n); return; }
		}
		if (!b) return;
		if (s.strict && world().held && world().held(b->p, b->n)) { fail("part %d was given back %p (%zu bytes) while the user still holds a block in it", id, q, n); return; }
		p.deallocs++;
		p.liveBytes -= b->user;
		p.area->release(b);
	}
	inline size_t pools_live()
	{
		size_t n = 0;
		for (int i = 0; i < pools().used; i++) if (pools().p[i].area) n += pools().p[i].area->blocks.size();
		return n;
	}

	enum : int { OWNS = 1, MAXS = 2, CTOR = 4, DTOR = 8, CONS = 12 };

	// What construct/destroy hooks were called (property A14)
	struct HookLog { int constructs = 0, destroys = 0; int pool = -1; void* at = nullptr; };
	inline HookLog& hooks() { static HookLog h; return h; }

	template<int Flags>
	class LeafBase
	{
	public:
		void* allocate(size_t n) noexcept { return pool_alloc(m_Id, n); }
		void deallocate(void* p, size_t n) noexcept { pool_dealloc(m_Id, p, n); }
		template<int F = Flags, typename = std::enable_if_t<(F & OWNS) != 0>>
		bool owns(void* p) const noexcept { return pool_owns(m_Id, p); }
		template<int F = Flags, typename = std::enable_if_t<(F & MAXS) != 0>>
		size_t max_size() const noexcept { return pools().p[m_Id].maxBlock; }
		template<typename T, typename... Args>
		std::enable_if_t<(Flags & CTOR) != 0 && sizeof(T) != 0 && std::is_constructible_v<T, Args...>> construct(T* p, Args&&... args)
		{
			hooks().constructs++;
			hooks().pool = m_Id;
			hooks().at = p;
			pools().p[m_Id].constructs++;
			::new (static_cast<void*>(p)) T(std::forward<Args>(args)...);
		}
		template<typename T>
		std::enable_if_t<(Flags & DTOR) != 0 && sizeof(T) != 0> destroy(T* p)
		{
			hooks().destroys++;
			hooks().pool = m_Id;
			hooks().at = p;
			pools().p[m_Id].destroys++;
			p->~T();
		}
		int id() const { return m_Id; }
	protected:
		int m_Id = -1;
	};

	struct PoolId { int id; };

	// A handle to a pool: copyable, equal iff it refers to the same pool
	template<int Flags>
	class Leaf : public LeafBase<Flags>
	{
	public:
		Leaf(PoolId p) noexcept { this->m_Id = p.id; pools().p[p.id].flags = Flags; }
		Leaf(const Leaf&) noexcept = default;
		Leaf& operator=(const Leaf&) noexcept = default;
		bool operator==(const Leaf& o) const noexcept { return this->m_Id == o.m_Id; }
		bool operator!=(const Leaf& o) const noexcept { return this->m_Id != o.m_Id; }
	};

	// An allocator whose memory lives and dies with the instance, like linear_allocator
	template<int Flags>
	class Inst : public LeafBase<Flags>
	{
	public:
		Inst() noexcept
		{
			Pools& s = pools();
			this->m_Id = new_pool(s.instBytes, s.instBlocks, s.instMax);
			s.p[this->m_Id].flags = Flags;
			s.instancesCreated++;
			if (++s.instancesLive > s.instancesPeak) s.instancesPeak = s.instancesLive;
			m_Self = this;
		}
		explicit Inst(PoolId) noexcept : Inst() {}
		Inst(const Inst&) = delete;
		Inst(Inst&& o) noexcept : Inst() { if (pools().strict && o.live()) fail("an instance with live blocks was moved"); }
		Inst& operator=(const Inst&) = delete;
		Inst& operator=(Inst&& o) noexcept { if (pools().strict && (o.live() || live())) fail("an instance with live blocks was moved"); return *this; }
		~Inst()
		{
			Pools& s = pools();
			if (m_Self != this) { fail("an instance was destroyed that does not exist (destroyed twice?)"); return; }
			m_Self = nullptr;
			if (s.p[this->m_Id].destroyed) { fail("instance %d was destroyed twice", this->m_Id); return; }
			Pool& p = s.p[this->m_Id];
			p.destroyed = true;
			s.instancesLive--;
			if (!p.area->blocks.empty()) s.destroyedWithBlocks++;
			while (!p.area->blocks.empty()) p.area->release(&p.area->blocks.back());
			p.liveBytes = 0;
			s.instancesDestroyed++;
		}
		bool operator==(const Inst& o) const noexcept { return this == &o; }
		bool operator!=(const Inst& o) const noexcept { return this != &o; }
		size_t live() const { return pools().p[this->m_Id].area->blocks.size(); }
	private:
		const void* m_Self;
	};
}
