// The deterministic world KTL runs in: fixed addresses, poisoned red zones, an interposed system heap.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <new>
#include <utility>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(MC_ASAN)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, s) ((void)(a), (void)(s))
#define ASAN_UNPOISON_MEMORY_REGION(a, s) ((void)(a), (void)(s))
#endif
#define NOSAN __attribute__((no_sanitize("address"), noinline))

namespace mc
{
	struct Hash;

	// Records the first failed expectation of the current execution (never throws: it is also called from
	// inside noexcept code)
	void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	bool failed();
	const char* failure();
	void clear_failure();
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)

	// An area of memory at a fixed address, handing out blocks first-fit, with poisoned gaps
	class Area
	{
	public:
		struct Block { char* p; size_t n; int tag; size_t user; };
		char* base = nullptr;
		size_t size = 0;
		size_t high = 0;              // bytes ever touched in this execution
		std::vector<Block> blocks;    // sorted by address
		void init(uintptr_t at, size_t bytes);
		void sub(char* at, size_t bytes) { base = at; size = bytes; high = 0; blocks.reserve(16); }
		void reset();
		void* alloc(size_t n, size_t align, int tag, unsigned char fill, size_t residue = 0);
		Block* find(const void* p);   // block that starts at p
		Block* containing(const void* p);
		void release(Block* b);
		bool contains(const void* p) const { return (const char*)p >= base && (const char*)p < base + size; }
		void key(Hash& h);
	};

	class World
	{
	public:
		Area objects;   // KTL objects under test
		Area sys;       // memory obtained through malloc and friends
		Area sysB;      // the same, for the second system of a lockstep comparison
		int side = 0;   // which of the two is in use
		size_t objShift = 0; // objects under test are placed at this address modulo 64 (as their alignment permits)
		static constexpr int POOLS = 640;
		Area poolSpace; // memory of the instrumented leaf allocators
		Area pools[POOLS];
		int poolsUsed = 0;
		void (*onReset)() = nullptr;
		std::function<bool(const char*, size_t)> held; // does the user hold a block in this range?
		std::vector<std::pair<const char*, size_t>> extra; // statics that may hold blocks
		size_t sysLimit = size_t(1) << 20;  // larger requests are refused, as a real system would
		// fault injection: refuse the requests whose bit is set, counted from `sysCalls` at arming time
		uint64_t failMask = 0;
		unsigned sysCalls = 0, sysArmed = 0, sysRefused = 0;
		size_t sysResidue = 0;              // address residue (modulo 64) of the next blocks
		uint64_t sysAllocs = 0, sysFrees = 0;
		void init();
		void reset();
		void active(bool on);
		bool active() const { return m_Active; }
		void arm(uint64_t mask) { failMask = mask; sysArmed = sysCalls; sysRefused = 0; }
		void disarm() { failMask = 0; }
		void* sys_malloc(size_t n, size_t align);
		void sys_free(void* p);
		size_t sys_live() const { return sys.blocks.size() + sysB.blocks.size(); }
		bool is_sys(const void* p) const { return sys.contains(p) || sysB.contains(p); }
		void key(Hash& h);              // raw image of objects, system blocks and pool blocks
		bool covers(const void* p, size_t n); // [p, p+n) lies inside one block of any area
	private:
		bool m_Active = false;
	};
	World& world();

	// A KTL object under test, in zeroed memory at a deterministic address
	template<class T>
	class Obj
	{
	public:
		Obj() = default;
		Obj(const Obj&) = delete;
		Obj& operator=(const Obj&) = delete;
		~Obj() { if (m_P && !failed()) destroy(); }
		template<class... A>
		T& make(A&&... a)
		{
			reserve();
			m_P = ::new (m_Mem) T(std::forward<A>(a)...);
			return *m_P;
		}
		// fn(memory) constructs the object and returns it
		template<class F>
		T& make_with(F fn)
		{
			reserve();
			try { m_P = fn(m_Mem); }
			catch (...) // there is no object, then
			{
				world().objects.release(world().objects.find(m_Mem));
				m_Mem = nullptr;
				throw;
			}
			return *m_P;
		}
		void destroy()
		{
			T* p = m_P;
			m_P = nullptr;
			p->~T();
			world().objects.release(world().objects.find(m_Mem));
			m_Mem = nullptr;
		}
		explicit operator bool() const { return m_P != nullptr; }
		T& operator*() const { return *m_P; }
		T* operator->() const { return m_P; }
		T* get() const { return m_P; }
	private:
		void reserve()
		{
			m_Mem = world().objects.alloc(sizeof(T), alignof(T), 0, 0, world().objShift / alignof(T) * alignof(T));
		}
		T* m_P = nullptr;
		void* m_Mem = nullptr;
	};
}
