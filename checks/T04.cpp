// PARTS: 4
// T04: allocators and containers that share nothing do not affect each other when used by different threads
#include "threadconf.h"
#include <atomic>
using namespace tc;
namespace
{
	// What one thread owns: it is created, used and destroyed by that thread alone.  step() returns what was observed.
	template<class X, bool Moves> struct AllocBox
	{
		static constexpr int N = 8;
		static const char* name(int op) { static const char* s[] = { "allocate(16)", "allocate(30)", "free newest", "free oldest", "ask", "construct, destroy", "move to a new object", "allocate too much" }; return s[op]; }
		Log log;
		ktl::stack<96> block;
		X* a = nullptr;
		Held held[8];
		int m = 0, serial = 0;
		template<class... A> static X* made(A&... args)
		{
			if constexpr (std::is_constructible_v<X, ktl::stack<96>&>) return sched::make<X>(std::get<1>(std::tie(args...)));
			else if constexpr (std::is_constructible_v<X, Log&>) return sched::make<X>(std::get<0>(std::tie(args...)));
			else return sched::make<X>();
		}
		AllocBox() { a = made(log, block); }
		long get(size_t n)
		{
			void* p = take(*a, n);
			if (!p) return 0;
			if (m == 8) fail("the harness holds too many blocks");
			if (!sched::live(p, n)) fail("a block of %zu bytes is not inside usable memory", n);
			int v = ++serial;
			for (int i = 0; i < m; i++)
			{
				const char* x = static_cast<const char*>(p);
				const char* y = static_cast<const char*>(held[i].p);
				if (x < y + held[i].n && y < x + n) fail("a new block overlaps one that is held");
			}
			fill(p, n, v);
			held[m++] = Held{ p, n, v };
			return 1;
		}
		void put(Held x) { verify(x.p, x.n, x.v, "held by this thread"); fill(x.p, x.n, 0x55); give(*a, x.p, x.n); }
		long step(int op)
		{
			switch (op)
			{
			case 0: return get(16);
			case 1: return get(Unit<X>::value > 1 ? 32 : 30);
			case 2: if (!m) return -1; m--; put(held[m]); return 1;
			case 3:
			{
				if (!m) return -1;
				Held x = held[0];
				for (int j = 1; j < m; j++) held[j - 1] = held[j];
				m--;
				put(x);
				return 1;
			}
			case 4:
			{
				long r = 0;
				const X& c = *a;
				if constexpr (HasOwns<X>::value)
				{
					for (int i = 0; i < m; i++) if (!owns(c, held[i].p)) fail("owns() denies a block that this thread holds");
					if (owns(c, static_cast<void*>(&serial))) fail("owns() claims memory of somebody else");
				}
				if constexpr (HasMax<X>::value) r = long(c.max_size());
				if (!(c == c) || c != c) fail("an allocator does not equal itself");
				return r;
			}
			case 5:
			{
				if (!m) return -1;
				Held& x = held[m - 1];
				Item* it = static_cast<Item*>(x.p);
				if constexpr (HasConstruct<X>::value) a->construct(it, 7, serial); else ::new (static_cast<void*>(it)) Item(7, serial);
				if (it->x != 7 || it->y != serial) fail("construct() did not construct");
				asm volatile("" ::: "memory"); // what construct() did must not be undone by the compiler
				if constexpr (HasDestroy<X>::value) a->destroy(it); else it->~Item();
				fill(x.p, x.n, x.v);
				return 1;
			}
			case 6:
				if constexpr (std::is_move_constructible_v<X>)
				{
					if (m || (!Moves && serial)) return -1; // raw allocators in use cannot be moved
					X* b = sched::make<X>(std::move(*a));
					sched::destroy(a);
					a = b;
					return 1;
				}
				return -1;
			case 7: return get(240);
			}
			return 0;
		}
		~AllocBox()
		{
			while (m) { m--; put(held[m]); }
			sched::destroy(a);
			if (log.lines) fail("an error is reported, although there was none");
		}
	};
	using IntShared = ktl::type_shared_linear_allocator<int, 4096>;
	struct VectorBox
	{
		static constexpr int N = 8;
		static const char* name(int op) { static const char* s[] = { "push_back", "emplace in front", "pop_back", "erase first", "copy and compare", "reserve", "resize", "assign from a copy" }; return s[op]; }
		IntShared al;
		ktl::trivial_vector<int, IntShared> v{ al };
		int serial = 0;
		long sum() const { long s = long(v.size()); for (int x : v) s = s * 7 + x; return s; }
		long step(int op)
		{
			switch (op)
			{
			case 0: v.push_back(++serial); break;
			case 1: v.emplace(v.begin(), ++serial); break;
			case 2: if (!v.empty()) return v.pop_back(); break;
			case 3: if (!v.empty()) v.erase(v.begin()); break;
			case 4: { ktl::trivial_vector<int, IntShared> w(v); if (w.size() != v.size()) fail("the copy has another size"); for (size_t i = 0; i < v.size(); i++) if (w[i] != v[i]) fail("the copy has other elements"); } break;
			case 5: v.reserve(v.size() + 3); break;
			case 6: { size_t n = v.size(); v.resize(n + 2); v[n] = ++serial; v[n + 1] = ++serial; } break;
			case 7: { ktl::trivial_vector<int, IntShared> w(v); w.push_back(++serial); v = w; } break;
			}
			return sum();
		}
	};
	struct ArrayBox
	{
		static constexpr int N = 5;
		static const char* name(int op) { static const char* s[] = { "resize +1", "resize to 2", "assign", "copy", "move" }; return s[op]; }
		IntShared al;
		ktl::trivial_array<int, IntShared> v{ size_t(2), 5, al };
		int serial = 0;
		long step(int op)
		{
			switch (op)
			{
			case 0: { size_t n = v.size(); v.resize(n + 1); v[n] = ++serial; } break;
			case 1: { size_t n = v.size(); v.resize(2); for (size_t i = n; i < 2; i++) v[i] = ++serial; } break;
			case 2: { int x[3] = { ++serial, ++serial, ++serial }; v.assign(x, x + 3); } break;
			case 3: { ktl::trivial_array<int, IntShared> w(v); w[0] = ++serial; v = w; } break;
			case 4: { ktl::trivial_array<int, IntShared> w(std::move(v)); v = std::move(w); } break;
			}
			long s = long(v.size());
			for (int x : v) s = s * 7 + x;
			return s;
		}
	};
	struct BufferBox
	{
		static constexpr int N = 3;
		static const char* name(int op) { static const char* s[] = { "write", "copy", "read rolling" }; return s[op]; }
		ktl::trivial_buffer<int, 5> b{};
		int serial = 0;
		BufferBox() { for (size_t i = 0; i < 5; i++) b[i] = 0; }
		long step(int op)
		{
			switch (op)
			{
			case 0: serial++; b[size_t(serial)] = serial; break;
			case 1: { ktl::trivial_buffer<int, 5> c(b); c[2] = ++serial; b = c; } break;
			case 2: break;
			}
			long s = 0;
			for (size_t i = 0; i < 11; i++) s = s * 3 + b[i];
			return s;
		}
	};
	template<class H> struct HeapBox
	{
		static constexpr int N = 6;
		static const char* name(int op) { static const char* s[] = { "insert low", "insert high", "pop", "find", "copy", "move" }; return s[op]; }
		IntShared al;
		H h{ al };
		int serial = 0;
		long step(int op)
		{
			long r = 0;
			switch (op)
			{
			case 0: h.insert(100 - ++serial); break;
			case 1: h.insert(100 + ++serial); break;
			case 2: if (!h.empty()) r = h.pop(); break;
			case 3: r = h.find(101) != h.end(); break;
			case 4: { H g(h); g.insert(50); h = g; } break;
			case 5: { H g(std::move(h)); h = std::move(g); } break;
			}
			return r * 1000 + long(h.size()) * 200 + (h.empty() ? 0 : h.peek());
		}
	};
	struct PackedBox
	{
		static constexpr int N = 3;
		static const char* name(int op) { static const char* s[] = { "set pointer", "set integer", "copy" }; return s[op]; }
		ktl::packed_ptr<long*, 2, 8> p;
		long target[2] = {};
		int serial = 0;
		PackedBox() : p(target, 0u) {}
		long step(int op)
		{
			switch (op)
			{
			case 0: serial++; p.set_ptr(target + serial % 2); break;
			case 1: p.set_int(unsigned(++serial % 4)); break;
			case 2: { auto q = p; p = q; } break;
			}
			return (p.get_ptr() - target) * 10 + long(p.template get_int<unsigned>());
		}
	};
	template<class Box> struct Apart : sched::Test
	{
		int n = 2, k = 2;
		int ops[3][4];
		Box* box[3];
		long seen[3][4];
		std::atomic<int>* tick[3]; // one per thread: a point at which the others may go on
		int threads() const override { return n; }
		int steps(int) const override { return k + 2; }
		void setup() override { for (int t = 0; t < n; t++) { box[t] = nullptr; tick[t] = sched::make<std::atomic<int>>(0); } }
		void step(int t, int i) override
		{
			tick[t]->fetch_add(1, std::memory_order_relaxed);
			if (i == 0) box[t] = sched::make<Box>();
			else if (i == k + 1) { sched::destroy(box[t]); box[t] = nullptr; }
			else seen[t][i - 1] = box[t]->step(ops[t][i - 1]);
		}
		void finish() override
		{
			// each thread must have seen what it would have seen alone
			for (int t = 0; t < n; t++)
			{
				Box* b = sched::make<Box>();
				for (int i = 0; i < k; i++)
				{
					long r = b->step(ops[t][i]);
					if (r != seen[t][i]) fail("thread %d observed %ld at '%s', alone it observes %ld", t + 1, seen[t][i], Box::name(ops[t][i]), r);
				}
				sched::destroy(b);
			}
			for (int t = 0; t < n; t++) sched::destroy(tick[t]);
			if (size_t left = sched::blocks()) fail("%zu blocks of system memory were not returned", left);
		}
		std::string describe(int t, int i) const override { return i == 0 ? "create" : i == k + 1 ? "destroy" : Box::name(ops[t][i - 1]); }
		std::string describe() const override
		{
			std::string s = "each on its own: ";
			for (int t = 0; t < n; t++) { s += t ? " || " : ""; for (int i = 0; i < k; i++) s += (i ? "; " : "") + std::string(Box::name(ops[t][i])); }
			return s;
		}
	};
	template<class Box> void shape(const std::string& name, int threads, int steps, int preemptions = -1)
	{
		sched::add(name + ", " + std::to_string(threads) + " threads x " + std::to_string(steps) + (preemptions < 0 ? "" : ", at most " + std::to_string(preemptions) + " preemptions"), [=](sched::Explorer& e)
		{
			Apart<Box> p;
			p.n = threads; p.k = steps; p.reference = false; p.preemptions = preemptions;
			long per = 1, count = 1;
			for (int i = 0; i < steps; i++) per *= Box::N;
			for (int t = 0; t < threads; t++) count *= per;
			for (long c = 0; c < count; c++)
			{
				long r = c, last = -1;
				bool sorted = true;
				for (int t = 0; t < threads; t++)
				{
					long mine = r % per;
					r /= per;
					if (mine < last) { sorted = false; break; } // the threads in another order are the same program
					last = mine;
					for (int i = 0; i < steps; i++) { p.ops[t][i] = int(mine % Box::N); mine /= Box::N; }
				}
				if (sorted && !e.run(p) && e.stop()) return;
			}
		});
	}
	// What is done only once in a process (if anything) must not depend on who does it first: every pair of operations is
	// the first use in a process of its own
	template<class Box> void first(const std::string& name)
	{
		for (int x = 0; x < Box::N; x++)
			for (int y = x; y < Box::N; y++)
				for (int before : { -1, 0 })
					sched::add(name + ", first in the process" + (before < 0 ? ", " : " after another operation, ") + std::to_string(x) + " and " + std::to_string(y), [=](sched::Explorer& e)
					{
						Apart<Box> p;
						p.n = 2; p.k = before < 0 ? 1 : 2; p.reference = false; p.preemptions = 2;
						for (int t = 0; t < 2; t++) { p.ops[t][0] = 0; p.ops[t][p.k - 1] = t ? y : x; }
						e.run(p);
					});
	}
	template<class Box> void apart(const char* name)
	{
		first<Box>(name);
		shape<Box>(name, 2, 2, sched::thorough() ? 6 : 2);
		shape<Box>(name, 3, 1, 2);
		shape<Box>(name, 2, 3);
		if (sched::thorough()) { shape<Box>(name, 3, 2); shape<Box>(name, 2, 3, 2); }
	}
	template<class X, bool Moves = false> void alloc(const char* name) { apart<AllocBox<X, Moves>>(name); }
}
SCHED_SUITES
{
#if MC_PART == 0
	alloc<Linear>("linear");
	alloc<ktl::stack_allocator<96>, true>("stack");
	alloc<ktl::mallocator, true>("mallocator");
	alloc<ktl::null_allocator>("null");
	alloc<Free>("freelist<linear>");
	alloc<FreeMalloc, true>("freelist<mallocator>");
	alloc<ktl::shared<Linear>, true>("shared<linear>");
	alloc<ktl::atomic_shared<Linear>, true>("atomic_shared<linear>");
#elif MC_PART == 1
	alloc<FallBound>("fallback<linear, linear>");
	alloc<Seg>("segragator<linear, linear>");
	alloc<Fall>("fallback<linear, mallocator>");
	alloc<ktl::threaded<Linear>>("threaded<linear>");
	alloc<ktl::threaded<Casc>>("threaded<cascading<linear>>");
	alloc<ktl::type_shared_threaded<long, Linear>>("type_shared_threaded<long, linear>");
#elif MC_PART == 2
	alloc<Casc, true>("cascading<linear>");
	alloc<FreeCasc, true>("freelist<cascading<linear>>");
	alloc<Over>("overflow<linear>");
	alloc<ktl::overflow<ktl::mallocator, Log>, true>("overflow<mallocator>");
	alloc<ktl::shared<ktl::overflow<Casc, Log>>, true>("shared<overflow<cascading<linear>>>");
	alloc<ktl::type_shared_linear_allocator<long, 96>>("type_shared<long, linear>");
#else
	apart<VectorBox>("trivial_vector");
	apart<ArrayBox>("trivial_array");
	apart<BufferBox>("trivial_buffer");
	apart<HeapBox<ktl::binary_heap<int, std::less<int>, IntShared>>>("binary_heap, less");
	apart<HeapBox<ktl::binary_heap<int, std::greater<int>, IntShared>>>("binary_heap, greater");
	apart<PackedBox>("packed_ptr");
#endif
}
