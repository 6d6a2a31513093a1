// PARTS: 3
// T02: an atomically shared allocator is destroyed once, after all uses
#include "threadconf.h"
using namespace tc;
namespace
{
	enum Op { USEA, USEB, COPY, MOVE, BACK, DROPA, DROPB, COMMON, SELF, SWAP, REBIND, SAME, N };

	// The instance behind the handles: every thread writes to a place of its own in it, without any synchronisation, so
	// that a destruction that is not ordered behind all uses races with them.
	struct Events { int made[3], destroyed[3]; };
	Events* events = nullptr;
	struct Probe
	{
		int id, magic;
		int used[sched::MAXT];
		long buffer[sched::MAXT];
		explicit Probe(int i) : id(i), magic(0x600D), used{}, buffer{} { events->made[i]++; }
		Probe(const Probe&) = delete;
		~Probe()
		{
			if (magic != 0x600D) fail("an instance is destroyed twice");
			magic = 0xDEAD;
			for (int& u : used) u = -1;
			for (long& u : buffer) u = -1;
			events->destroyed[id]++;
		}
		bool operator==(const Probe& o) const { return this == &o; }
		bool operator!=(const Probe& o) const { return this != &o; }
		// how threads use it: memory of their own
		int who = 0;
		void* allocate(size_t) { return nullptr; }
		void deallocate(void*, size_t) {}
		void touch(int t)
		{
			if (magic != 0x600D) fail("an instance is used after it was destroyed");
			used[t]++;
			buffer[t] += 3;
		}
	};
	// The same behind a lock, used through allocate and deallocate
	struct Counting
	{
		Probe p;
		int live = 0;
		explicit Counting(int i) : p(i) {}
		~Counting() { if (live) fail("an instance is destroyed while it has live blocks"); }
		bool operator==(const Counting& o) const { return this == &o; }
		bool operator!=(const Counting& o) const { return this != &o; }
		void* allocate(size_t n) { p.touch(0); live++; return std::malloc(n); }
		void deallocate(void* q, size_t) { p.touch(0); live--; std::free(q); }
	};
	struct Raw
	{
		using H = ktl::atomic_shared<Probe>;
		using Other = H;
		static void use(H& h, int t) { h.get_allocator().touch(t); }
		static bool alive(H& h) { return h.get_allocator().magic == 0x600D; }
		static const char* name() { return "atomic_shared<probe>"; }
		static constexpr bool useAtEnd = true;
		static std::vector<Op> two() { std::vector<Op> all; for (int o = 0; o < N; o++) all.push_back(Op(o)); return all; }
		static std::vector<Op> three(bool groups) { return groups ? std::vector<Op>{ USEA, COPY, MOVE, BACK, DROPA, DROPB, COMMON } : two(); }
		static std::vector<Op> deep(bool) { return { COPY, MOVE, DROPA, DROPB, COMMON }; }
	};
	template<class Handle> void through(Handle& h)
	{
		auto p = h.allocate(sizeof(long));
		if (!p) fail("allocate() failed");
		*reinterpret_cast<char*>(p) = 1;
		h.deallocate(p, sizeof(long));
	}
	struct Locked
	{
		using H = ktl::atomic_shared<ktl::threaded<Counting>>;
		using Other = H;
		static void use(H& h, int) { through(h); }
		static const char* name() { return "atomic_shared<threaded<counting>>"; }
		static constexpr bool useAtEnd = false;
		static std::vector<Op> two() { return { USEA, USEB, COPY, MOVE, BACK, DROPA, DROPB, COMMON, SWAP, SAME }; }
		static std::vector<Op> three(bool groups) { return groups ? std::vector<Op>{ USEA, USEB, COPY, MOVE, DROPA } : two(); }
		static std::vector<Op> deep(bool groups) { return groups ? std::vector<Op>{ USEA, USEB, MOVE } : std::vector<Op>{ USEA, USEB, COPY, DROPA, DROPB }; }
	};
	struct Typed
	{
		using H = ktl::type_allocator<long, ktl::atomic_shared<Probe>>;
		using Other = ktl::type_allocator<char, ktl::atomic_shared<Probe>>;
		static void use(H& h, int t) { h.get_allocator().get_allocator().touch(t); }
		static const char* name() { return "type_atomic_shared<long, probe>"; }
		static constexpr bool useAtEnd = true;
		static std::vector<Op> two() { return { USEA, COPY, MOVE, REBIND, DROPA, SAME, COMMON }; }
		static std::vector<Op> three(bool groups) { return groups ? std::vector<Op>{ COPY, MOVE } : two(); }
		static std::vector<Op> deep(bool groups) { return groups ? std::vector<Op>{ MOVE, BACK, DROPA, DROPB } : std::vector<Op>{ COPY, MOVE, DROPA, COMMON }; }
	};

	const char* const TEXT[] = { "use a", "use b", "b = a", "b = move(a)", "a = b", "drop a", "drop b", "b = common", "a = a", "swap(a, b)", "rebind a", "a == b" };
	constexpr int NONE = -1, MOVED = -2;
	// what the two slots of a thread hold; group 0, 1, or nothing
	struct Slots { int a = 0, b = NONE; };
	bool apply(Op o, Slots& s, bool common)
	{
		switch (o)
		{
		case USEA: return s.a >= 0;
		case USEB: return s.b >= 0;
		case COPY: if (s.a < 0) return false; s.b = s.a; return true;
		case MOVE: if (s.a < 0) return false; s.b = s.a; s.a = MOVED; return true;
		case BACK: if (s.b < 0 || s.a == NONE) return false; s.a = s.b; return true;
		case DROPA: if (s.a == NONE) return false; s.a = NONE; return true;
		case DROPB: if (s.b == NONE) return false; s.b = NONE; return true;
		case COMMON: if (!common) return false; s.b = 0; return true;
		case SELF: return s.a >= 0;
		case SWAP: if (s.a == NONE || s.b == NONE) return false; std::swap(s.a, s.b); return true;
		case REBIND: return s.a >= 0;
		case SAME: return s.a >= 0 && s.b >= 0;
		default: return false;
		}
	}
	struct Config { const char* name; bool keep; int b; int groups; };
	const Config CONFIGS[] = {
		{ "main thread has dropped its handle", false, NONE, 1 },
		{ "main thread keeps its handle", true, NONE, 1 },
		{ "two instances, main thread has dropped its handles", false, 1, 2 },
		{ "two instances, main thread keeps one handle", true, 1, 2 },
	};
	constexpr size_t MANY = 260;
	template<class K> struct Prog : sched::Test
	{
		using H = typename K::H;
		size_t more = 0; // handles of instance 0 that the main thread holds besides
		static H* pile(size_t i) { alignas(H) static unsigned char mem[MANY * sizeof(H)]; return reinterpret_cast<H*>(mem) + i; }
		const Config* c = nullptr;
		int n = 0, k = 0;
		Op ops[3][4];
		H* a[3];
		H* b[3];
		H* common;
		Slots slots[3];
		int threads() const override { return n; }
		int steps(int) const override { return k; }
		void setup() override
		{
			events = sched::make<Events>();
			memset(events, 0, sizeof *events);
			H* g[2] = {};
			for (int i = 0; i < c->groups; i++) g[i] = sched::make<H>(i);
			for (int t = 0; t < n; t++)
			{
				slots[t] = Slots{ 0, c->b };
				a[t] = sched::make<H>(*g[0]);
				b[t] = c->b == NONE ? nullptr : sched::make<H>(*g[c->b]);
			}
			for (size_t i = 0; i < more; i++) ::new (pile(i)) H(*g[0]);
			common = nullptr;
			for (int i = 0; i < c->groups; i++) { if (i == 0 && c->keep) common = g[0]; else sched::destroy(g[i]); }
		}
		void assign(H*& to, const H& from) { if (to) *to = from; else to = sched::make<H>(from); }
		void step(int t, int i) override
		{
			switch (ops[t][i])
			{
			case USEA: K::use(*a[t], t); break;
			case USEB: K::use(*b[t], t); break;
			case COPY: assign(b[t], *a[t]); break;
			case MOVE: if (b[t]) *b[t] = std::move(*a[t]); else b[t] = sched::make<H>(std::move(*a[t])); break;
			case BACK: *a[t] = *b[t]; break;
			case DROPA: sched::destroy(a[t]); a[t] = nullptr; break;
			case DROPB: sched::destroy(b[t]); b[t] = nullptr; break;
			case COMMON: assign(b[t], *common); break;
			case SELF: { H& self = *a[t]; self = *a[t]; break; }
			case SWAP: std::swap(*a[t], *b[t]); break;
			case REBIND: { typename K::Other other(*a[t]); H again(other); K::use(again, t); break; }
			case SAME:
			{
				bool eq = *a[t] == *b[t], ne = *a[t] != *b[t];
				Slots s{ 0, c->b };
				for (int j = 0; j < i; j++) apply(ops[t][j], s, c->keep);
				if (eq != (s.a == s.b) || ne == eq) fail("handles of %s instance compare wrongly", s.a == s.b ? "one" : "another");
				break;
			}
			default: break;
			}
		}
		void end(int t) override
		{
			// what it holds can be used to the end
			Slots s{ 0, c->b };
			for (int j = 0; j < k; j++) apply(ops[t][j], s, c->keep);
			if (K::useAtEnd && s.a >= 0) K::use(*a[t], t);
			if (K::useAtEnd && s.b >= 0) K::use(*b[t], t);
			if (a[t]) { sched::destroy(a[t]); a[t] = nullptr; }
			if (b[t]) { sched::destroy(b[t]); b[t] = nullptr; }
		}
		void finish() override
		{
			for (int g = 0; g < c->groups; g++)
			{
				int expect = g == 0 && (common || more) ? 0 : 1;
				if (events->destroyed[g] != expect) fail("instance %d was destroyed %d times when all threads had ended, although %s", g, events->destroyed[g], expect ? "no handle was left" : "the main thread has a handle");
			}
			for (size_t i = 0; i < more; i++)
			{
				K::use(*pile(i), 3);
				pile(i)->~H();
				int expect = common || i + 1 < more ? 0 : 1;
				if (events->destroyed[0] != expect) { fail("the instance was destroyed %d times when %zu handles were left", events->destroyed[0], more - i - 1 + (common != nullptr)); break; }
			}
			if (common)
			{
				K::use(*common, 3);
				sched::destroy(common);
				common = nullptr;
				if (events->destroyed[0] != 1) fail("instance 0 was destroyed %d times when the last handle was gone", events->destroyed[0]);
			}
			sched::destroy(events);
			if (size_t left = sched::blocks()) fail("%zu blocks of memory were not returned", left);
		}
		std::string describe(int t, int i) const override { return TEXT[ops[t][i]]; }
		std::string describe() const override
		{
			std::string s = std::string(K::name()) + ", " + c->name + ": ";
			if (more) s = std::to_string(more) + " more handles, " + s;
			for (int t = 0; t < n; t++) { s += t ? " || " : ""; for (int i = 0; i < k; i++) s += (i ? "; " : "") + std::string(TEXT[ops[t][i]]); }
			return s;
		}
	};
	template<class K> void explore(sched::Explorer& e, const Config& c, int threads, int steps, const std::vector<Op>& ops, size_t more = 0)
	{
		Prog<K> p;
		p.more = more;
		p.c = &c; p.n = threads; p.k = steps;
		std::vector<std::vector<Op>> seqs;
		long count = 1, base = long(ops.size());
		for (int i = 0; i < steps; i++) count *= base;
		for (long q = 0; q < count; q++)
		{
			std::vector<Op> s;
			long r = q;
			Slots x{ 0, c.b };
			bool ok = true;
			for (int i = 0; i < steps; i++) { s.push_back(ops[size_t(r % base)]); r /= base; ok = ok && apply(s.back(), x, c.keep); }
			if (ok) seqs.push_back(s);
		}
		if (seqs.empty()) return;
		std::vector<size_t> pick(size_t(threads), 0);
		for (;;)
		{
			bool sorted = true;
			for (int t = 1; t < threads; t++) if (pick[size_t(t)] < pick[size_t(t - 1)]) sorted = false;
			if (sorted)
			{
				for (int t = 0; t < threads; t++) for (int i = 0; i < steps; i++) p.ops[t][i] = seqs[pick[size_t(t)]][size_t(i)];
				if (!e.run(p) && e.stop()) return;
			}
			int t = 0;
			while (t < threads && ++pick[size_t(t)] == seqs.size()) pick[size_t(t++)] = 0;
			if (t == threads) return;
		}
	}
	template<class K> void suites()
	{
		for (const Config& c : CONFIGS)
		{
			std::string n = std::string(K::name()) + ", " + c.name;
			const Config* pc = &c;
			const bool groups = c.groups > 1, th = sched::thorough();
			std::vector<Op> all;
			for (int o = 0; o < N; o++) all.push_back(Op(o));
			// the first use in a process: every pair of operations of two threads, each in a process of its own
			for (Op a : all) for (Op b : all)
			{
				Slots x{ 0, c.b }, y = x;
				if (b < a || !apply(a, x, c.keep) || !apply(b, y, c.keep)) continue;
				sched::add(n + ", first in the process, " + std::to_string(int(a)) + " and " + std::to_string(int(b)), [=](sched::Explorer& e)
				{
					Prog<K> p;
					p.c = pc; p.n = 2; p.k = 1;
					p.ops[0][0] = a; p.ops[1][0] = b;
					e.run(p);
				});
			}
			sched::add(n + ", 2 threads x 2", [=](sched::Explorer& e) { explore<K>(e, *pc, 2, 2, th ? all : K::two()); });
			sched::add(n + ", 3 threads x 1", [=](sched::Explorer& e) { explore<K>(e, *pc, 3, 1, th ? all : K::three(groups)); });
			sched::add(n + ", 2 threads x 3", [=](sched::Explorer& e) { explore<K>(e, *pc, 2, 3, th ? all : K::deep(groups)); });
			// as many handles as a byte has values (more, without threads: A12)
			if (!groups)
				sched::add(n + ", many handles, 2 threads x 1", [=](sched::Explorer& e)
				{
					const size_t own = pc->keep ? 3 : 2; // and those of the threads
					for (size_t total : { size_t(256), size_t(257) }) { explore<K>(e, *pc, 2, 1, { USEA, COPY, DROPA }, total - own); if (e.stop()) return; }
				});
			if (sched::thorough()) sched::add(n + ", 3 threads x 2", [=](sched::Explorer& e) { explore<K>(e, *pc, 3, 2, { COPY, MOVE, BACK, DROPA, DROPB, COMMON }); });
		}
	}
}
SCHED_SUITES
{
#if MC_PART == 0
	suites<Raw>();
#elif MC_PART == 1
	suites<Locked>();
#else
	suites<Typed>();
#endif
}
