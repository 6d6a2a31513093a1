// The allocator compositions the allocator properties are checked on.
// A configuration builds the allocator under test (and whatever it needs) in the deterministic world.
#pragma once
#include "mc.h"
#include "probe.h"
#include <ktl/ktl.h>
#include <string_view>

namespace conf
{
	using mc::Obj;
	using mc::Leaf;
	using mc::Inst;
	using mc::OWNS;
	using mc::MAXS;
	using mc::CONS;
	constexpr size_t INF = ~size_t(0);

	// A stream that only collects text (deterministic: it lives in the world and holds no pointers)
	struct Text
	{
		size_t n = 0;
		uint64_t lines = 0;
		char s[4096 - 16];
		Text() { s[0] = 0; }
		void put(const char* c, size_t k) { for (size_t i = 0; i < k && n + 1 < sizeof s; i++) { if (c[i] == '\n') lines++; s[n++] = c[i]; } s[n] = 0; }
		Text& operator<<(const char* c) { put(c, strlen(c)); return *this; }
		Text& operator<<(const std::string& c) { put(c.data(), c.size()); return *this; }
		Text& operator<<(std::string_view c) { put(c.data(), c.size()); return *this; }
		Text& operator<<(char c) { put(&c, 1); return *this; }
		Text& operator<<(const void* p) { char b[32]; put(b, size_t(snprintf(b, sizeof b, "%p", p))); return *this; }
		Text& operator<<(void* p) { return *this << static_cast<const void*>(p); }
		template<class I, typename = std::enable_if_t<std::is_integral_v<I>>>
		Text& operator<<(I i)
		{
			char b[32];
			if constexpr (std::is_signed_v<I>) put(b, size_t(snprintf(b, sizeof b, "%lld", (long long)i)));
			else put(b, size_t(snprintf(b, sizeof b, "%llu", (unsigned long long)i)));
			return *this;
		}
		void write(const char* c, size_t k) { put(c, k); }
		void flush() {}
		Text& operator<<(Text& (*)(Text&)) { return *this; }
		std::string str() const { return std::string(s, n); }
		void clear() { memset(static_cast<void*>(this), 0, sizeof *this); }
	};

	// Default-constructible allocators
	template<class Alloc, size_t HardMax>
	struct Plain
	{
		using A = Alloc;
		static constexpr size_t hardMax = HardMax;
		Obj<A> a;
		Plain() { a.make(); }
		A& get() { return *a; }
		void destroy() { a.destroy(); }
		void key(mc::Hash&) {}
		std::string diagnostics() { return ""; }
	};
	// Stack allocators need a stack
	template<size_t N, class Wrap>
	struct Stack
	{
		using A = typename Wrap::type;
		static constexpr size_t hardMax = Wrap::hardMax ? Wrap::hardMax : N;
		Obj<ktl::stack<N>> block;
		Obj<A> a;
		Stack() { block.make(); a.make_with([this](void* m) { return Wrap::make(m, *block); }); }
		A& get() { return *a; }
		void destroy() { a.destroy(); block.destroy(); }
		void key(mc::Hash&) {}
		std::string diagnostics() { return ""; }
	};
	template<size_t N> struct StackDirect
	{
		using type = ktl::stack_allocator<N>;
		static constexpr size_t hardMax = 0;
		static type* make(void* m, ktl::stack<N>& s) { return ::new (m) type(s); }
	};
	template<size_t N> struct StackInFreelist
	{
		using type = ktl::freelist<0, 24, ktl::stack_allocator<N>>;
		static constexpr size_t hardMax = 24;
		static type* make(void* m, ktl::stack<N>& s) { return ::new (m) type(s); }
	};
	template<size_t N> struct StackInFallback
	{
		using type = ktl::fallback<ktl::stack_allocator<N>, ktl::mallocator>;
		static constexpr size_t hardMax = INF;
		static type* make(void* m, ktl::stack<N>& s) { return ::new (m) type(s); }
	};
	template<size_t N> struct StackInShared
	{
		using type = ktl::shared<ktl::stack_allocator<N>>;
		static constexpr size_t hardMax = 0;
		static type* make(void* m, ktl::stack<N>& s) { return ::new (m) type(s); }
	};
	// References need their target
	template<class Target, size_t HardMax>
	struct Ref
	{
		using A = ktl::reference<Target>;
		static constexpr size_t hardMax = HardMax;
		Obj<Target> t;
		Obj<A> a;
		Ref() { t.make(); a.make(*t); }
		A& get() { return *a; }
		void destroy() { a.destroy(); t.destroy(); }
		void key(mc::Hash&) {}
		std::string diagnostics() { return ""; }
	};
	// Global handles: the static instance is rebuilt for every execution
	template<class Target, size_t HardMax>
	struct Glob
	{
		using A = ktl::global<Target>;
		static constexpr size_t hardMax = HardMax;
		Obj<A> a;
		Glob()
		{
			a.make();
			rebuild();
			mc::world().extra.emplace_back(reinterpret_cast<const char*>(&a->get_allocator()), sizeof(Target));
		}
		void rebuild()
		{
			Target& t = a->get_allocator();
			t.~Target();
			memset(static_cast<void*>(&t), 0, sizeof t);
			::new (static_cast<void*>(&t)) Target();
		}
		A& get() { return *a; }
		void destroy() { rebuild(); a.destroy(); }
		void key(mc::Hash& h) { h.bytes(&a->get_allocator(), sizeof(Target)); }
		std::string diagnostics() { return ""; }
	};
	// Overflow allocators write to a stream
	template<class Under, size_t HardMax>
	struct Over
	{
		using A = ktl::overflow<Under, Text>;
		static constexpr size_t hardMax = HardMax;
		Obj<Text> text;
		Obj<A> a;
		Over() { a.make(text.make()); }
		A& get() { return *a; }
		void destroy() { a.destroy(); }
		void key(mc::Hash&) {}
		std::string diagnostics() { return text->str(); }
	};
	template<class Wrapped, size_t HardMax>
	struct OverIn   // overflow nested in another allocator
	{
		using A = Wrapped;
		static constexpr size_t hardMax = HardMax;
		Obj<Text> text;
		Obj<A> a;
		OverIn() { a.make(text.make()); }
		A& get() { return *a; }
		void destroy() { a.destroy(); }
		void key(mc::Hash&) {}
		std::string diagnostics() { return text->str(); }
	};
	// Compositions over instrumented leaves. Spec::make(mem, ids...) builds the allocator from fresh pools.
	template<class Spec>
	struct Probed
	{
		using A = typename Spec::type;
		static constexpr size_t hardMax = Spec::hardMax;
		Obj<Text> text;
		std::vector<int> ids;
		Obj<A> a;
		Probed()
		{
			mc::pools().instBytes = 64; mc::pools().instBlocks = 2; mc::pools().instMax = 64;
			text.make();
			Spec::setup();
			for (int i = 0; i < Spec::pools; i++) ids.push_back(mc::new_pool(Spec::bytes(i), Spec::blocks(i), Spec::maxBlock(i)));
			a.make_with([this](void* m) { return Spec::make(m, ids, *text); });
		}
		A& get() { return *a; }
		void destroy() { a.destroy(); }
		void key(mc::Hash&) {}
		std::string diagnostics() { return text->str(); }
	};

	using ktl::linear_allocator;
	using ktl::mallocator;
	using ktl::freelist;
	using ktl::fallback;
	using ktl::segragator;
	using ktl::cascading;
	using ktl::overflow;
	using ktl::shared;
	using ktl::atomic_shared;
	using ktl::threaded;
	using ktl::reference;
	using ktl::global;
	using ktl::null_allocator;

	// name, configuration, sizes of the alphabet, bounds (live blocks)
#define KTL_REAL_CONFS(X) \
	X("linear<16>", (Plain<linear_allocator<16>, 16>), 4, (0, 1, 16, 17)) \
	X("linear<24>", (Plain<linear_allocator<24>, 24>), 4, (0, 1, 8, 16, 17, 24, 25)) \
	X("linear<40>", (Plain<linear_allocator<40>, 40>), 4, (0, 1, 16, 24, 32, 33, 40, 41)) \
	X("linear<64>", (Plain<linear_allocator<64>, 64>), 5, (0, 1, 16, 17, 32, 49, 64, 65)) \
	X("linear<96>", (Plain<linear_allocator<96>, 96>), 6, (1, 15, 17, 40)) \
	X("linear<4096>", (Plain<linear_allocator<4096>, 4096>), 3, (1, 31, 2047, 4080, 4096, 4097)) \
	X("linear<300>", (Plain<linear_allocator<300>, 300>), 3, (1, 255, 256, 257, 300, 301)) \
	X("linear<70000>", (Plain<linear_allocator<70000>, 70000>), 3, (4464, 65520, 65536, 70000, 70001)) \
	X("stack<70000>", (Stack<70000, StackDirect<70000>>), 3, (4464, 65520, 65536, 70000, 70001)) \
	X("stack<64>", (Stack<64, StackDirect<64>>), 5, (0, 1, 16, 17, 32, 49, 64, 65)) \
	X("stack<40>", (Stack<40, StackDirect<40>>), 4, (0, 1, 16, 24, 32, 33, 40, 41)) \
	X("stack<4096>", (Stack<4096, StackDirect<4096>>), 3, (1, 31, 2047, 4080, 4096, 4097)) \
	X("freelist<0,24,stack<96>>", (Stack<96, StackInFreelist<96>>), 4, (0, 1, 8, 24, 25)) \
	X("fallback<stack<48>,mallocator>", (Stack<48, StackInFallback<48>>), 4, (0, 1, 16, 33, 100)) \
	X("shared<stack<64>>", (Stack<64, StackInShared<64>>), 4, (1, 16, 40, 65)) \
	X("mallocator", (Plain<mallocator, INF>), 4, (0, 1, 17, 100)) \
	X("freelist<0,16,mallocator>", (Plain<freelist<0, 16, mallocator>, 16>), 4, (0, 1, 16, 17)) \
	X("freelist<16,48,mallocator>", (Plain<freelist<16, 48, mallocator>, 48>), 4, (16, 17, 33, 48, 49)) \
	X("freelist<0,8,linear<64>>", (Plain<freelist<0, 8, linear_allocator<64>>, 8>), 5, (0, 1, 8, 9)) \
	X("freelist<8,40,linear<144>>", (Plain<freelist<8, 40, linear_allocator<144>>, 40>), 4, (8, 9, 32, 40, 41)) \
	X("cascading<linear<32>>", (Plain<cascading<linear_allocator<32>>, 32>), 4, (1, 16, 17, 33)) \
	X("cascading<linear<40>>", (Plain<cascading<linear_allocator<40>>, 40>), 4, (0, 1, 33, 40, 41)) \
	X("cascading<freelist<0,16,linear<32>>>", (Plain<cascading<freelist<0, 16, linear_allocator<32>>>, 16>), 4, (0, 1, 16, 17)) \
	X("fallback<linear<32>,linear<48>>", (Plain<fallback<linear_allocator<32>, linear_allocator<48>>, 48>), 5, (1, 16, 17, 40, 49)) \
	X("fallback<linear<32>,mallocator>", (Plain<fallback<linear_allocator<32>, mallocator>, INF>), 4, (0, 1, 16, 17, 60)) \
	X("fallback<null,linear<64>>", (Plain<fallback<null_allocator, linear_allocator<64>>, 64>), 4, (1, 16, 40, 65)) \
	X("segragator<16,linear<32>,mallocator>", (Plain<segragator<16, linear_allocator<32>, mallocator>, INF>), 4, (0, 1, 16, 17, 60)) \
	X("segragator<16,freelist<0,16>,freelist<16,32>>", (Plain<segragator<16, freelist<0, 16, linear_allocator<48>>, freelist<16, 32, linear_allocator<64>>>, 32>), 4, (1, 16, 17, 32, 33)) \
	X("overflow<linear<448>>", (Over<linear_allocator<448>, 448>), 3, (0, 1, 16, 17, 64, 320)) \
	X("overflow<mallocator>", (Over<mallocator, INF>), 3, (0, 1, 16, 33)) \
	X("shared<linear<64>>", (Plain<shared<linear_allocator<64>>, 64>), 4, (1, 16, 33, 65)) \
	X("atomic_shared<threaded<linear<64>>>", (Plain<atomic_shared<threaded<linear_allocator<64>>>, 64>), 4, (1, 16, 33, 65)) \
	X("reference<linear<64>>", (Ref<linear_allocator<64>, 64>), 4, (1, 16, 33, 65)) \
	X("reference<cascading<linear<32>>>", (Ref<cascading<linear_allocator<32>>, 32>), 4, (1, 16, 17, 33)) \
	X("threaded<freelist<0,16,linear<64>>>", (Plain<threaded<freelist<0, 16, linear_allocator<64>>>, 16>), 4, (0, 1, 16, 17)) \
	X("global<linear<64>>", (Glob<linear_allocator<64>, 64>), 4, (1, 16, 33, 65)) \
	X("fallback<freelist<0,32,linear<64>>,cascading<linear<64>>>", (Plain<fallback<freelist<0, 32, linear_allocator<64>>, cascading<linear_allocator<64>>>, 64>), 4, (1, 32, 33, 64, 65)) \
	X("segragator<16,fallback<linear<32>,mallocator>,fallback<linear<48>,mallocator>>", (Plain<segragator<16, fallback<linear_allocator<32>, mallocator>, fallback<linear_allocator<48>, mallocator>>, INF>), 4, (1, 16, 17, 40)) \
	X("cascading<fallback<linear<32>,linear<16>>>", (Plain<cascading<fallback<linear_allocator<32>, linear_allocator<16>>>, 32>), 4, (1, 16, 17, 33)) \
	X("freelist<0,16,cascading<linear<32>>>", (Plain<freelist<0, 16, cascading<linear_allocator<32>>>, 16>), 5, (1, 16, 17)) \
	X("fallback<linear<16>,overflow<mallocator>>", (OverTail), 3, (1, 16, 17))

	struct OverTailSpec
	{
		using type = fallback<linear_allocator<16>, overflow<mallocator, Text>>;
	};
	struct OverTail
	{
		using A = OverTailSpec::type;
		static constexpr size_t hardMax = INF;
		Obj<Text> text;
		Obj<A> a;
		OverTail() { a.make(std::tuple<>(), std::tuple<Text&>(text.make())); }
		A& get() { return *a; }
		void destroy() { a.destroy(); }
		void key(mc::Hash&) {}
		std::string diagnostics() { return text->str(); }
	};

	// ---- compositions over instrumented leaves ---------------------------------------------------------
	struct SpecBase
	{
		static void setup() {}
		static size_t bytes(int) { return 64; }
		static size_t blocks(int) { return 2; }
		static size_t maxBlock(int) { return 64; }
	};
	using L = Leaf<OWNS | MAXS>;
	using LN = Leaf<0>;          // no owns
	using I = Inst<OWNS | MAXS>;
	using IN = Inst<OWNS>;       // no max_size
	using mc::PoolId;

	struct FallbackLL : SpecBase
	{
		using type = fallback<L, LN>;
		static constexpr int pools = 2; static constexpr size_t hardMax = 64;
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }, PoolId{ i[1] }); }
	};
	struct Fallback3 : SpecBase
	{
		using type = fallback<L, fallback<L, LN>>;
		static constexpr int pools = 3; static constexpr size_t hardMax = 64;
		static size_t blocks(int) { return 1; }
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(std::tuple<PoolId>(PoolId{ i[0] }), std::tuple<L, LN>(L(PoolId{ i[1] }), LN(PoolId{ i[2] }))); }
	};
	struct Fallback3Left : SpecBase
	{
		using type = fallback<fallback<L, L>, LN>;
		static constexpr int pools = 3; static constexpr size_t hardMax = 64;
		static size_t blocks(int) { return 1; }
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(std::tuple<L, L>(L(PoolId{ i[0] }), L(PoolId{ i[1] })), std::tuple<PoolId>(PoolId{ i[2] })); }
	};
	struct SegLL : SpecBase
	{
		using type = segragator<16, LN, LN>;
		static constexpr int pools = 2; static constexpr size_t hardMax = 64;
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }, PoolId{ i[1] }); }
	};
	struct SegNested : SpecBase
	{
		using type = segragator<16, segragator<8, LN, LN>, segragator<32, LN, LN>>;
		static constexpr int pools = 4; static constexpr size_t hardMax = 64;
		static size_t blocks(int) { return 1; }
		static type* make(void* m, std::vector<int>& i, Text&)
		{
			return ::new (m) type(std::tuple<LN, LN>(LN(PoolId{ i[0] }), LN(PoolId{ i[1] })), std::tuple<LN, LN>(LN(PoolId{ i[2] }), LN(PoolId{ i[3] })));
		}
	};
	struct Free0 : SpecBase
	{
		using type = freelist<0, 16, L>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 16;
		static size_t blocks(int) { return 3; }
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }); }
	};
	struct Free16 : SpecBase
	{
		using type = freelist<16, 33, LN>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 33;
		static size_t bytes(int) { return 256; }
		static size_t blocks(int) { return 4; }
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }); }
	};
	struct FreeInFallback : SpecBase
	{
		using type = fallback<freelist<0, 16, L>, LN>;
		static constexpr int pools = 2; static constexpr size_t hardMax = 64;
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }, PoolId{ i[1] }); }
	};
	struct FreeOfFree : SpecBase
	{
		using type = freelist<0, 24, freelist<16, 32, LN>>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 24;
		static size_t bytes(int) { return 256; }
		static size_t blocks(int) { return 3; }
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }); }
	};
	struct CascInst : SpecBase
	{
		using type = cascading<I>;
		static constexpr int pools = 0; static constexpr size_t hardMax = 64;
		static type* make(void* m, std::vector<int>&, Text&) { return ::new (m) type(); }
	};
	struct CascInstNoMax : SpecBase
	{
		using type = cascading<IN>;
		static constexpr int pools = 0; static constexpr size_t hardMax = 64;
		static type* make(void* m, std::vector<int>&, Text&) { return ::new (m) type(); }
	};
	struct CascFree : SpecBase
	{
		using type = cascading<freelist<0, 16, IN>>;
		static constexpr int pools = 0; static constexpr size_t hardMax = 16;
		static type* make(void* m, std::vector<int>&, Text&) { return ::new (m) type(); }
	};
	struct FreeCasc : SpecBase
	{
		using type = freelist<0, 16, cascading<I>>;
		static constexpr int pools = 0; static constexpr size_t hardMax = 16;
		static type* make(void* m, std::vector<int>&, Text&) { return ::new (m) type(); }
	};
	struct CascInFallback : SpecBase
	{
		using type = fallback<cascading<I>, LN>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 100;
		static size_t bytes(int) { return 256; }
		static size_t maxBlock(int) { return 100; }
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(std::tuple<>(), std::tuple<PoolId>(PoolId{ i[0] })); }
	};
	struct OverL : SpecBase
	{
		using type = overflow<L, Text>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 64;
		static size_t bytes(int) { return 1024; }
		static size_t blocks(int) { return 3; }
		static size_t maxBlock(int) { return 192; }
		static type* make(void* m, std::vector<int>& i, Text& t) { return ::new (m) type(t, PoolId{ i[0] }); }
	};
	struct FreeOver : SpecBase
	{
		using type = freelist<0, 16, overflow<L, Text>>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 16;
		static size_t bytes(int) { return 1024; }
		static size_t blocks(int) { return 3; }
		static size_t maxBlock(int) { return 192; }
		static type* make(void* m, std::vector<int>& i, Text& t) { return ::new (m) type(t, PoolId{ i[0] }); }
	};
	struct SharedL : SpecBase
	{
		using type = shared<L>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 64;
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }); }
	};
	struct ThreadedL : SpecBase
	{
		using type = threaded<L>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 64;
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }); }
	};
	struct SharedFree : SpecBase
	{
		using type = atomic_shared<threaded<freelist<0, 16, L>>>;
		static constexpr int pools = 1; static constexpr size_t hardMax = 16;
		static size_t blocks(int) { return 3; }
		static type* make(void* m, std::vector<int>& i, Text&) { return ::new (m) type(PoolId{ i[0] }); }
	};
	// A realistic nest: small sizes from a recycled pool, others from a cascade, everything else elsewhere
	struct Nest : SpecBase
	{
		using type = segragator<16, fallback<freelist<0, 16, L>, LN>, fallback<L, LN>>;
		static constexpr int pools = 4; static constexpr size_t hardMax = 64;
		static size_t blocks(int) { return 1; }
		static type* make(void* m, std::vector<int>& i, Text&)
		{
			using P = fallback<freelist<0, 16, L>, LN>;
			using F = fallback<L, LN>;
			return ::new (m) type(std::tuple<PoolId, PoolId>(PoolId{ i[0] }, PoolId{ i[1] }), std::tuple<PoolId, PoolId>(PoolId{ i[2] }, PoolId{ i[3] }));
			(void)sizeof(P); (void)sizeof(F);
		}
	};

#define KTL_PROBED_CONFS(X) \
	X("fallback<L,L>", (Probed<FallbackLL>), 4, (0, 1, 16, 40, 65)) \
	X("fallback<L,fallback<L,L>>", (Probed<Fallback3>), 4, (1, 40, 65)) \
	X("fallback<fallback<L,L>,L>", (Probed<Fallback3Left>), 4, (1, 40, 65)) \
	X("segragator<16,L,L>", (Probed<SegLL>), 4, (0, 1, 16, 17, 40, 65)) \
	X("segragator<16,segragator<8,L,L>,segragator<32,L,L>>", (Probed<SegNested>), 4, (1, 8, 9, 16, 17, 32, 33)) \
	X("freelist<0,16,L>", (Probed<Free0>), 4, (0, 1, 16, 17)) \
	X("freelist<16,33,L>", (Probed<Free16>), 4, (16, 17, 33, 34)) \
	X("fallback<freelist<0,16,L>,L>", (Probed<FreeInFallback>), 4, (0, 1, 16, 17)) \
	X("freelist<0,24,freelist<16,32,L>>", (Probed<FreeOfFree>), 4, (1, 24, 25)) \
	X("cascading<I>", (Probed<CascInst>), 5, (1, 40, 64, 65)) \
	X("cascading<I> without max_size", (Probed<CascInstNoMax>), 5, (1, 40, 65)) \
	X("cascading<freelist<0,16,I>>", (Probed<CascFree>), 5, (1, 16, 17)) \
	X("freelist<0,16,cascading<I>>", (Probed<FreeCasc>), 5, (1, 16, 17)) \
	X("fallback<cascading<I>,L>", (Probed<CascInFallback>), 5, (1, 64, 100)) \
	X("overflow<L>", (Probed<OverL>), 3, (0, 1, 16, 64, 65)) \
	X("freelist<0,16,overflow<L>>", (Probed<FreeOver>), 4, (0, 1, 16, 17)) \
	X("shared<L>", (Probed<SharedL>), 3, (0, 1, 64, 65)) \
	X("threaded<L>", (Probed<ThreadedL>), 3, (0, 1, 64, 65)) \
	X("atomic_shared<threaded<freelist<0,16,L>>>", (Probed<SharedFree>), 4, (1, 16, 17)) \
	X("segragator<16,fallback<freelist,L>,fallback<L,L>>", (Probed<Nest>), 4, (1, 16, 17, 40))
}
