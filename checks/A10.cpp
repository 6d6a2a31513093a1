// PARTS: 4
// Every position, pair of positions and value of damage around blocks of an overflow-checking allocator.
#include "allocsys.h"
#include <sstream>
using namespace mc;
using namespace conf;

constexpr int G = 64;

// What a report says
struct Report
{
	bool any = false;
	long before = 0, after = 0;
};
static long number_after(const std::string& s, size_t from)
{
	while (from < s.size() && s[from] != '\n' && !isdigit((unsigned char)s[from])) from++;
	if (from >= s.size() || s[from] == '\n') return -1;
	return strtol(s.c_str() + from, nullptr, 10);
}
static Report parse(const std::string& s)
{
	Report r;
	r.any = !s.empty();
	for (size_t p = 0; p < s.size();)
	{
		size_t e = s.find('\n', p);
		if (e == std::string::npos) e = s.size();
		std::string line = s.substr(p, e - p), low;
		for (char c : line) low += char(tolower((unsigned char)c));
		size_t k;
		if ((k = low.find("before")) != std::string::npos) r.before = number_after(line, k);
		else if ((k = low.find("after")) != std::string::npos) r.after = number_after(line, k);
		p = e + 1;
	}
	return r;
}

struct Hit { int at; unsigned char value; };   // at: relative to the block
struct Bench
{
	virtual ~Bench() {}
	virtual char* alloc(size_t n) = 0;
	virtual void free(char* p, size_t n) = 0;
	virtual std::string take() = 0;
	virtual void done() = 0;
	virtual size_t live() = 0;
};
template<class Spec>
struct ProbedBench : Bench
{
	Probed<Spec> c;
	char* alloc(size_t n) override { return static_cast<char*>(c.get().allocate(n)); }
	void free(char* p, size_t n) override { c.get().deallocate(p, n); }
	std::string take() override { std::string s = c.diagnostics(); c.text->clear(); return s; }
	void done() override { c.destroy(); }
	size_t live() override { return pools_live(); }
};
struct OverBig : SpecBase
{
	using type = overflow<L, Text>;
	static constexpr int pools = 1; static constexpr size_t hardMax = INF;
	static size_t bytes(int) { return 65536; }
	static size_t blocks(int) { return 8; }
	static size_t maxBlock(int) { return 65536; }
	static type* make(void* m, std::vector<int>& i, Text& t) { return ::new (m) type(t, PoolId{ i[0] }); }
};
struct OverNested : OverBig
{
	using type = fallback<overflow<L, Text>, LN>;
	static constexpr int pools = 2;
	static type* make(void* m, std::vector<int>& i, Text& t) { return ::new (m) type(std::tuple<Text&, PoolId>(t, PoolId{ i[0] }), std::tuple<PoolId>(PoolId{ i[1] })); }
};
struct MallocBench : Bench
{
	Over<mallocator, INF> c;
	char* alloc(size_t n) override { return static_cast<char*>(c.get().allocate(n)); }
	void free(char* p, size_t n) override { c.get().deallocate(p, n); }
	std::string take() override { std::string s = c.diagnostics(); c.text->clear(); return s; }
	void done() override { c.destroy(); }
	size_t live() override { return world().sys_live(); }
};
struct LinearBench : Bench
{
	Over<linear_allocator<2048>, 2048> c;
	size_t n = 0;
	char* alloc(size_t k) override { n++; return static_cast<char*>(c.get().allocate(k)); }
	void free(char* p, size_t k) override { n--; c.get().deallocate(p, k); }
	std::string take() override { std::string s = c.diagnostics(); c.text->clear(); return s; }
	// Released: the whole capacity is available again
	size_t live() override
	{
		if (n) return n;
		char* p = static_cast<char*>(c.get().allocate(2048 - 2 * G));
		if (!p) return 1;
		c.get().deallocate(p, 2048 - 2 * G);
		return 0;
	}
	void done() override { c.destroy(); }
};
// The default stream type
struct OstreamBench : Bench
{
	std::ostringstream text;
	Obj<overflow<mallocator>> a;
	OstreamBench() { a.make(text); }
	char* alloc(size_t n) override { return static_cast<char*>(a->allocate(n)); }
	void free(char* p, size_t n) override { a->deallocate(p, n); }
	std::string take() override { std::string s = text.str(); text.str(""); return s; }
	void done() override { a.destroy(); }
	size_t live() override { return world().sys_live(); }
};

static int s_Fill = -1;

static void expect(Bench& b, long before, long after)
{
	Report r = parse(b.take());
	bool want = before || after;
	if (r.any != want) { fail(want ? "the damage was not reported" : "a report was written although the guard areas are intact"); return; }
	if (want && (r.before != before || r.after != after))
		fail("the report says %ld bytes before and %ld bytes after, but the damage extends %ld bytes before and %ld bytes after", r.before, r.after, before, after);
}

static void one(Bench& b, size_t n, const std::vector<Hit>& hits)
{
	// A second live block sees that only the damaged one is reported
	char* other = b.alloc(24);
	char* p = b.alloc(n);
	if (!p || !other) { fail("allocate(%zu) failed", n); return; }
	memset(p, 0x11, n);
	unsigned char fill = static_cast<unsigned char>(p[-1]);
	s_Fill = fill;
	std::map<int, unsigned char> at;
	for (auto& h : hits) { p[h.at] = char(h.value); at[h.at] = h.value; }
	long before = 0, after = 0;
	for (auto& h : at)
	{
		if (h.second == fill) continue;
		if (h.first < 0) before = std::max(before, long(-h.first));
		else if (h.first >= int(n)) after = std::max(after, long(h.first - int(n) + 1));
	}
	b.free(p, n);
	if (failed()) return;
	expect(b, before, after);
	if (failed()) return;
	b.free(other, 24);
	if (failed()) return;
	expect(b, 0, 0);
	if (failed()) return;
	if (b.live()) { fail("a block was not released"); return; }
	b.done();
	if (failed()) return;
	expect(b, 0, 0);
}

template<class B>
static void suite(const std::string& name, bool mine, std::vector<size_t> sizes, bool pairs)
{
	if (!mine) return;
	for (size_t n : sizes)
		add_cases(name + ", block of " + std::to_string(n), [n, pairs](Cases& e)
		{
			auto go = [&](const std::vector<Hit>& h, const char* what)
			{
				int a = h.size() > 0 ? h[0].at : 0, c = h.size() > 1 ? h[1].at : 0;
				if (!e.next("block of %zu bytes: %s at %d and %d (of %zu writes), value %d", n, what, a, c, h.size(), h.empty() ? 0 : h[0].value)) return !e.stop;
				{
					B b;
					one(b, n, h);
				}
				e.step(6);
				return e.ok();
			};
			std::vector<int> guard;
			for (int d = 1; d <= G; d++) guard.push_back(-d);
			for (int d = 0; d < G; d++) guard.push_back(int(n) + d);
			go({}, "no write");
			int fill = s_Fill < 0 ? 0xA5 : s_Fill;
			auto bad = [&](int i) { return static_cast<unsigned char>(fill ^ (1 + (i * 37) % 255)); };
			for (int g : guard)
				for (int v = 0; v < 256; v++)
				{
					if (!pairs && v != fill && v != 0 && v != (fill ^ 1) && v != (fill ^ 0x80)) continue;
					if (!go({ { g, static_cast<unsigned char>(v) } }, "write")) return;
				}
			// Pairs of damaged bytes, the second possibly rewritten with the fill value
			for (size_t i = 0; i < guard.size(); i++)
				for (size_t k = i + 1; k < guard.size(); k++)
				{
					if (!pairs && (i * 7 + k) % 5) continue;
					if (!go({ { guard[i], bad(guard[i]) }, { guard[k], bad(guard[k]) } }, "two writes")) return;
					if (pairs && !go({ { guard[i], bad(guard[i]) }, { guard[k], static_cast<unsigned char>(fill) } }, "a write and a harmless write")) return;
				}
			// Runs of damage, from every start to every end, on each side
			for (int from = 0; from < G; from++)
				for (int to = from; to < G; to++)
				{
					std::vector<Hit> l, r;
					for (int i = from; i <= to; i++) { l.push_back({ -1 - i, bad(i) }); r.push_back({ int(n) + i, bad(i) }); }
					if (!pairs && (from * 3 + to) % 7) continue;
					if (!go(l, "a run before")) return;
					if (!go(r, "a run after")) return;
				}
			// Inside the block anything may be written
			for (int i = 0; i < int(n) && i < 40; i++)
				for (int v : { 0, 255, fill, fill ^ 1 })
					if (!go({ { i, static_cast<unsigned char>(v) } }, "write inside")) return;
			std::vector<Hit> all;
			for (int i = 0; i < int(n); i++) all.push_back({ i, static_cast<unsigned char>(i) });
			go(all, "write all inside");
			for (auto& h : all) h.value = static_cast<unsigned char>(fill);
			go(all, "fill value inside");
			if (n)
				for (int g : { -1, -G, int(n), int(n) + G - 1 })
					go({ { 0, 0 }, { int(n) - 1, 0 }, { g, bad(g) } }, "writes inside and outside");
		});
}

MC_SUITES
{
	bool t = thorough();
	suite<ProbedBench<OverBig>>("overflow<L>", MC_MINE, { 0, 1, 16 }, true);
	suite<ProbedBench<OverBig>>("overflow<L>", MC_MINE, t ? std::vector<size_t>{ 7, 8, 15, 17, 31, 63, 64, 65, 127, 255, 256, 257, 4096, 30000 } : std::vector<size_t>{ 7, 17, 64, 255, 256, 5000 }, t);
	suite<ProbedBench<OverNested>>("fallback<overflow<L>,L>", MC_MINE, { 16, 33 }, t);
	suite<MallocBench>("overflow<mallocator>", MC_MINE, { 0, 1, 24, 100 }, t);
	suite<MallocBench>("overflow<mallocator>", MC_MINE, { 32767, 32768, 65535, 65536, 65537, 262145 }, false);
	suite<LinearBench>("overflow<linear<2048>>", MC_MINE, { 1, 16, 40 }, t);
	suite<OstreamBench>("overflow<mallocator, std::ostream>", MC_MINE, { 1, 24 }, t);
}
