#include "mc.h"
#include <algorithm>
#include <cerrno>

namespace mc
{
	// ---- failures -------------------------------------------------------------------------------------
	static bool s_Failed = false;
	static char s_Failure[1024];
	void fail(const char* fmt, ...)
	{
		if (s_Failed) return;
		s_Failed = true;
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(s_Failure, sizeof s_Failure, fmt, ap);
		va_end(ap);
	}
	bool failed() { return s_Failed; }
	const char* failure() { return s_Failure; }
	void clear_failure() { s_Failed = false; s_Failure[0] = 0; }

	// ---- memory ---------------------------------------------------------------------------------------
	constexpr size_t GAP = 64;

	void Area::init(uintptr_t at, size_t bytes)
	{
		void* p = mmap(reinterpret_cast<void*>(at), bytes, PROT_READ | PROT_WRITE,
			MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != reinterpret_cast<void*>(at)) { fprintf(stderr, "cannot map the world: %s\n", strerror(errno)); _exit(3); }
		base = static_cast<char*>(p);
		size = bytes;
		high = 0;
		blocks.reserve(64);
	}

	void Area::reset()
	{
		if (high)
		{
			ASAN_UNPOISON_MEMORY_REGION(base, high);
			memset(base, 0, high);
			ASAN_POISON_MEMORY_REGION(base, high);
		}
		high = 0;
		blocks.clear();
	}

	void* Area::alloc(size_t n, size_t align, int tag, unsigned char fill, size_t residue)
	{
		size_t unit = align < 64 ? 64 : align;
		size_t off = GAP;
		size_t pos = 0;
		auto place = [&](size_t from) { size_t o = (from + unit - 1) / unit * unit; return o + residue; };
		off = place(GAP);
		for (pos = 0; pos < blocks.size(); pos++)
		{
			size_t start = size_t(blocks[pos].p - base);
			if (off + n + GAP <= start) break;
			off = place(start + blocks[pos].n + GAP);
		}
		if (off + n + GAP > size) return nullptr;
		size_t end = off + n + GAP;
		if (end > high)
		{
			ASAN_POISON_MEMORY_REGION(base + high, end - high);
			high = end;
		}
		char* p = base + off;
		ASAN_UNPOISON_MEMORY_REGION(p, n);
		memset(p, fill, n);
		blocks.insert(blocks.begin() + long(pos), Block{ p, n, tag, n });
		return p;
	}

	Area::Block* Area::find(const void* p)
	{
		for (auto& b : blocks) if (b.p == p) return &b;
		return nullptr;
	}
	Area::Block* Area::containing(const void* p)
	{
		for (auto& b : blocks) if ((const char*)p >= b.p && (const char*)p < b.p + b.n) return &b;
		return nullptr;
	}
	void Area::release(Block* b)
	{
		if (!b) return;
		ASAN_UNPOISON_MEMORY_REGION(b->p, b->n);
		memset(b->p, 0, b->n);
		ASAN_POISON_MEMORY_REGION(b->p, b->n);
		blocks.erase(blocks.begin() + (b - blocks.data()));
	}
	void Area::key(Hash& h)
	{
		h.word(blocks.size());
		for (auto& b : blocks)
		{
			h.word(uint64_t(b.p - base));
			h.word(uint64_t(b.tag));
			h.bytes(b.p, b.n);
		}
	}

	void World::init()
	{
		if (objects.base) return;
		objects.init(0x200000000000, size_t(16) << 20);
		sys.init(0x210000000000, size_t(64) << 20);
		sysB.init(0x218000000000, size_t(64) << 20);
		poolSpace.init(0x220000000000, size_t(POOLS) << 20);
		for (int i = 0; i < POOLS; i++)
			pools[i].sub(poolSpace.base + (size_t(i) << 20), size_t(1) << 20);
	}
	void World::reset()
	{
		objects.reset();
		sys.reset();
		sysB.reset();
		side = 0;
		objShift = 0;
		for (int i = 0; i < poolsUsed; i++) if (pools[i].high) pools[i].reset();
		poolsUsed = 0;
		if (onReset) onReset();
		extra.clear();
		held = nullptr;
		failMask = 0;
		sysCalls = sysArmed = sysRefused = 0;
		sysResidue = 0;
		sysAllocs = sysFrees = 0;
		sysLimit = size_t(1) << 20;
	}
	void World::active(bool on) { m_Active = on; }
	World& world() { static World* w = new World(); return *w; }

	void* World::sys_malloc(size_t n, size_t align)
	{
		unsigned idx = sysCalls++ - sysArmed;
		if (idx < 64 && ((failMask >> idx) & 1)) { sysRefused++; errno = ENOMEM; return nullptr; }
		if (n > sysLimit) { sysRefused++; errno = ENOMEM; return nullptr; }
		void* p = (side ? sysB : sys).alloc(n, align, 0, 0xCD, align > 16 ? sysResidue / align * align % 64 : sysResidue);
		if (!p) { sysRefused++; return nullptr; }
		sysAllocs++;
		return p;
	}
	void World::sys_free(void* p)
	{
		if (!p) return;
		Area& from = sysB.contains(p) ? sysB : sys;
		Area::Block* b = from.find(p);
		if (!b)
		{
			fail("free() of a pointer that is not a live system block: %p", p);
			return;
		}
		if (held && held(b->p, b->n)) { fail("the system block %p (%zu bytes) was freed while the user still holds a block in it", p, b->n); return; }
		sysFrees++;
		from.release(b);
	}
	void World::key(Hash& h)
	{
		objects.key(h);
		sys.key(h);
		if (sysB.high) sysB.key(h);
		for (int i = 0; i < poolsUsed; i++) if (pools[i].high) { h.word(uint64_t(i)); pools[i].key(h); }
	}
	bool World::covers(const void* p, size_t n)
	{
		const char* c = static_cast<const char*>(p);
		auto in = [&](Area& a)
		{
			if (!a.contains(c)) return false;
			for (auto& b : a.blocks) if (c >= b.p && n <= b.n && size_t(c - b.p) <= b.n - n) return true;
			return false;
		};
		if (in(objects) || in(sys) || in(sysB)) return true;
		for (auto& e : extra) if (c >= e.first && n <= e.second && size_t(c - e.first) <= e.second - n) return true;
		for (int i = 0; i < poolsUsed; i++) if (pools[i].contains(c)) return in(pools[i]);
		return false;
	}

	static double now()
	{
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
	}
	static double s_Budget = 60;
	static double budget() { return s_Budget; }

	// ---- explorer -------------------------------------------------------------------------------------
	struct Node { std::vector<Op> hist; Hash key; std::vector<Op> ops; };

	// Runs one history on a fresh system; returns false if a violation was recorded
	bool SysSuite::run(const std::vector<Op>& hist, Hash* prefixKey, Hash* key, std::vector<Op>* ops)
	{
		Shared* s = sh();
		s->n = 0;
		s->heartbeat = s->heartbeat + 1;
		if (hist.size() >= MAX_OPS) { fprintf(stderr, "history too long\n"); _exit(3); }
		for (size_t i = 0; i < hist.size(); i++) s->ops[i] = hist[i];
		s->n = uint32_t(hist.size());
		s->histories++;
		world().reset();
		clear_failure();
		{
			std::unique_ptr<System> sys(make());
			world().active(true);
			sys->start();
			if (!failed()) sys->check();
			for (size_t i = 0; i < hist.size() && !failed(); i++)
			{
				bool last = i + 1 == hist.size();
				if (last && prefixKey) { Hash h; sys->key(h); *prefixKey = h; }
				sys->apply(hist[i], last);
				s->opsExecuted++;
				if (!failed()) sys->check();
			}
			if (!failed() && key) { Hash h; sys->key(h); *key = h; }
			if (!failed() && ops) sys->ops(*ops);
			if (!failed()) sys->finish();
			world().active(false);
		}
		if (failed())
		{
			if (!s->violated)
			{
				s->violated = 1;
				snprintf(s->msg, sizeof s->msg, "%s", failure());
			}
			return false;
		}
		return true;
	}

	void SysSuite::sample(const std::vector<Op>& h)
	{
		Shared* s = sh();
		if (s->nsamples < MAX_SAMPLES)
			snprintf(s->samples[s->nsamples++], sizeof s->samples[0], "%s: %s", name.c_str(), text(h).c_str());
	}

	std::string SysSuite::text(const std::vector<Op>& ops)
	{
		std::unique_ptr<System> sys(make());
		std::string r;
		for (const Op& o : ops) { if (!r.empty()) r += "; "; r += sys->describe(o); }
		return r;
	}

	void SysSuite::explore()
	{
		Shared* s = sh();
		std::unordered_map<Hash, uint32_t, HashOf> seen;
		std::deque<Node> frontier;
		Node root;
		if (!run(root.hist, nullptr, &root.key, &root.ops)) return;
		seen[root.key] = 0;
		s->states = 1;
		frontier.push_back(root);
		uint64_t picked = 0;
		double t0 = now();
		while (!frontier.empty())
		{
			if (s->diverged || now() - t0 > budget()) { s->capped |= 8; break; }
			Node cur = std::move(frontier.front());
			frontier.pop_front();
			if (int(cur.hist.size()) >= bounds.depth) { s->capped |= 1; continue; }
			for (const Op& op : cur.ops)
			{
				Node next;
				next.hist = cur.hist;
				next.hist.push_back(op);
				Hash prefix;
				s->transitions++;
				if (!run(next.hist, &prefix, &next.key, &next.ops)) return;
				if (!(prefix == cur.key))
				{
					// The code is not deterministic: merging states would be pointless. The histories of phase 2 remain.
					if (!s->diverged) { s->diverged = 1; snprintf(s->samples[MAX_SAMPLES - 1], sizeof s->samples[0], "nondeterministic: %s", text(cur.hist).c_str()); }
					s->capped |= 4;
					break;
				}
				if (seen.emplace(next.key, uint32_t(next.hist.size())).second)
				{
					s->states++;
					if (next.hist.size() > s->depth) s->depth = next.hist.size();
					if (s->states == 12 || (s->states > 40 && next.hist.size() >= 4 && picked++ == 30)) sample(next.hist);
					if (s->states >= bounds.maxStates) { s->capped |= 2; frontier.clear(); break; }
					frontier.push_back(std::move(next));
				}
			}
		}
		std::vector<Op> h;
		if (!dfs(h, root.ops)) return;
		if (!tides()) return;
		if (s->nsamples == 0) sample(lastHist);
	}

	bool SysSuite::tides()
	{
		Shared* s = sh();
		for (size_t w = 0;; w++)
		{
			s->n = 0;
			world().reset();
			clear_failure();
			{
				std::unique_ptr<System> sys(make());
				if (!sys->tide(w)) return true;
				s->histories++;
				world().active(true);
				sys->start();
				if (!failed()) sys->check();
				Op op;
				while (!failed() && s->n + 1 < MAX_OPS && sys->wave(op))
				{
					s->ops[s->n] = op;
					s->n = s->n + 1;
					s->heartbeat = s->heartbeat + 1;
					s->opsExecuted++;
					s->transitions++;
					sys->apply(op, false);
					// (the invariants after every step at first, then after some)
					if (!failed() && (s->n < 64 || s->n % 61 == 0)) sys->check();
				}
				if (s->n > s->depth) s->depth = s->n;
				if (!failed()) sys->check();
				if (!failed()) sys->finish();
				world().active(false);
			}
			if (failed())
			{
				if (!s->violated) { s->violated = 1; snprintf(s->msg, sizeof s->msg, "%s", failure()); }
				return false;
			}
		}
	}

	bool SysSuite::dfs(std::vector<Op>& h, const std::vector<Op>& ops)
	{
		if (int(h.size()) >= bounds.dfs) return true;
		for (const Op& op : ops)
		{
			h.push_back(op);
			std::vector<Op> next;
			if (!run(h, nullptr, nullptr, &next)) return false;
			lastHist = h;
			if (!dfs(h, next)) return false;
			h.pop_back();
		}
		return true;
	}

	// ---- main -----------------------------------------------------------------------------------------
	static std::string json(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}
	static Shared* new_shared()
	{
		void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
		return static_cast<Shared*>(p);
	}
	static std::string slurp(const std::string& path, size_t limit)
	{
		std::string r;
		FILE* f = fopen(path.c_str(), "r");
		if (!f) return r;
		char buf[4096];
		size_t n;
		while (r.size() < limit && (n = fread(buf, 1, sizeof buf, f)) > 0) r.append(buf, n);
		fclose(f);
		if (r.size() > limit) r.resize(limit);
		return r;
	}

	struct Job { size_t suite; pid_t pid; Shared* s; double start, beatAt; uint64_t beat; std::string log; };

	static void child_setup(const std::string& log)
	{
		int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
		world().init();
	}

	// Executes something in a fresh process: 0 quiet, 1 failed again, 2 crashed, 3 hung
	template<class F>
	static int in_fresh_process(F fn, Shared* out, const std::string& log, double limit)
	{
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0)
		{
			child_setup(log);
			sh() = out;
			bool bad = fn();
			fflush(nullptr);
			_exit(bad ? 41 : 0);
		}
		double t0 = now();
		int st;
		while (waitpid(pid, &st, WNOHANG) == 0)
		{
			if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return 3; }
			usleep(1000);
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 41) return 1;
		return 2;
	}

	static int rerun(size_t suite, const std::vector<Op>& ops, uint64_t caseId, Shared* out, const std::string& log, double limit)
	{
		return in_fresh_process([&] { return suites()[suite]->replay(ops, caseId); }, out, log, limit);
	}
	static int rerun_suite(size_t suite, Shared* out, const std::string& log, double limit)
	{
		return in_fresh_process([&] { suites()[suite]->explore(); return bool(out->violated); }, out, log, limit);
	}

	static std::string write_replay(const std::string& dir, const std::string& prop, const Suite& s, const std::vector<Op>& ops,
		uint64_t caseId, const std::string& text, const std::string& what, const std::string& log, bool whole)
	{
		std::string safe = s.name;
		for (char& c : safe) if (!isalnum((unsigned char)c)) c = '_';
		std::string path = dir + "/" + prop + "-" + safe + ".replay";
		FILE* f = fopen(path.c_str(), "w");
		if (!f) return path;
		fprintf(f, "property %s\nsuite %s\n", prop.c_str(), s.name.c_str());
		if (whole) fprintf(f, "whole 1\n");
		fprintf(f, "case %llu\nops", (unsigned long long)caseId);
		for (auto& o : ops) fprintf(f, " %d,%d,%d,%d", o.c, o.a, o.b, o.d);
		fprintf(f, "\nhistory %s\nviolation %s\n", text.c_str(), what.c_str());
		if (!log.empty()) fprintf(f, "---- output ----\n%s\n", log.c_str());
		fclose(f);
		return path;
	}

	int run_main(int argc, char** argv)
	{
		std::string prop = "?", outDir = ".", only, replayFile;
		int workers = 8;
		double hang = 30;
		for (int i = 1; i < argc; i++)
		{
			std::string a = argv[i];
			if (a == "--prop") prop = argv[++i];
			else if (a == "--out") outDir = argv[++i];
			else if (a == "--suite") only = argv[++i];
			else if (a == "--replay") replayFile = argv[++i];
			else if (a == "--thorough") thorough() = true;
			else if (a == "--jobs") workers = atoi(argv[++i]);
			else if (a == "--budget") s_Budget = atof(argv[++i]);
			else if (a == "--hang") hang = atof(argv[++i]);
		}
		for (auto f : registrars()) f();

		if (!replayFile.empty())
		{
			std::string body = slurp(replayFile, 1 << 22), suite;
			std::vector<Op> ops;
			uint64_t caseId = 0;
			bool whole = false;
			size_t pos = 0;
			while (pos < body.size())
			{
				size_t e = body.find('\n', pos);
				if (e == std::string::npos) e = body.size();
				std::string line = body.substr(pos, e - pos);
				pos = e + 1;
				if (line.rfind("suite ", 0) == 0) suite = line.substr(6);
				if (line.rfind("case ", 0) == 0) caseId = strtoull(line.c_str() + 5, nullptr, 10);
				if (line.rfind("ops", 0) == 0)
				{
					const char* c = line.c_str() + 3;
					int x[4], used;
					while (sscanf(c, " %d,%d,%d,%d%n", x, x + 1, x + 2, x + 3, &used) == 4)
					{
						Op o; o.c = int16_t(x[0]); o.a = int16_t(x[1]); o.b = int16_t(x[2]); o.d = int16_t(x[3]);
						ops.push_back(o);
						c += used;
					}
				}
				if (line == "whole 1") whole = true;
				if (line.rfind("----", 0) == 0) break;
			}
			for (size_t i = 0; i < suites().size(); i++)
				if (suites()[i]->name == suite)
				{
					Shared* s = new_shared();
					std::string log = outDir + "/replay.log";
					int r = whole ? rerun_suite(i, s, log, 900) : rerun(i, ops, caseId, s, log, 120);
					printf("replay of %s in suite %s: %s%s%s\n", replayFile.c_str(), suite.c_str(),
						r == 0 ? "no violation" : r == 1 ? "violation: " : r == 2 ? "crash" : "hang", r == 1 ? s->msg : "",
						r == 2 ? ("\n" + slurp(log, 4000)).c_str() : "");
					return r ? 1 : 0;
				}
			fprintf(stderr, "no suite %s\n", suite.c_str());
			return 2;
		}

		std::vector<size_t> todo;
		for (size_t i = 0; i < suites().size(); i++)
			if (only.empty() || suites()[i]->name.find(only) != std::string::npos) todo.push_back(i);
		double t0 = now();
		std::vector<Job> running;
		std::vector<std::pair<size_t, Shared*>> finished;
		size_t nextJob = 0;
		bool violation = false, broken = false;
		std::string report;
		while (nextJob < todo.size() || !running.empty())
		{
			while (!violation && !broken && int(running.size()) < workers && nextJob < todo.size())
			{
				Job j;
				j.suite = todo[nextJob++];
				j.s = new_shared();
				j.start = j.beatAt = now();
				j.beat = 0;
				char nm[64];
				snprintf(nm, sizeof nm, "/log-%zu", j.suite);
				j.log = outDir + nm;
				fflush(nullptr);
				j.pid = fork();
				if (j.pid == 0)
				{
					child_setup(j.log);
					sh() = j.s;
					suites()[j.suite]->explore();
					j.s->done = 1;
					fflush(nullptr);
					_exit(0);
				}
				running.push_back(j);
			}
			if (running.empty()) break;
			bool progressed = false;
			for (size_t k = 0; k < running.size(); k++)
			{
				Job& j = running[k];
				int st;
				pid_t r = waitpid(j.pid, &st, WNOHANG);
				bool hung = false;
				if (r == 0)
				{
					if (j.s->heartbeat != j.beat) { j.beat = j.s->heartbeat; j.beatAt = now(); }
					if (now() - j.beatAt < hang) continue;
					hung = true;
					kill(j.pid, SIGKILL);
					waitpid(j.pid, &st, 0);
				}
				progressed = true;
				Suite& su = *suites()[j.suite];
				bool clean = !hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && j.s->done;
				if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 3)
				{
					broken = true;
					fprintf(stderr, "suite %s: machinery error\n%s\n", su.name.c_str(), slurp(j.log, 3000).c_str());
				}
				else if (clean && j.s->diverged && !j.s->violated)
					printf("note: suite %s is nondeterministic: %s\n", su.name.c_str(), j.s->samples[MAX_SAMPLES - 1]);
				else if ((!clean || j.s->violated) && !violation)
				{
					// Replay before report
					std::vector<Op> ops(j.s->ops, j.s->ops + j.s->n);
					uint64_t id = j.s->caseId;
					int again = 0;
					Shared* s2 = nullptr;
					for (int attempt = 0; attempt < 3 && !again; attempt++)
					{
						s2 = new_shared();
						again = rerun(j.suite, ops, id, s2, j.log + ".again", hung ? 2 * hang + 30 : 120);
					}
					bool whole = false;
					if (!again)
					{
						// State that outlives one history (statics): the replay is the whole suite
						s2 = new_shared();
						again = rerun_suite(j.suite, s2, j.log + ".again", 600);
						whole = again != 0;
						if (whole) { ops.assign(s2->ops, s2->ops + s2->n); id = s2->caseId; }
					}
					if (!again)
					{
						broken = true;
						fprintf(stderr, "suite %s: %s, not reproducible: %s\n%s\n", su.name.c_str(), hung ? "hang" : "failure", j.s->msg, slurp(j.log, 3000).c_str());
					}
					else
					{
						violation = true;
						std::string what = again == 1 ? std::string(s2->msg) : again == 2 ? "the process crashed (see the output)" : "the operation does not terminate";
						sh() = s2;
						std::string text = su.text(ops);
						std::string log = again == 2 ? slurp(j.log + ".again", 6000) : "";
						std::string path = write_replay(outDir, prop, su, ops, id, text, what, log, whole);
						printf("suite %s: %s\n  history: %s\n", su.name.c_str(), what.c_str(), text.c_str());
						if (!log.empty()) printf("%s\n", log.substr(0, 1500).c_str());
						report = path;
					}
				}
				j.s->wall = now() - j.start;
				finished.emplace_back(j.suite, j.s);
				running.erase(running.begin() + long(k));
				k--;
				if (violation || broken)
				{
					for (Job& o : running) { kill(o.pid, SIGKILL); int x; waitpid(o.pid, &x, 0); finished.emplace_back(o.suite, o.s); }
					running.clear();
					nextJob = todo.size();
					break;
				}
			}
			if (!progressed) usleep(500);
		}
		uint64_t states = 0, trans = 0, hist = 0, ops = 0, depth = 0;
		bool capped = false, deep = false;
		std::string samples, per;
		int ns = 0;
		for (auto& f : finished)
		{
			Shared* s = f.second;
			states += s->states; trans += s->transitions; hist += s->histories; ops += s->opsExecuted;
			depth = std::max(depth, s->depth);
			if (s->capped & ~1) capped = true;
			if (s->capped & 1) deep = true;
			for (int i = 0; i < s->nsamples; i++)
				if (ns < 12) { samples += std::string(ns++ ? "," : "") + json(s->samples[i]); }
			char line[700];
			snprintf(line, sizeof line, "%s{\"suite\":%s,\"states\":%llu,\"transitions\":%llu,\"histories\":%llu,\"max_depth\":%llu,\"capped\":%s,\"closed\":%s,\"wall_s\":%.2f}",
				per.empty() ? "" : ",", json(suites()[f.first]->name).c_str(), (unsigned long long)s->states, (unsigned long long)s->transitions,
				(unsigned long long)s->histories, (unsigned long long)s->depth, s->capped & ~1 ? "true" : "false", s->capped ? "false" : "true", s->wall);
			per += line;
		}
		FILE* f = fopen((outDir + "/result.json").c_str(), "w");
		if (f)
		{
			fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"histories\":%llu,\"ops\":%llu,\"max_depth\":%llu,\"capped\":%s,\"wall_s\":%.3f,\"suites\":%zu,\"samples\":[%s],\"per_suite\":[%s]}\n",
				(unsigned long long)states, (unsigned long long)trans, (unsigned long long)hist, (unsigned long long)ops, (unsigned long long)depth,
				capped ? "true" : "false", now() - t0, finished.size(), samples.c_str(), per.c_str());
			fclose(f);
		}
		printf("%s: suites=%zu states=%llu transitions=%llu histories=%llu ops=%llu capped=%d %.1fs\n", prop.c_str(), finished.size(),
			(unsigned long long)states, (unsigned long long)trans, (unsigned long long)hist, (unsigned long long)ops, int(capped) * 2 + int(deep), now() - t0);
		if (violation) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), report.c_str()); return 1; }
		return broken ? 2 : 0;
	}
}

// ---- system allocation interposition (link with -Wl,--wrap=...) ---------------------------------------
extern "C"
{
	void* __real_malloc(size_t);
	void __real_free(void*);
	void* __real_calloc(size_t, size_t);
	void* __real_realloc(void*, size_t);
	void* __real_aligned_alloc(size_t, size_t);
	int __real_posix_memalign(void**, size_t, size_t);

	void* __wrap_malloc(size_t n)
	{
		if (!mc::world().active()) return __real_malloc(n);
		return mc::world().sys_malloc(n, 16);
	}
	void __wrap_free(void* p)
	{
		mc::World& w = mc::world();
		if (w.is_sys(p) || (w.active() && p)) { w.sys_free(p); return; }
		__real_free(p);
	}
	void* __wrap_calloc(size_t n, size_t m)
	{
		if (!mc::world().active()) return __real_calloc(n, m);
		if (m && n > SIZE_MAX / m) return nullptr;
		void* p = mc::world().sys_malloc(n * m, 16);
		if (p) memset(p, 0, n * m);
		return p;
	}
	void* __wrap_realloc(void* p, size_t n)
	{
		mc::World& w = mc::world();
		if (!w.active()) return __real_realloc(p, n);
		if (!p) return w.sys_malloc(n, 16);
		auto* b = (w.sysB.contains(p) ? w.sysB : w.sys).find(p);
		if (!b) { mc::fail("realloc() of a pointer that is not a live system block"); return nullptr; }
		size_t old = b->n;
		void* q = w.sys_malloc(n, 16);
		if (!q) return nullptr;
		memcpy(q, p, old < n ? old : n);
		w.sys_free(p);
		return q;
	}
	void* __wrap_aligned_alloc(size_t a, size_t n)
	{
		if (!mc::world().active()) return __real_aligned_alloc(a, n);
		return mc::world().sys_malloc(n, a);
	}
	int __wrap_posix_memalign(void** out, size_t a, size_t n)
	{
		if (!mc::world().active()) return __real_posix_memalign(out, a, n);
		if (a == 0 || (a & (a - 1)) || a % sizeof(void*)) return EINVAL;
		void* p = mc::world().sys_malloc(n, a);
		if (!p) return ENOMEM;
		*out = p;
		return 0;
	}
}

int main(int argc, char** argv) { return mc::run_main(argc, argv); }
