// Stateless model checker for threads that run the real KTL code.
//
// A Test is a small concurrent program.  The explorer runs it again and again with real threads of which exactly one
// runs at a time; the threads hand over only at synchronisation operations (mutexes, atomics, guards of static
// variables), and every order of these operations is explored (dynamic partial-order reduction with sleep sets, or all
// schedules up to a number of preemptions).  Everything in between is watched by a happens-before race detector on the
// instrumented loads and stores, so that the orders that are not explored cannot matter.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sched
{
	constexpr int MAXT = 4; // worker threads

	// Reports a violation; does not return
	void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
	bool thorough();

	class Test
	{
	public:
		virtual ~Test() {}
		virtual int threads() const = 0;
		virtual int steps(int t) const = 0;
		virtual void setup() = 0;                    // main thread, before the threads start
		virtual void step(int t, int k) = 0;         // thread t
		virtual void end(int) {}                     // thread t, at its end
		virtual void finish() = 0;                   // main thread, after all threads ended
		virtual std::string describe() const = 0;
		virtual std::string describe(int t, int k) const = 0;
		bool reference = true;                       // every outcome must be that of some sequential order of the steps
		int preemptions = -1;                        // >= 0: explore all schedules with at most that many preemptions
		int horizon = 3000;                          // synchronisation operations per execution
	};
	// An observation made by the current step (part of the outcome)
	void result(long v);
	// Where is this address, independently of where the arena is?
	long place(const void* p);
	bool live(const void* p, size_t n);              // inside one block that is not freed
	size_t blocks();                                 // blocks that are not freed (harness objects included)

	// An object of the harness or of the library under test that the threads share
	void* object(size_t n, size_t align);
	void release(void* p);
	template<class T, class... A>
	T* make(A&&... a) { return ::new (object(sizeof(T), alignof(T))) T(std::forward<A>(a)...); }
	template<class T>
	void destroy(T* p) { p->~T(); release(const_cast<void*>(static_cast<const volatile void*>(p))); }

	class Explorer
	{
	public:
		bool run(Test& t);                           // all schedules of one program; false: none, there is no more time
		bool stop() const;                           // out of time
		std::set<std::vector<long>> last;            // the outcomes of the last program
	};
	void add(const std::string& name, std::function<void(Explorer&)> fn);
	struct Registrar { explicit Registrar(void (*f)()); };
#define SCHED_SUITES \
	static void sched_register_suites(); \
	static ::sched::Registrar s_SchedRegistrar(&sched_register_suites); \
	static void sched_register_suites()
}
