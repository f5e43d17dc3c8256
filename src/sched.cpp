#include "interleave.h"
#include <unistd.h>
#include "mc.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <execinfo.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>

namespace {
	const int MAXT = 6;
	using Clock = std::vector<unsigned>;
	struct Thread {
		sem_t sem;
		pthread_t handle;
		const std::function<void()>* fn = nullptr;
		const void* blockedOn = nullptr; // mutex waited for
		bool done = false;
		char *stackLo = nullptr, *stackHi = nullptr;
		Clock clock;
		std::string error;
	};
	Thread th[MAXT];
	int nThreads = 0, current = -1, budget = 0;
	bool active = false;
	sem_t mainSem;
	thread_local int me = -1;
	thread_local int inside = 0; // in the runtime
	std::string race;
	struct Lock {
		int owner = -1, count = 0;
		Clock clock;
	};
	std::map<const void*, Lock>* locks;
	std::map<const void*, Clock>* syncs; // atomics
	struct Cell {
		int wt = -1;
		unsigned wc = 0;
		unsigned r[MAXT] = {}; // clock of the last read of each thread, 0 if none
	};
	std::unordered_map<uintptr_t, Cell>* shadow;
	struct In {
		In() { inside++; }
		~In() { inside--; }
	};
	void join(Clock& a, const Clock& b)
	{
		for (size_t i = 0; i < b.size(); i++)
			a[i] = std::max(a[i], b[i]);
	}
	bool enabled(int i)
	{
		if (th[i].done)
			return false;
		if (th[i].blockedOn) {
			auto it = locks->find(th[i].blockedOn);
			return it == locks->end() || it->second.owner < 0;
		}
		return true;
	}
	void switchTo(int t)
	{
		int prev = current;
		current = t;
		sched::switches++;
		sem_post(&th[t].sem);
		if (prev >= 0 && !th[prev].done)
			while (sem_wait(&th[prev].sem))
				;
	}
	/// The running thread cannot continue: hand over to another one.
	void handOver()
	{
		std::vector<int> o;
		for (int i = 0; i < nThreads; i++)
			if (i != current && enabled(i))
				o.push_back(i);
		if (o.empty()) {
			for (int i = 0; i < nThreads; i++)
				if (!th[i].done) {
					fprintf(stderr, "Assertion: deadlock: no thread can run\n");
					_exit(78);
				}
			current = -1;
			sem_post(&mainSem);
			return;
		}
		switchTo(o[mc::choose((int)o.size())]);
	}
	void point()
	{
		if (me < 0 || !active || inside > 1)
			return;
		sched::points++;
		if (budget <= 0)
			return;
		int o[MAXT], n = 0;
		for (int i = 0; i < nThreads; i++)
			if (i != me && enabled(i))
				o[n++] = i;
		if (!n)
			return;
		int c = mc::choose(n + 1);
		if (c) {
			budget--;
			switchTo(o[c - 1]);
		}
	}
	bool debug = getenv("VERIF_RACE_DEBUG");
	void access(const void* p, size_t n, bool write)
	{
		if (me < 0 || !active || inside)
			return;
		In in;
		if ((char*)p >= th[me].stackLo && (char*)p < th[me].stackHi)
			return;
		point();
		Thread& t = th[me];
		for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a++) {
			Cell& c = (*shadow)[a];
			if (c.wt >= 0 && c.wt != me && c.wc > t.clock[c.wt] && race.empty())
				race = (std::string)(mc::Str() << "thread " << me << (write ? " writes" : " reads") << " memory that thread " << c.wt << " writes, without synchronisation");
			if (debug && !race.empty()) {
				fprintf(stderr, "%s: %p size %zu\n", race.c_str(), p, n);
				void* bt[20];
				backtrace_symbols_fd(bt, backtrace(bt, 20), 2);
				abort();
			}
			if (write) {
				for (int i = 0; i < nThreads; i++)
					if (i != me && c.r[i] > t.clock[i] && race.empty())
						race = (std::string)(mc::Str() << "thread " << me << " writes memory that thread " << i << " reads, without synchronisation");
				c = Cell();
				c.wt = me;
				c.wc = t.clock[me];
			} else
				c.r[me] = t.clock[me];
		}
	}
	void acquire(Clock& c)
	{
		c.resize(MAXT);
		join(th[me].clock, c);
	}
	void release(Clock& c)
	{
		c.resize(MAXT);
		join(c, th[me].clock);
		th[me].clock[me]++;
	}
	void lockIt(const void* m, bool recursive)
	{
		In in;
		point();
		Lock* l = &(*locks)[m];
		if (l->owner == me && recursive) {
			l->count++;
			return;
		}
		while (l->owner >= 0) {
			th[me].blockedOn = m;
			handOver();
			th[me].blockedOn = nullptr;
			l = &(*locks)[m];
		}
		l->owner = me;
		l->count = 1;
		acquire(l->clock);
	}
	bool tryLockIt(const void* m, bool recursive)
	{
		In in;
		point();
		Lock& l = (*locks)[m];
		if (l.owner >= 0 && !(l.owner == me && recursive))
			return false;
		l.owner = me;
		l.count++;
		acquire(l.clock);
		return true;
	}
	void unlockIt(const void* m)
	{
		In in;
		Lock& l = (*locks)[m];
		if (l.owner != me) {
			if (race.empty())
				race = (std::string)(mc::Str() << "thread " << me << " unlocks a mutex that it does not hold");
			return;
		}
		if (--l.count == 0) {
			release(l.clock);
			l.owner = -1;
		}
		point();
	}
	bool on() { return me >= 0 && active && !inside; }
	enum Op { LOAD, STORE, RMW };
	/// Atomic operation: what it orders depends on its memory order.
	void sync(const void* p, Op op, int order)
	{
		if (!on())
			return;
		In in;
		point();
		Clock& c = (*syncs)[p];
		if (op != STORE && order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE)
			acquire(c);
		if (op == STORE)
			c.assign(MAXT, 0);
		if (op != LOAD && order >= __ATOMIC_RELEASE)
			release(c);
	}
	void* body(void* arg)
	{
		int i = (int)(intptr_t)arg;
		{
			inside = 1;
			pthread_attr_t a;
			void* lo;
			size_t sz;
			pthread_getattr_np(pthread_self(), &a);
			pthread_attr_getstack(&a, &lo, &sz);
			pthread_attr_destroy(&a);
			th[i].stackLo = (char*)lo;
			th[i].stackHi = (char*)lo + sz;
			while (sem_wait(&th[i].sem))
				;
			me = i;
			inside = 0;
		}
		try {
			(*th[i].fn)();
		} catch (std::exception& e) {
			inside = 1;
			th[i].error = e.what();
		} catch (mc::Violation& v) {
			inside = 1;
			th[i].error = v.msg;
		}
		inside = 1;
		th[i].done = true;
		handOver();
		return nullptr;
	}
}

namespace sched {
	int points, switches;
	int self() { return me; }
	Quiet::Quiet() { inside++; }
	Quiet::~Quiet() { inside--; }
	std::string run(const std::vector<std::function<void()>>& threads, int preemptions)
	{
		nThreads = (int)threads.size();
		std::map<const void*, Lock> l;
		std::map<const void*, Clock> s;
		std::unordered_map<uintptr_t, Cell> sh;
		locks = &l;
		syncs = &s;
		shadow = &sh;
		race.clear();
		budget = preemptions;
		points = switches = 0;
		current = -1;
		sem_init(&mainSem, 0, 0);
		active = true;
		for (int i = 0; i < nThreads; i++) {
			th[i].fn = &threads[i];
			th[i].blockedOn = nullptr;
			th[i].done = false;
			th[i].error.clear();
			th[i].clock.assign(MAXT, 0);
			th[i].clock[i] = 1;
			sem_init(&th[i].sem, 0, 0);
			if (pthread_create(&th[i].handle, nullptr, body, (void*)(intptr_t)i)) {
				fprintf(stderr, "no thread\n");
				_exit(3);
			}
		}
		int first = mc::choose(nThreads);
		current = first;
		sem_post(&th[first].sem);
		while (sem_wait(&mainSem))
			;
		for (int i = 0; i < nThreads; i++)
			pthread_join(th[i].handle, nullptr);
		active = false;
		std::string error;
		for (int i = 0; i < nThreads; i++)
			if (!th[i].error.empty() && error.empty())
				error = "thread " + std::to_string(i) + ": " + th[i].error;
		for (auto& [m, k] : l)
			if (k.owner >= 0 && error.empty())
				error = "a mutex is still locked when its thread ends";
		locks = nullptr;
		syncs = nullptr;
		shadow = nullptr;
		if (!error.empty())
			mc::fail(error);
		return race;
	}
}

// Freed memory may be given to another thread.
static void forget(void* p)
{
	if (!p || me < 0 || !active || !shadow)
		return;
	In in;
	size_t n = malloc_usable_size(p);
	if (n > 4096 && shadow->size() < n) {
		for (auto it = shadow->begin(); it != shadow->end();)
			if (it->first >= (uintptr_t)p && it->first < (uintptr_t)p + n)
				it = shadow->erase(it);
			else
				++it;
		return;
	}
	for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a++)
		shadow->erase(a);
}
void* operator new(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
static void del(void* p)
{
	if (!inside)
		forget(p);
	free(p);
}
void operator delete(void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!on())
		return __real_pthread_mutex_lock(m);
	lockIt(m, rec(m));
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!on())
		return __real_pthread_mutex_unlock(m);
	unlockIt(m);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!on())
		return __real_pthread_mutex_trylock(m);
	return tryLockIt(m, rec(m)) ? 0 : EBUSY;
}
// Readers exclude each other in this model: fewer interleavings, no missed lock.
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
	if (!on())
		return __real_pthread_rwlock_rdlock(m);
	lockIt(m, true);
	return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
	if (!on())
		return __real_pthread_rwlock_wrlock(m);
	lockIt(m, false);
	return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	if (!on())
		return __real_pthread_rwlock_unlock(m);
	unlockIt(m);
	return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*fn)())
{
	auto flag = (std::atomic<int>*)o;
	if (!on()) {
		if (!flag->load()) {
			fn();
			flag->store(2);
		}
		return 0;
	}
	lockIt(o, false);
	if (!flag->load()) {
		fn();
		flag->store(2);
	}
	unlockIt(o);
	return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g)
{
	auto b = (std::atomic<char>*)g;
	if (b->load()) {
		sync(g, LOAD, __ATOMIC_ACQUIRE);
		return 0;
	}
	if (!on())
		return 1;
	lockIt(g, false);
	if (b->load()) {
		unlockIt(g);
		return 0;
	}
	return 1;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
	((std::atomic<char>*)g)->store(1);
	if (on()) {
		sync(g, STORE, __ATOMIC_RELEASE);
		unlockIt(g);
	}
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
	if (on())
		unlockIt(g);
}
/// Operation on a stream (see the trampolines made by run.py)
void sched_stream(void* p)
{
	access(p, 1, true);
}

void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define ACC(n)                                                             \
	void __tsan_read##n(void* p) { access(p, n, false); }                  \
	void __tsan_write##n(void* p) { access(p, n, true); }                  \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false); }        \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true); }        \
	void __tsan_volatile_read##n(void* p) { access(p, n, false); }         \
	void __tsan_volatile_write##n(void* p) { access(p, n, true); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
#define ATOMIC(bits, T)                                                                                        \
	T __tsan_atomic##bits##_load(const volatile T* p, int o)                                                     \
	{                                                                                                          \
		sync((const void*)p, LOAD, o);                                                                                  \
		return __atomic_load_n(p, 5);                                                                          \
	}                                                                                                          \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int o)                                                  \
	{                                                                                                          \
		sync((const void*)p, STORE, o);                                                                                  \
		__atomic_store_n(p, v, 5);                                                                             \
	}                                                                                                          \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o)                                                  \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_exchange_n(p, v, 5);                                                                   \
	}                                                                                                          \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o)                                                 \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_fetch_add(p, v, 5);                                                                    \
	}                                                                                                          \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o)                                                 \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_fetch_sub(p, v, 5);                                                                    \
	}                                                                                                          \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o)                                                 \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_fetch_and(p, v, 5);                                                                    \
	}                                                                                                          \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o)                                                  \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_fetch_or(p, v, 5);                                                                     \
	}                                                                                                          \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o)                                                 \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_fetch_xor(p, v, 5);                                                                    \
	}                                                                                                          \
	T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o)                                                \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_fetch_nand(p, v, 5);                                                                   \
	}                                                                                                          \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int)                      \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);                                                  \
	}                                                                                                          \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int)                        \
	{                                                                                                          \
		sync((const void*)p, RMW, o);                                                                                  \
		return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);                                                  \
	}
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) { }
}
