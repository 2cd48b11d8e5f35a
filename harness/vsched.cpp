#include "vsched.hpp"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" void __attribute__((weak)) vs_mem_ignore(int);
namespace vs {
static void mi(int d) { if (vs_mem_ignore) vs_mem_ignore(d); }
enum State { RUN, WMUTEX, WCOND, WJOIN, WPRED, DONE };
struct Task {
	int id; State st = RUN; std::atomic<int> go{0};
	void *mtx = nullptr; bool mwrite = true; void *cond = nullptr; bool signaled = false, timed = false, timedout = false; int join = -1;
	const std::function<bool()> *pred = nullptr; const char *what = "";
	pthread_t th; void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr; bool joined = false;
	long prio = 0;
};
static std::atomic<bool> act{false};
static std::vector<Task *> tasks;
static thread_local Task *me = nullptr;
static thread_local int inside = 0; // inside the scheduler: primitives pass through
struct MState { int owner = -1; int readers = 0; int again = 0; };
static std::map<void *, MState> *mtx;
static Params P; static uint64_t rng, nsteps, nswitch, thash; static std::vector<uint64_t> changes; static long lowprio; static int ntask;
static void (*stuck_cb)(const char *, const std::string &, void *); static void *stuck_arg;

static uint64_t rnd() { uint64_t z = (rng += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static long sys6(long n, long a, long b, long c, long d, long e, long f) { // syscall() itself is replaced below
	register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f; long r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
	return r;
}
static void fwait(std::atomic<int> &a) { while (a.exchange(0, std::memory_order_acquire) == 0) sys6(SYS_futex, (long)&a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }
static void fwake(std::atomic<int> &a) { a.store(1, std::memory_order_release); sys6(SYS_futex, (long)&a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static bool mfree(Task *t) { auto i = mtx->find(t->mtx); if (i == mtx->end()) return true; return t->mwrite ? i->second.owner < 0 && i->second.readers == 0 : i->second.owner < 0; }
static bool runnable(Task *t) {
	switch (t->st) {
	case RUN: return true;
	case WMUTEX: return mfree(t);
	case WCOND: return t->signaled && mfree(t);
	case WJOIN: return tasks[t->join]->st == DONE;
	case WPRED: return (*t->pred)();
	default: return false;
	}
}
static std::string describe() {
	std::string s; char b[200];
	for (auto t : tasks) {
		if (t->st == DONE) continue;
		const char *n = t->st == RUN ? "running" : t->st == WMUTEX ? "waiting for a mutex" : t->st == WCOND ? "waiting on a condition variable" : t->st == WJOIN ? "joining a thread" : t->what;
		snprintf(b, sizeof b, "thread %d: %s; ", t->id, n); s += b;
	}
	return s;
}
// Picks the next task and hands the token over; returns when this task has it again (unless it is done).
static void reschedule(bool sync, bool may_stay, bool forced_low = false) {
	inside++;
	Task *cur = me; nsteps++;
	if (nsteps > P.max_steps) { stuck_cb("livelock", describe(), stuck_arg); _exit(3); }
	Task *next = nullptr;
	bool stay = may_stay && cur->st == RUN;
	if (P.strategy == 1) {
		for (auto c : changes) if (c == nsteps) cur->prio = --lowprio;
		if (forced_low) cur->prio = --lowprio;
		long best = 0;
		for (auto t : tasks) if (t->st != DONE && runnable(t) && (!next || t->prio > best)) { next = t; best = t->prio; }
	} else {
		bool sw = !stay || (P.strategy == 0 && (sync ? rnd() % 100 < P.p_sync : true)) || forced_low;
		if (!sw) next = cur;
		else {
			Task *cand[64]; int n = 0;
			for (auto t : tasks) if (t->st != DONE && n < 64 && runnable(t)) cand[n++] = t;
			if (n) { next = cand[rnd() % n]; if (forced_low && n > 1) while (next == cur) next = cand[rnd() % n]; }
		}
	}
	if (P.spurious && next && rnd() % 1000 < P.spurious) { // wake some waiter without a signal
		Task *cand[64]; int n = 0; for (auto t : tasks) if (t->st == WCOND && !t->signaled && mfree(t) && n < 64) cand[n++] = t;
		if (n) { next = cand[rnd() % n]; next->signaled = true; }
	}
	if (!next) { // timed waits expire when nothing else can happen
		for (auto t : tasks) if (t->st == WCOND && t->timed && mfree(t)) { next = t; t->timedout = true; t->signaled = true; break; }
	}
	if (!next) { stuck_cb("deadlock", describe(), stuck_arg); _exit(3); }
	if (next != cur) { nswitch++; thash = (thash ^ (uint64_t)(next->id + 1 + nsteps * 64)) * 0x100000001b3ULL; }
	// grant what it was waiting for
	if (next->st == WMUTEX || next->st == WCOND) { mi(1); auto &m = (*mtx)[next->mtx]; mi(-1); if (next->mwrite) m.owner = next->id; else m.readers++; }
	next->st = RUN;
	if (next != cur) {
		bool dying = cur->st == DONE;
		fwake(next->go);
		if (!dying) fwait(cur->go);
	}
	inside--;
}
static inline bool on() { return act.load(std::memory_order_relaxed) && me && !inside; }

bool active() { return act; }
int self() { return me ? me->id : -1; }
unsigned created() { return tasks.size(); }
uint64_t steps() { return nsteps; }
uint64_t switches() { return nswitch; }
uint64_t trace_hash() { return thash; }
void yield() { if (on()) reschedule(true, true); else if (!act) sched_yield(); }
void block_until(const std::function<bool()> &pred, const char *what) {
	if (!on()) return;
	me->st = WPRED; me->pred = &pred; me->what = what;
	reschedule(true, false);
}
void begin(const Params &p, void (*cb)(const char *, const std::string &, void *), void *arg) {
	if (!mtx) mtx = new std::map<void *, MState>();
	mtx->clear(); for (auto t : tasks) delete t; tasks.clear();
	P = p; rng = p.seed; nsteps = nswitch = 0; thash = 1; stuck_cb = cb; stuck_arg = arg; lowprio = 0; ntask = 0; changes.clear();
	if (p.strategy == 1) for (unsigned i = 0; i < p.depth; i++) changes.push_back(1 + rnd() % (p.horizon ? p.horizon : 1));
	me = new Task; me->id = 0; me->prio = 1 + (long)(rnd() >> 40); me->th = pthread_self(); tasks.push_back(me);
	act = true;
}
bool end(unsigned *alive) {
	unsigned n = 0; for (auto t : tasks) if (t != me && t->st != DONE) n++;
	if (alive) *alive = n;
	act = false; me = nullptr;
	return n == 0;
}
static void *tramp(void *a) {
	Task *t = (Task *)a; me = t;
	fwait(t->go);
	void *r = t->fn(t->arg);
	t->ret = r;
	inside++; t->st = DONE; inside--;
	reschedule(true, false);
	me = nullptr;
	return r;
}
static int real_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
	static auto fn = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create"); return fn(t, a, f, x);
}
static int real_join(pthread_t t, void **r) { static auto fn = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join"); return fn(t, r); }
#define REAL(name, type) static auto real = (type)dlsym(RTLD_NEXT, name)
}
using namespace vs;

extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
	if (!on()) return real_create(out, attr, fn, arg);
	inside++; mi(1);
	Task *t = new Task; t->id = (int)tasks.size(); t->fn = fn; t->arg = arg; t->prio = 1 + (long)(rnd() >> 40); tasks.push_back(t);
	int r = real_create(&t->th, attr, tramp, t);
	if (r) { t->st = DONE; inside--; mi(-1); return r; }
	*out = t->th; inside--; mi(-1);
	reschedule(true, true);
	return 0;
}
int pthread_join(pthread_t th, void **ret) {
	if (!on()) return real_join(th, ret);
	Task *t = nullptr; for (auto x : tasks) if (!x->joined && x != tasks[0] && pthread_equal(x->th, th)) t = x;
	if (!t) return real_join(th, ret);
	me->st = WJOIN; me->join = t->id;
	reschedule(true, false);
	t->joined = true;
	return real_join(th, ret);
}
static bool relock(pthread_mutex_t *m) { // recursive mutexes
	if ((m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) return false;
	auto i = mtx->find(m); if (i == mtx->end() || i->second.owner != me->id) return false;
	i->second.again++; return true;
}
static int lock_(void *m, bool write) {
	reschedule(true, true);
	me->mtx = m; me->mwrite = write; me->st = WMUTEX;
	if (mfree(me)) { mi(1); auto &s = (*mtx)[m]; mi(-1); if (write) s.owner = me->id; else s.readers++; me->st = RUN; }
	else reschedule(true, false);
	return 0;
}
static int try_(void *m, bool write) {
	reschedule(true, true);
	me->mtx = m; me->mwrite = write; if (!mfree(me)) return EBUSY;
	inside++; mi(1); auto &s = (*mtx)[m]; mi(-1); inside--; if (write) s.owner = me->id; else s.readers++;
	return 0;
}
static int unlock_(void *m) {
	inside++;
	auto i = mtx->find(m);
	if (i != mtx->end() && i->second.again > 0) { i->second.again--; inside--; return 0; }
	if (i != mtx->end()) { if (i->second.owner >= 0) i->second.owner = -1; else if (i->second.readers > 0) i->second.readers--; if (i->second.owner < 0 && i->second.readers == 0) mtx->erase(i); }
	inside--;
	reschedule(true, true);
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { REAL("pthread_mutex_lock", int (*)(pthread_mutex_t *)); return on() ? (relock(m) ? 0 : lock_(m, true)) : real(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { REAL("pthread_mutex_trylock", int (*)(pthread_mutex_t *)); return on() ? (relock(m) ? 0 : try_(m, true)) : real(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { REAL("pthread_mutex_unlock", int (*)(pthread_mutex_t *)); return on() ? unlock_(m) : real(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { REAL("pthread_rwlock_rdlock", int (*)(pthread_rwlock_t *)); return on() ? lock_(m, false) : real(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { REAL("pthread_rwlock_wrlock", int (*)(pthread_rwlock_t *)); return on() ? lock_(m, true) : real(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { REAL("pthread_rwlock_unlock", int (*)(pthread_rwlock_t *)); return on() ? unlock_(m) : real(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { REAL("pthread_rwlock_tryrdlock", int (*)(pthread_rwlock_t *)); return on() ? try_(m, false) : real(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { REAL("pthread_rwlock_trywrlock", int (*)(pthread_rwlock_t *)); return on() ? try_(m, true) : real(m); }
// a timed lock that is not free expires or gets the lock, as the scheduler likes
static int timed_(void *m) { for (int i = 0; i < 3; i++) { if (!try_(m, true)) return 0; if (rnd() % 4 == 0) return ETIMEDOUT; reschedule(true, true, true); } return ETIMEDOUT; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { REAL("pthread_mutex_timedlock", int (*)(pthread_mutex_t *, const struct timespec *)); return on() ? (relock(m) ? 0 : timed_(m)) : real(m, t); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *t) { REAL("pthread_mutex_clocklock", int (*)(pthread_mutex_t *, clockid_t, const struct timespec *)); return on() ? (relock(m) ? 0 : timed_(m)) : real(m, k, t); }
// futexes (std::future, std::atomic wait go through syscall())
static std::atomic<unsigned> fcount[256];
static unsigned &fslot(const void *a) { return *(unsigned *)&fcount[((uintptr_t)a >> 2) * 0x9e3779b1u >> 8 & 255]; }
long syscall(long n, ...) noexcept {
	va_list v; va_start(v, n); long a[6]; for (auto &x : a) x = va_arg(v, long); va_end(v);
	if (n != SYS_futex || !on()) return sys6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	int op = (int)a[1] & 127; volatile int *p = (volatile int *)a[0];
	if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
		if (*p != (int)a[2]) { errno = EAGAIN; return -1; }
		unsigned &s = fslot((void *)p); unsigned was = s; int val = (int)a[2];
		if (a[3]) { for (int i = 0; i < 4; i++) { if (*p != val || s != was) return 0; if (rnd() % 4 == 0) break; reschedule(true, true, true); } if (*p != val || s != was) return 0; errno = ETIMEDOUT; return -1; }
		std::function<bool()> f = [&s, was, p, val] { return s != was || *p != val; }; block_until(f, "waiting on a futex"); return 0;
	}
	if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { fslot((void *)p)++; reschedule(true, true); return 1; }
	return sys6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
// semaphores: the value is in the low half of the first word
int sem_trywait(sem_t *x) noexcept {
	REAL("sem_trywait", int (*)(sem_t *)); if (!on()) return real(x);
	reschedule(true, true); if (!real(x)) return 0; errno = EAGAIN; return -1;
}
int sem_wait(sem_t *x) {
	REAL("sem_wait", int (*)(sem_t *)); if (!on()) return real(x);
	for (;;) { if (!sem_trywait(x)) return 0; volatile unsigned *w = (volatile unsigned *)x; std::function<bool()> f = [w] { return *w != 0; }; block_until(f, "waiting for a semaphore"); }
}
int sem_timedwait(sem_t *x, const struct timespec *t) { REAL("sem_timedwait", int (*)(sem_t *, const struct timespec *)); if (!on()) return real(x, t); for (int i = 0; i < 4; i++) { if (!sem_trywait(x)) return 0; reschedule(true, true, true); } errno = ETIMEDOUT; return -1; }
int sem_post(sem_t *x) noexcept { REAL("sem_post", int (*)(sem_t *)); int r = real(x); if (on()) reschedule(true, true); return r; }
// barriers: kept in the barrier's own memory while the scheduler is in charge
struct VBar { unsigned magic, n, in, gen; };
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n) noexcept { REAL("pthread_barrier_init", int (*)(pthread_barrier_t *, const pthread_barrierattr_t *, unsigned)); if (!on()) return real(b, a, n); if (!n) return EINVAL; *(VBar *)b = {0x76626172, n, 0, 0}; return 0; }
int pthread_barrier_destroy(pthread_barrier_t *b) noexcept { REAL("pthread_barrier_destroy", int (*)(pthread_barrier_t *)); return ((VBar *)b)->magic == 0x76626172 ? 0 : real(b); }
int pthread_barrier_wait(pthread_barrier_t *b) noexcept {
	REAL("pthread_barrier_wait", int (*)(pthread_barrier_t *)); VBar *v = (VBar *)b; if (!on() || v->magic != 0x76626172) return real(b);
	reschedule(true, true); if (++v->in == v->n) { v->in = 0; v->gen++; reschedule(true, true); return PTHREAD_BARRIER_SERIAL_THREAD; }
	volatile unsigned *gen = &v->gen; unsigned was = *gen; std::function<bool()> f = [gen, was] { return *gen != was; }; block_until(f, "waiting at a pthread barrier"); return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
	inside++;
	auto i = mtx->find(m); if (i != mtx->end()) mtx->erase(i);
	me->cond = c; me->mtx = m; me->mwrite = true; me->signaled = false; me->timed = timed; me->timedout = false; me->st = WCOND;
	if (timed && rnd() % 4 == 0) { me->signaled = true; me->timedout = true; }
	inside--;
	reschedule(true, false);
	return me->timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { REAL("pthread_cond_wait", int (*)(pthread_cond_t *, pthread_mutex_t *)); return on() ? cwait(c, m, false) : real(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { REAL("pthread_cond_timedwait", int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)); return on() ? cwait(c, m, true) : real(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { REAL("pthread_cond_clockwait", int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)); return on() ? cwait(c, m, true) : real(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t *c) {
	REAL("pthread_cond_signal", int (*)(pthread_cond_t *));
	if (!on()) return real(c);
	inside++;
	Task *cand[64]; int n = 0; for (auto t : tasks) if (t->st == WCOND && !t->signaled && t->cond == c && n < 64) cand[n++] = t;
	if (n) cand[rnd() % n]->signaled = true;
	inside--;
	reschedule(true, true);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	REAL("pthread_cond_broadcast", int (*)(pthread_cond_t *));
	if (!on()) return real(c);
	for (auto t : tasks) if (t->st == WCOND && t->cond == c) t->signaled = true;
	reschedule(true, true);
	return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) { REAL("pthread_cond_destroy", int (*)(pthread_cond_t *)); return on() ? 0 : real(c); }
int sched_yield(void) { if (!on()) return (int)sys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); reschedule(true, true, true); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { REAL("nanosleep", int (*)(const struct timespec *, struct timespec *)); if (!on()) return real(a, b); reschedule(true, true, true); return 0; }
int clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) { REAL("clock_nanosleep", int (*)(clockid_t, int, const struct timespec *, struct timespec *)); if (!on()) return real(k, f, a, b); reschedule(true, true, true); return 0; }
int usleep(useconds_t u) { REAL("usleep", int (*)(useconds_t)); if (!on()) return real(u); reschedule(true, true, true); return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
	REAL("pthread_once", int (*)(pthread_once_t *, void (*)(void)));
	if (!on()) return real(o, f);
	int *v = (int *)o; // glibc: bit 1 = done
	if (*v & 2) return 0;
	if (*v & 1) { std::function<bool()> p = [v] { return (*v & 2) != 0 || *v == 0; }; block_until(p, "waiting for once"); return pthread_once(o, f); }
	*v = 1; f(); *v = 2; reschedule(true, true);
	return 0;
}
// function-local statics
int __cxa_guard_acquire(uint64_t *g) {
	volatile uint8_t *b = (volatile uint8_t *)g;
	for (;;) {
		if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
		uint8_t z = 0;
		if (__atomic_compare_exchange_n((uint8_t *)&b[1], &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return __atomic_load_n(&b[0], __ATOMIC_ACQUIRE) ? (b[1] = 0, 0) : 1;
		if (on()) { std::function<bool()> p = [b] { return b[1] == 0; }; block_until(p, "waiting for a static"); } else sys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
	}
}
void __cxa_guard_release(uint64_t *g) { uint8_t *b = (uint8_t *)g; __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE); __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE); }
void __cxa_guard_abort(uint64_t *g) { __atomic_store_n(&((uint8_t *)g)[1], 0, __ATOMIC_RELEASE); }

// ---- calls inserted by -fsanitize=thread ------------------------------------------------------------------
static inline void acc() {
	if (!act.load(std::memory_order_relaxed) || !me || inside || !P.p_access) return;
	if (P.strategy == 1) { reschedule(false, true); return; }
	if (P.strategy == 0 && rnd() % 10000 < P.p_access) reschedule(false, true);
}
static inline void atom() { if (on()) reschedule(true, true); }
void __tsan_init() {}
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *) { acc(); } void __tsan_write##n(void *) { acc(); } void __tsan_read_write##n(void *) { acc(); } \
	void __tsan_unaligned_read##n(void *) { acc(); } void __tsan_unaligned_write##n(void *) { acc(); } void __tsan_unaligned_read_write##n(void *) { acc(); } \
	void __tsan_volatile_read##n(void *) { acc(); } void __tsan_volatile_write##n(void *) { acc(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, unsigned long) { acc(); } void __tsan_write_range(void *, unsigned long) { acc(); }
void __tsan_vptr_update(void **, void *) { acc(); } void __tsan_vptr_read(void **) { acc(); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { acc(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { acc(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { acc(); return memset(d, c, n); }
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *p, int) { atom(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T *p, T v, int) { atom(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { atom(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { atom(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { atom(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { atom(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { atom(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { atom(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { atom(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atom(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { atom(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atom(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { atom(); } void __tsan_atomic_signal_fence(int) {}
}
// All interposed calls must be in effect, also for calls made from libstdc++.
#include <condition_variable>
#include <mutex>
#include <thread>
namespace vs {
void selftest() {
	Params p; p.strategy = 0; p.seed = 7;
	begin(p, [](const char *k, const std::string &w, void *) { fprintf(stderr, "self test: %s %s\n", k, w.c_str()); abort(); }, nullptr);
	{
		std::mutex m; std::condition_variable cv; bool f = false;
		std::thread t([&] { std::lock_guard<std::mutex> l(m); f = true; cv.notify_all(); });
		if (tasks.size() != 2) { fprintf(stderr, "thread creation is not interposed\n"); abort(); }
		{ std::unique_lock<std::mutex> l(m); uint64_t s = nsteps; cv.wait(l, [&] { return f; }); (void)s; }
		t.join();
	}
	if (nsteps < 4) { fprintf(stderr, "synchronisation is not interposed\n"); abort(); }
	unsigned a; if (!end(&a)) { fprintf(stderr, "self test: %u threads left\n", a); abort(); }
}
}
