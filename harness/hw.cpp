// C26: the cryptodev interface (src/cryptodev) against a simulated device with injected faults.
// The C library's entry points the interface uses are replaced at link time (--wrap); only calls that concern
// /dev/crypto or a simulated descriptor are served here, everything else goes to the real function.
#include "common.hpp"
#include <lib842/hw.h>
#include <crypto/cryptodev.h>
#include <fcntl.h>
#include <threads.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <condition_variable>
#include <mutex>
#include <map>
#include <thread>
#include <fstream>
#include <sstream>
#include <atomic>

enum Point { P_OPEN, P_SETFD, P_GSESSION, P_GSESSINFO, P_CRYPT, P_FSESSION, P_CLOSE, P_MALLOC, P_TSS_CREATE, P_TSS_SET, NPOINTS };
static const char *PNAME[] = {"open", "fcntl", "CIOCGSESSION", "CIOCGSESSINFO", "CIOCCRYPT", "CIOCFSESSION", "close", "malloc", "tss_create", "tss_set"};

static thread_local bool in_lib;      // allocation failures only strike inside the code under test
static thread_local int self = 0;     // index of the calling thread
static Ctx *C;

struct ChunkRes { int ret; uint32_t olen; };
struct Request { // what the caller asked for, per thread
	bool active = false; unsigned op; const uint8_t *in; uint8_t *out; size_t n, is, os; std::vector<size_t> il, ol; std::vector<ChunkRes> res;
	unsigned seen = 0; bool tablecall = false;
};
struct Dev {
	std::mutex m;
	bool present = true; uint16_t alignmask = 0; int fdbase = 900000;
	std::map<int, std::vector<uint32_t>> fds; // open descriptor -> sessions
	std::map<uint32_t, int> session_thread;  // session -> thread that opened it
	uint32_t next_ses = 1; unsigned fdcount = 0;
	// faults: per thread, point -> errno for the next hit (0: none)
	int fault[8][NPOINTS] = {}; bool hit[8][NPOINTS] = {};
	int first_err[8] = {};               // errno of the first failing call inside the current library call
	Request req[8]; unsigned opens[8] = {};
} D;

static int strike(Point p) { // returns errno to fail with, 0 otherwise
	int e = D.fault[self][p];
	if (!e) return 0;
	D.fault[self][p] = 0; D.hit[self][p] = true;
	if (!D.first_err[self]) D.first_err[self] = e;
	return e;
}
static bool simfd(int fd) { return D.fds.count(fd); }

extern "C" {
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_openat(int, const char *, int, ...);
int __real_fcntl(int, int, ...); int __real_fcntl64(int, int, ...); int __real_ioctl(int, unsigned long, ...); int __real_close(int);
int __real_access(const char *, int); int __real_faccessat(int, const char *, int, int); int __real_stat(const char *, struct stat *);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
int __real_tss_create(tss_t *, tss_dtor_t); int __real_tss_set(tss_t, void *);
int __real_pthread_key_create(pthread_key_t *, void (*)(void *)); int __real_pthread_setspecific(pthread_key_t, const void *);

static int sim_open() {
	std::lock_guard<std::mutex> l(D.m);
	if (!D.present) { if (!D.first_err[self]) D.first_err[self] = ENOENT; errno = ENOENT; return -1; }
	if (int e = strike(P_OPEN)) { errno = e; return -1; }
	int fd = D.fdbase + (int)D.fdcount++;
	D.fds[fd]; D.opens[self]++;
	return fd;
}
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return !strcmp(p, "/dev/crypto") ? sim_open() : __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return !strcmp(p, "/dev/crypto") ? sim_open() : __real_open64(p, f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return !strcmp(p, "/dev/crypto") ? sim_open() : __real_openat(d, p, f, m); }
static int sim_fcntl(int fd, int cmd) { // 1: not a descriptor of the device
	std::lock_guard<std::mutex> l(D.m);
	if (!in_lib || !simfd(fd)) return 1;
	if (cmd == F_SETFD || cmd == F_GETFD || cmd == F_GETFL || cmd == F_SETFL) { if (int e = strike(P_SETFD)) { errno = e; return -1; } return 0; }
	errno = EINVAL; return -1;
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); int r = sim_fcntl(fd, cmd); return r <= 0 ? r : __real_fcntl(fd, cmd, v); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); int r = sim_fcntl(fd, cmd); return r <= 0 ? r : __real_fcntl64(fd, cmd, v); }
int __wrap_access(const char *p, int m) { if (!strcmp(p, "/dev/crypto")) { if (D.present) return 0; errno = ENOENT; return -1; } return __real_access(p, m); }
int __wrap_faccessat(int d, const char *p, int m, int f) { if (!strcmp(p, "/dev/crypto")) { if (D.present) return 0; errno = ENOENT; return -1; } return __real_faccessat(d, p, m, f); }
int __wrap_stat(const char *p, struct stat *s) { if (!strcmp(p, "/dev/crypto")) { if (D.present) { memset(s, 0, sizeof *s); s->st_mode = S_IFCHR | 0666; return 0; } errno = ENOENT; return -1; } return __real_stat(p, s); }
int __wrap_close(int fd) {
	std::unique_lock<std::mutex> l(D.m);
	if (!simfd(fd)) { l.unlock(); if (fd >= 800000) C->fail("close of descriptor %d, which is not open", fd); return __real_close(fd); }
	D.fds.erase(fd); // like the kernel: gone even when close reports an error; its sessions go with it
	if (int e = strike(P_CLOSE)) { errno = e; return -1; }
	return 0;
}
static bool owns(int fd, uint32_t ses) { for (auto s : D.fds[fd]) if (s == ses) return true; return false; }

static void sim_crypt(struct crypt_op *o) {
	Request &r = D.req[self];
	if (!r.active) C->fail("a request reached the device although no compress/decompress call is in progress");
	r.seen++;
	if (r.seen > 1) C->fail("one call sent %u requests to the device", r.seen);
	if (o->op != r.op) C->fail("device asked for operation %u, caller asked for %u (0 compress, 1 decompress)", o->op, r.op);
	if (o->src != r.in || o->dst != r.out) C->fail("device got buffers %p/%p, caller gave %p/%p", o->src, o->dst, r.in, r.out);
	if (o->numchunks != r.n) C->fail("device got %u chunks, caller gave %zu", o->numchunks, r.n);
	if (r.n > CRYPTODEV_COMP_MAX_CHUNKS) C->fail("a request of %zu chunks reached a device that takes %d", r.n, CRYPTODEV_COMP_MAX_CHUNKS);
	if (o->len != r.n * r.is || o->dlen != r.n * r.os) C->fail("device got buffer sizes %u/%u, caller's strides mean %zu/%zu", o->len, o->dlen, r.n * r.is, r.n * r.os);
	for (size_t i = 0; i < r.n; i++) {
		uint64_t want = r.il[i] == SIZE_MAX ? UINT32_MAX : r.il[i];
		if (o->chunklens[i] != want) C->fail("chunk %zu: device got input length %u, caller gave %zu", i, o->chunklens[i], r.il[i]);
		if (o->chunkdlens[i] != r.ol[i]) C->fail("chunk %zu: device got output space %u, caller gave %zu", i, o->chunkdlens[i], r.ol[i]);
		if (r.il[i] == SIZE_MAX) continue;
		o->chunkrets[i] = r.res[i].ret; o->chunkdlens[i] = r.res[i].olen;
	}
}
int __wrap_ioctl(int fd, unsigned long rq, ...) {
	va_list a; va_start(a, rq); void *p = va_arg(a, void *); va_end(a);
	std::unique_lock<std::mutex> l(D.m);
	if (!simfd(fd)) {
		l.unlock();
		if (fd >= 800000) C->fail("ioctl on descriptor %d, which is not open", fd);
		return __real_ioctl(fd, rq, p);
	}
	auto bad = [&](int e) { if (!D.first_err[self]) D.first_err[self] = e; errno = e; return -1; };
	if (rq == CIOCGSESSION) {
		if (int e = strike(P_GSESSION)) { errno = e; return -1; }
		struct session_op *s = (struct session_op *)p;
		if (s->compr != CRYPTO_842 || s->cipher || s->mac || s->keylen || s->mackeylen) C->fail("session asked for with algorithms cipher %u mac %u compr %u", s->cipher, s->mac, s->compr);
		s->ses = 0x10000u * (uint32_t)(self + 1) + D.next_ses++;
		D.fds[fd].push_back(s->ses); D.session_thread[s->ses] = self;
		return 0;
	}
#ifdef CIOCGSESSINFO
	if (rq == CIOCGSESSINFO) {
		if (int e = strike(P_GSESSINFO)) { errno = e; return -1; }
		struct session_info_op *s = (struct session_info_op *)p;
		if (!owns(fd, s->ses)) return bad(EINVAL);
		memset(s->compr_info.cra_name, 0, sizeof s->compr_info.cra_name); strcpy(s->compr_info.cra_name, "842");
		s->alignmask = D.alignmask; s->flags = 0;
		return 0;
	}
#endif
	if (rq == CIOCFSESSION) {
		uint32_t s = *(__u32 *)p;
		if (int e = strike(P_FSESSION)) { errno = e; return -1; }
		if (!owns(fd, s)) C->fail("release of session %u, which is not open on that descriptor", s);
		auto &v = D.fds[fd]; for (size_t i = 0; i < v.size(); i++) if (v[i] == s) { v.erase(v.begin() + i); break; }
		return 0;
	}
	if (rq == CIOCCRYPT) {
		struct crypt_op *o = (struct crypt_op *)p;
		if (!owns(fd, o->ses)) C->fail("request uses session %u, which is not open on that descriptor", o->ses);
		if (D.session_thread[o->ses] != self) C->fail("thread %d uses the session of thread %d", self, D.session_thread[o->ses]);
		if (int e = strike(P_CRYPT)) { D.req[self].seen++; errno = e; return -1; }
		sim_crypt(o);
		return 0;
	}
	return bad(ENOTTY);
}
void *__wrap_malloc(size_t n) {
	if (!in_lib) return __real_malloc(n);
	in_lib = false;
	int e; { std::lock_guard<std::mutex> l(D.m); e = strike(P_MALLOC); }
	void *p = e ? nullptr : __real_malloc(n);
	if (p) memset(p, 0xD7, n);
	in_lib = true;
	if (e) errno = ENOMEM;
	return p;
}
void *__wrap_calloc(size_t k, size_t n) {
	if (!in_lib) return __real_calloc(k, n);
	in_lib = false;
	int e; { std::lock_guard<std::mutex> l(D.m); e = strike(P_MALLOC); }
	void *p = e ? nullptr : __real_calloc(k, n);
	in_lib = true;
	if (e) errno = ENOMEM;
	return p;
}
int __wrap_tss_create(tss_t *k, tss_dtor_t d) { if (in_lib) { std::lock_guard<std::mutex> l(D.m); if (strike(P_TSS_CREATE)) return thrd_error; } return __real_tss_create(k, d); }
int __wrap_tss_set(tss_t k, void *v) { if (in_lib) { std::lock_guard<std::mutex> l(D.m); if (strike(P_TSS_SET)) return thrd_error; } return __real_tss_set(k, v); }
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { if (in_lib) { std::lock_guard<std::mutex> l(D.m); if (int e = strike(P_TSS_CREATE)) return e; } return __real_pthread_key_create(k, d); }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { if (in_lib) { std::lock_guard<std::mutex> l(D.m); if (int e = strike(P_TSS_SET)) return e; } return __real_pthread_setspecific(k, v); }
const char *__tsan_default_options() { return "atexit_sleep_ms=0:exitcode=66"; }
// the thread sanitizer knows the POSIX functions but not their C11 names (which are the same things in glibc)
void __wrap_call_once(once_flag *f, void (*fn)(void)) { static_assert(sizeof(once_flag) == sizeof(pthread_once_t), ""); pthread_once((pthread_once_t *)f, fn); }
int __wrap_mtx_lock(mtx_t *m) { return pthread_mutex_lock((pthread_mutex_t *)m) ? thrd_error : thrd_success; }
int __wrap_mtx_unlock(mtx_t *m) { return pthread_mutex_unlock((pthread_mutex_t *)m) ? thrd_error : thrd_success; }
int __wrap_mtx_init(mtx_t *m, int) { return pthread_mutex_init((pthread_mutex_t *)m, nullptr) ? thrd_error : thrd_success; }
}

// ---- threads that run commands on request ------------------------------------------------------------------
struct Worker {
	std::thread th; std::mutex m; std::condition_variable cv; std::function<void()> job; bool busy = false, quit = false, up = false;
	void start(int idx) {
		quit = false; up = true;
		th = std::thread([this, idx] {
			self = idx;
			std::unique_lock<std::mutex> l(m);
			for (;;) { cv.wait(l, [&] { return busy || quit; }); if (busy) { auto j = job; l.unlock(); j(); l.lock(); busy = false; cv.notify_all(); } else return; }
		});
	}
	void post(std::function<void()> j) { std::lock_guard<std::mutex> l(m); job = j; busy = true; cv.notify_all(); }
	void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !busy; }); }
	void end() { { std::lock_guard<std::mutex> l(m); quit = true; cv.notify_all(); } th.join(); up = false; }
};

struct Call { Request r; bool chunked, table; bool plain_single; int faults; std::string text; };

static size_t gen_stride(Gen &g, size_t n) {
	switch (g.weighted({8, 2, 2, 2, 2, 2, 1, 1})) {
	case 0: return g.logsize(0, 70000);
	case 1: return UINT32_MAX / (n ? n : 1) - (size_t)g.below(3);
	case 2: return UINT32_MAX / (n ? n : 1) + (size_t)g.below(3);
	case 3: return (size_t)UINT32_MAX + g.below(3);
	case 4: return g.below(UINT32_MAX);
	case 5: return g.below(0);
	case 6: return ((size_t)1 << 32) / (n ? n : 1) * g.range(1, 3); // multiples that wrap to something small
	default: return SIZE_MAX - g.below(3);
	}
}
static size_t gen_len(Gen &g, bool mayskip) {
	switch (g.weighted({10, 3, 1, 1, 1, 1})) {
	case 0: return g.logsize(0, 1 << 20);
	case 1: return mayskip ? SIZE_MAX : g.logsize(0, 4096);
	case 2: return (size_t)UINT32_MAX - g.below(4);
	case 3: return (size_t)UINT32_MAX + 1 + g.below(4);
	case 4: return g.below(0) >> g.below(33);
	default: return SIZE_MAX - 1 - g.below(3);
	}
}
static const int ERRS[] = {EIO, EINTR, EBUSY, ENOMEM, EINVAL, EFAULT, ENODEV, EACCES, EMFILE, ENOSPC, EAGAIN, EPERM, ETIMEDOUT};

static void run_history(Gen &g, Ctx &c) {
	static uint8_t arena[1 << 17] __attribute__((aligned(65536)));
	C = &c;
	D.alignmask = 0;
#ifdef CIOCGSESSINFO
	if (g.chance(2, 3)) D.alignmask = (uint16_t)((1u << g.range(0, 16)) - 1);
#endif
	if (g.chance(1, 8)) D.fdbase = 0; // a process without standard input gets descriptor 0
	bool fault_free = g.chance(1, 5);
	bool keyfault = !fault_free && g.chance(1, 10);
	size_t nth = g.range(1, 4), nsteps = g.range(1, c.thorough ? 24 : 12);
	std::vector<Worker> W(8); // index 1..nth used
	bool main_only = g.chance(1, 4); // the process's initial thread too
	bool had[8] = {};                 // thread has a working session according to its history
	uint64_t h = D.alignmask; unsigned reached = 0, refused = 0, failed = 0, inits = 0;
	std::string hist;
	if (keyfault) { int e = ENOMEM; for (auto &f : D.fault) f[P_TSS_CREATE] = e; }
	bool keybroken = false, firstcall = true;

	auto make = [&](bool want_fault, int t, Call &k) {
		Request &r = k.r;
		r = Request(); r.active = true; r.op = (unsigned)g.below(2); k.chunked = g.chance(2, 3); k.table = g.chance(1, 4);
		r.n = 1;
		if (k.chunked) r.n = g.weighted({10, 1, 1, 1}) == 0 ? g.logsize(0, 12) : g.pick({(size_t)CRYPTODEV_COMP_MAX_CHUNKS, (size_t)CRYPTODEV_COMP_MAX_CHUNKS - 1, (size_t)CRYPTODEV_COMP_MAX_CHUNKS + 1, (size_t)0, (size_t)200});
		size_t ai = g.chance(3, 4) ? 0 : (size_t)1 << g.below(17), ao = g.chance(3, 4) ? 0 : (size_t)1 << g.below(17);
		if (g.chance(1, 8)) ai = g.below(65536); if (g.chance(1, 8)) ao = g.below(65536);
		r.in = arena + (ai & 0xffff); r.out = arena + (ao & 0x1ffff) % sizeof arena;
		r.is = gen_stride(g, r.n); r.os = gen_stride(g, r.n);
		if (g.chance(1, 2)) { r.is = 65536; r.os = 65536 * g.range(1, 2); }
		bool tame = g.chance(2, 3);
		for (size_t i = 0; i < r.n; i++) {
			r.il.push_back(tame ? (k.chunked && g.chance(1, 6) ? SIZE_MAX : g.logsize(0, 65536)) : gen_len(g, k.chunked));
			r.ol.push_back(tame ? g.logsize(0, 131072) : gen_len(g, false));
			r.res.push_back({g.chance(1, 3) ? -g.pick({ENOSPC, EINVAL, EIO, ENOMEM}) : 0, (uint32_t)(g.chance(1, 4) ? g.below(UINT32_MAX) : g.logsize(0, 131072))});
		}
		if (!k.chunked) { r.is = r.il[0]; r.os = r.ol[0]; }
		k.faults = 0;
		if (want_fault) {
			unsigned nf = (unsigned)g.range(1, 2);
			for (unsigned i = 0; i < nf; i++) {
				Point p = (Point)g.pick({P_OPEN, P_SETFD, P_GSESSION, P_GSESSINFO, P_CRYPT, P_MALLOC, P_TSS_SET, P_FSESSION, P_CLOSE});
				D.fault[t][p] = p == P_MALLOC || p == P_TSS_SET ? ENOMEM : ERRS[g.below(sizeof ERRS / sizeof *ERRS)];
				k.faults++; k.text += pbt::fmt("[fault %s errno %d] ", PNAME[p], D.fault[t][p]);
			}
		}
		k.text += pbt::fmt("thread %d: %s%s n=%zu strides %zu/%zu in+%#zx out+%#zx", t, r.op == COP_ENCRYPT ? "compress" : "decompress", k.chunked ? "_chunked" : "", r.n, r.is, r.os, (size_t)(r.in - arena), (size_t)(r.out - arena));
		for (size_t i = 0; i < r.n && i < 4; i++) k.text += pbt::fmt(" (%zd->%zu)", (ssize_t)r.il[i], r.ol[i]);
		h = pbt::mix(h, pbt::hash_bytes(k.text.data(), k.text.size()));
	};
	struct Out { int ret; std::vector<int> rets; std::vector<size_t> ol; };
	auto exec = [&](Call &k, Out &o) {
		int t = self; D.req[t] = k.r; D.first_err[t] = 0; memset(D.hit[t], 0, sizeof D.hit[t]);
		o.rets.assign(k.r.n, 4242); o.ol = k.r.ol; std::vector<size_t> il = k.r.il;
		const Request &r = k.r;
		const lib842_implementation *T = nullptr;
		in_lib = true;
		if (k.table) {
			// asking for the table may set the thread up already; a call through it comes afterwards
			T = get_hw842_implementation();
			if (!T || !T->compress || !T->decompress || !T->compress_chunked || !T->decompress_chunked) { in_lib = false; C->fail("function table incomplete"); }
		}
		if (k.chunked) {
			auto f = k.table ? (r.op == COP_ENCRYPT ? T->compress_chunked : T->decompress_chunked) : (r.op == COP_ENCRYPT ? hw842_compress_chunked : hw842_decompress_chunked);
			o.ret = f(r.n, o.rets.data(), r.in, r.is, il.data(), r.out, r.os, o.ol.data());
		} else {
			auto f = k.table ? (r.op == COP_ENCRYPT ? T->compress : T->decompress) : (r.op == COP_ENCRYPT ? hw842_compress : hw842_decompress);
			o.ret = f(r.in, il[0], r.out, &o.ol[0]);
		}
		in_lib = false;
		if (il != k.r.il) C->fail("the caller's input lengths were changed");
	};
	auto judge = [&](Call &k, Out &o, int t) {
		const Request &r = k.r, &seen = D.req[t];
		const char *tx = k.text.c_str();
		bool bad = false;
		if (D.alignmask && (((uintptr_t)r.in & D.alignmask) || ((uintptr_t)r.out & D.alignmask))) bad = true;
		if (r.n && (r.is > UINT32_MAX / r.n || r.os > UINT32_MAX / r.n)) bad = true;
		if (r.n > CRYPTODEV_COMP_MAX_CHUNKS) bad = true;
		if (r.n <= CRYPTODEV_COMP_MAX_CHUNKS)
			for (size_t i = 0; i < r.n; i++) if ((r.il[i] > UINT32_MAX - 1 && r.il[i] != SIZE_MAX) || r.ol[i] > UINT32_MAX) bad = true;
		if (seen.seen && bad) c.fail("%s: the request cannot be served (limits, alignment mask %#x) but it reached the device", tx, D.alignmask);
		bool setup_hit = false; // a fault struck while the thread was set up
		for (int p = 0; p < NPOINTS; p++) if (p != P_CRYPT && D.hit[t][p]) setup_hit = true;
		if (D.hit[t][P_TSS_CREATE]) keybroken = true;
		bool crypt_hit = D.hit[t][P_CRYPT];
		int fe = D.first_err[t];
		for (int p = 0; p < NPOINTS; p++) if (p != P_TSS_CREATE) D.fault[t][p] = 0;
		if (keybroken) {
			// thread-specific storage is unavailable: every call must say so, nothing may leak
			if (o.ret != -ENOMEM && !(bad && o.ret == -EINVAL)) c.fail("%s: no thread-specific key could be created, the call returned %d instead of -ENOMEM", tx, o.ret);
			failed++; c.label("call-without-thread-key"); had[t] = false;
		} else if (!D.present) {
			if (!had[t]) { if (o.ret != -ENOENT && !(bad && o.ret == -EINVAL)) c.fail("%s: no device, the call returned %d", tx, o.ret); failed++; }
		} else if (setup_hit && !k.table) {
			if (o.ret != -fe && !(bad && o.ret == -EINVAL)) c.fail("%s: set-up failed first with errno %d, the call returned %d", tx, fe, o.ret);
			failed++; c.label("failed-setup");
			had[t] = false;
		} else if (setup_hit) { // set-up failed for the table query or for the call; the call itself may have succeeded on a second attempt
			if (o.ret == -fe) failed++;
			had[t] = false; for (auto &s : D.session_thread) (void)s;
			for (auto &f : D.fds) for (auto s : f.second) if (D.session_thread[s] == t) had[t] = true;
			c.label("failed-table-query");
		} else {
			if (bad) {
				if (o.ret != -EINVAL) c.fail("%s: alignment mask %#x or the device's limits forbid the request, the call returned %d", tx, D.alignmask, o.ret);
				refused++; c.label("refused-request");
			} else if (crypt_hit) {
				if (o.ret != -fe) c.fail("%s: the device call failed with errno %d, the call returned %d", tx, fe, o.ret);
				failed++; c.label("failed-request");
			} else if (r.n == 0 && !seen.seen) {
				if (o.ret != 0) c.fail("%s: request without chunks returned %d", tx, o.ret);
			} else {
				if (!seen.seen) c.fail("%s: returned %d without asking the device (alignment mask %#x)", tx, o.ret, D.alignmask);
				if (k.chunked) {
					if (o.ret != 0) c.fail("%s: the device accepted the request, the call returned %d", tx, o.ret);
					for (size_t i = 0; i < r.n; i++) {
						bool skip = r.il[i] == SIZE_MAX;
						if (o.rets[i] != (skip ? 4242 : r.res[i].ret)) c.fail("%s: chunk %zu result %d, device said %d", tx, i, o.rets[i], skip ? 4242 : r.res[i].ret);
						if (o.ol[i] != (skip ? r.ol[i] : r.res[i].olen)) c.fail("%s: chunk %zu length %zu, device said %zu", tx, i, o.ol[i], skip ? r.ol[i] : (size_t)r.res[i].olen);
					}
				} else {
					if (o.ret != r.res[0].ret) c.fail("%s: returned %d, device said %d", tx, o.ret, r.res[0].ret);
					if (o.ol[0] != r.res[0].olen) c.fail("%s: length %zu, device said %u", tx, o.ol[0], r.res[0].olen);
				}
				reached++; c.label("request-served");
			}
			had[t] = true;
		}
		D.req[t].active = false;
		// descriptors and sessions of this thread
		size_t nses = 0; for (auto &f : D.fds) for (auto s : f.second) if (D.session_thread[s] == t) nses++;
		if (nses > 1) c.fail("%s: the thread holds %zu sessions", tx, nses);
		if (!had[t] && nses) c.fail("%s: set-up failed but a session stayed open", tx);
		if (had[t] && !nses && !bad) c.fail("%s: the thread has no open session after a successful call", tx);
		if (!nses) had[t] = false;
	};
	auto balance = [&](const char *when) {
		size_t want = 0; for (int i = 0; i < 8; i++) want += had[i];
		if (D.fds.size() != want) { c.fail("%s: %zu descriptors open, %zu threads have a session", when, D.fds.size(), want); }
		for (auto &f : D.fds) if (f.second.size() != 1) c.fail("%s: descriptor %d has %zu sessions", when, f.first, f.second.size());
	};
	(void)firstcall;
	for (size_t s = 0; s < nsteps; s++) {
		int t = main_only ? 0 : 1 + (int)g.below(nth);
		auto ensure = [&](int i) { if (i && !W[i].up) W[i].start(i); };
		switch (g.weighted({12, 2, 2, 1, 1})) {
		default: case 0: {
			Call k; make(!fault_free && g.chance(1, 3), t, k); Out o;
			hist += k.text + "; ";
			ensure(t); bool hadbefore = had[t];
			if (t) { W[t].post([&] { exec(k, o); }); W[t].wait(); } else exec(k, o);
			judge(k, o, t); inits += !hadbefore && had[t];
			balance(k.text.c_str());
			break; }
		case 1: if (t && W[t].up) { // thread ends: everything it held is released
			if (!fault_free && g.chance(1, 3)) { // release itself meets errors: nothing may stay open all the same
				if (g.chance(1, 2)) D.fault[t][P_FSESSION] = ERRS[g.below(sizeof ERRS / sizeof *ERRS)];
				if (g.chance(1, 2)) D.fault[t][P_CLOSE] = ERRS[g.below(sizeof ERRS / sizeof *ERRS)];
				c.label("thread-end-with-failing-release");
			}
			W[t].end(); memset(D.fault[t], 0, sizeof D.fault[t]); had[t] = false; hist += pbt::fmt("end of thread %d; ", t); c.label("thread-end");
			balance("after a thread ended");
			break; }
		// fall through
		case 2: { // all threads at once
			if (main_only || keyfault) break;
			std::vector<Call> ks(nth + 1); std::vector<Out> os(nth + 1); std::vector<char> hb(nth + 1);
			for (size_t i = 1; i <= nth; i++) { make(!fault_free && g.chance(1, 6), (int)i, ks[i]); ensure((int)i); hb[i] = had[i]; hist += "|| " + ks[i].text + "; "; }
			for (size_t i = 1; i <= nth; i++) W[i].post([&, i] { exec(ks[i], os[i]); });
			for (size_t i = 1; i <= nth; i++) W[i].wait();
			for (size_t i = 1; i <= nth; i++) { judge(ks[i], os[i], (int)i); inits += !hb[i] && had[i]; }
			balance("after parallel calls"); c.label("parallel-calls");
			break; }
		case 3: { // function table
			ensure(t); const lib842_implementation *T = nullptr; if (keyfault) break;
			if (!fault_free && g.chance(1, 4)) { Point p = (Point)g.pick({P_OPEN, P_SETFD, P_GSESSION, P_GSESSINFO, P_MALLOC, P_TSS_SET}); D.fault[t][p] = EIO; }
			D.req[t] = Request(); D.first_err[t] = 0; memset(D.hit[t], 0, sizeof D.hit[t]);
			auto f = [&] { in_lib = true; T = get_hw842_implementation(); in_lib = false; };
			if (t) { W[t].post(f); W[t].wait(); } else f();
			memset(D.fault[t], 0, sizeof D.fault[t]);
			bool now = false; for (auto &fd : D.fds) for (auto x : fd.second) if (D.session_thread[x] == t) now = true;
			if (now) had[t] = true;
			size_t need = (size_t)D.alignmask + 1;
			if (T->required_alignment < need || T->required_alignment % need) c.fail("table requires alignment %zu, the device needs %zu", T->required_alignment, need);
			if (fault_free && D.present && T->required_alignment != need) { bool everabsent = hist.find("unplug") != std::string::npos; if (!everabsent) c.fail("table requires alignment %zu, the device reports %zu", T->required_alignment, need); }
			if (T->preferred_alignment == 0 || (T->preferred_alignment & (T->preferred_alignment - 1))) c.fail("table prefers alignment %zu", T->preferred_alignment);
			hist += pbt::fmt("table on thread %d; ", t); c.label("table-query");
			balance("after a table query");
			break; }
		case 4: { // availability
			if (fault_free && g.chance(1, 2)) { D.present = !D.present; hist += D.present ? "plug in; " : "unplug; "; }
			in_lib = true; int a = hw842_available(); in_lib = false;
			if (!!a != D.present) c.fail("hw842_available() is %d, device %s", a, D.present ? "present" : "absent");
			c.label("availability");
			break; }
		}
	}
	for (int i = 1; i < 8; i++) if (W[i].up) { W[i].end(); had[i] = false; }
	balance("after all threads ended");
	c.label("sessions-opened", inits);
	if (reached + failed + refused >= 2 && reached) { c.nontrivial(h); if (c.want_sample()) c.sample(pbt::fmt("alignmask %#x; %s", D.alignmask, hist.substr(0, 900).c_str())); }
}

#ifndef KEEP_STDERR
#define KEEP_STDERR 0
#endif
static void c26(Gen &g, Ctx &c) {
	fflush(stdout); fflush(stderr);
	std::string errf = pbt::scratch + pbt::fmt("/hw%u.err", pbt::worker_id);
	pid_t p = fork();
	if (p < 0) abort();
	if (p == 0) { // a fresh process: nothing about threads and sessions survives from the previous case
		int nul = __real_open(KEEP_STDERR ? errf.c_str() : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644); if (nul >= 0) { dup2(nul, 2); if (nul != 2) __real_close(nul); }
		alarm(60);
		run_history(g, c);
		if (KEEP_STDERR) exit(0); // the thread sanitizer ends the process with its own status if it reported anything
		_exit(0);
	}
	int st; waitpid(p, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { return; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);
	std::string rep;
	if (KEEP_STDERR) { std::ifstream f(errf); std::stringstream ss; ss << f.rdbuf(); rep = ss.str(); size_t q = rep.find("WARNING: ThreadSanitizer"); if (q != std::string::npos) rep = rep.substr(q, 3000); else rep = rep.substr(0, 1000); }
	c.fail("the process running the history died (status %#x)\n%s", st, rep.c_str());
}

static struct Reg { Reg() {
	pbt::add({"C26", c26, 6000, 300000, "history with at least one served request and at least two requests", 0, nullptr, true, 60});
} } reg;
