#include "memtrack.hpp"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
}
extern "C" void vs_mem_ignore(int d) { mem::ignore(d); }
namespace mem {
bool overflow = false;
static std::atomic<int> fill_{NONE};
static std::atomic<uint64_t> fseed_{0};
static std::atomic<bool> track_{false};
static const size_t BITS = 20, N = 1 << BITS;
struct Ent { void *p; size_t n; };
static Ent *tab; static size_t count_, bytes_;
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
static void lock() { while (lk.test_and_set(std::memory_order_acquire)) ; }
static void unlock() { lk.clear(std::memory_order_release); }
static size_t h(void *p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> (64 - BITS); }
static void do_fill(void *p, size_t n, uint64_t salt) {
	int f = fill_.load(std::memory_order_relaxed); if (f == NONE || !p) return;
	uint64_t s = fseed_.load(std::memory_order_relaxed) + salt; uint8_t *b = (uint8_t *)p;
	if (n > 1 << 20) n = 1 << 20;
	if (f == BYTE) { memset(b, (int)(s & 255), n); return; }
	for (size_t i = 0; i < n; i++) {
		s += 0x9e3779b97f4a7c15ULL; uint64_t z = (s ^ (s >> 30)) * 0xbf58476d1ce4e5b9ULL; z ^= z >> 27;
		if (f == SMALL16) b[i] = (i & 1) ? 0 : (uint8_t)z; else b[i] = (uint8_t)z;
	}
}
static thread_local int ign = 0;
void ignore(int d) { ign += d; }
static void add(void *p, size_t n) {
	if (!p || ign > 0 || !track_.load(std::memory_order_relaxed)) return;
	lock();
	if (count_ >= N * 3 / 4) overflow = true;
	else { size_t i = h(p); while (tab[i].p) i = (i + 1) & (N - 1); tab[i] = {p, n}; count_++; bytes_ += n; }
	unlock();
}
static void del(void *p) {
	if (!p || !track_.load(std::memory_order_relaxed)) return;
	lock();
	size_t i = h(p); while (tab[i].p && tab[i].p != p) i = (i + 1) & (N - 1);
	if (tab[i].p) {
		count_--; bytes_ -= tab[i].n;
		size_t j = i;
		for (;;) { // backward shift
			tab[i].p = nullptr; size_t k;
			do { j = (j + 1) & (N - 1); if (!tab[j].p) { unlock(); return; } k = h(tab[j].p); } while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
			tab[i] = tab[j]; i = j;
		}
	}
	unlock();
}
static std::atomic<bool> armed_{false};
static std::atomic<uint64_t> seen_{0}, failed_{0};
static uint64_t first_, num_;
void fail_arm(uint64_t k, uint64_t n) { seen_ = 0; failed_ = 0; first_ = k; num_ = n; armed_ = true; }
uint64_t fail_disarm() { armed_ = false; return failed_; }
uint64_t fail_seen() { return seen_; }
static bool refuse() {
	if (!armed_.load(std::memory_order_acquire) || ign > 0) return false;
	uint64_t i = seen_++; if (i < first_ || i - first_ >= num_) return false;
	failed_++; errno = ENOMEM; return true;
}
void set_fill(Fill f, uint64_t s) { fseed_ = s; fill_ = f; }
void track(bool on) {
	track_ = false;
	if (on) {
		if (!tab) { tab = (Ent *)mmap(nullptr, N * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (tab == MAP_FAILED) abort(); }
		else if (count_ || overflow) madvise(tab, N * sizeof(Ent), MADV_DONTNEED);
		count_ = bytes_ = 0; overflow = false; track_ = true;
	}
}
Live live() { return {count_, bytes_}; }
size_t live_sizes(size_t *out, size_t max) { size_t k = 0; for (size_t i = 0; tab && i < N && k < max; i++) if (tab[i].p) out[k++] = tab[i].n; return k; }
void self_test() {
	track(true); void *volatile p = malloc(12345); char *volatile q = new char[77]; Live l = live(); free(p); delete[] q; Live m = live(); track(false);
	if (l.blocks != 2 || m.blocks != 0) { (void)!write(2, "allocation interposer not in effect\n", 36); abort(); }
}
}
using namespace mem;
extern "C" {
void *malloc(size_t n) { if (refuse()) return nullptr; void *p = __libc_malloc(n); if (p) do_fill(p, n, (uintptr_t)1); add(p, n); return p; }
void free(void *p) { if (!p) return; del(p); if (fill_.load(std::memory_order_relaxed) != NONE) do_fill(p, malloc_usable_size(p), 2); __libc_free(p); }
void *calloc(size_t a, size_t b) { if (refuse()) return nullptr; void *p = __libc_calloc(a, b); add(p, a * b); return p; }
void *realloc(void *o, size_t n) { if (n && refuse()) return nullptr; del(o); void *p = __libc_realloc(o, n); if (p) add(p, n); else if (o && n) add(o, n); return p; }
void *memalign(size_t a, size_t n) { if (refuse()) return nullptr; void *p = __libc_memalign(a, n); if (p) do_fill(p, n, 3); add(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
