// Small property-based testing engine: choice-tape generation, forked workers, crash/hang capture,
// confirmation by replay, tape shrinking, evidence counters. See DESIGN.md ("Engine").
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

// ---- PRNG used for bulk data and for drawing fresh choices -----------------------------------
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() { // splitmix64
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	uint64_t pick3(uint64_t a, uint64_t b, uint64_t c) { uint64_t k = below(3); return k == 0 ? a : k == 1 ? b : c; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ULL)); r.next(); return r.next(); }
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
	const uint8_t *b = (const uint8_t *)p;
	while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0x9fb21c651e98df25ULL; h ^= h >> 29; b += 8; n -= 8; }
	while (n--) { h = (h ^ *b++) * 0x100000001b3ULL; }
	return h ^ (h >> 32);
}

constexpr size_t MAX_TAPE = 1 << 16;
constexpr size_t MAX_LABELS = 96;
constexpr size_t MSG_SIZE = 8192;
constexpr size_t SAMPLE_SIZE = 1200;
constexpr size_t NSAMPLES = 4;
constexpr size_t SET_BITS = 21;

// One slot per worker in shared memory
struct Slot {
	std::atomic<uint64_t> cases_done;
	std::atomic<uint64_t> case_index;
	std::atomic<uint32_t> state; // 0 idle, 1 in case, 2 finished all, 3 failed (message valid)
	std::atomic<uint32_t> ntape;
	uint64_t tape[MAX_TAPE];
	char msg[MSG_SIZE];
	uint64_t excluded; // generated cases dropped because the precondition did not hold
	struct { char name[56]; uint64_t count; } labels[MAX_LABELS];
	uint32_t nsamples;
	char samples[NSAMPLES][SAMPLE_SIZE];
	uint32_t nknown;
	char known[8][512];
};
struct DistinctSet {
	std::atomic<uint64_t> count;
	std::atomic<uint64_t> entries[1 << SET_BITS];
};

struct Skip {};

class Gen {
public:
	// fresh: draws from an Rng; otherwise from a tape (0 after its end)
	Gen(Slot *slot, uint64_t seed) : slot_(slot), rng_(seed), fresh_(true) { slot_->ntape = 0; }
	Gen(Slot *slot, const uint64_t *tape, size_t n) : slot_(slot), rng_(0), fresh_(false), tape_(tape), ntape_(n) { slot_->ntape = 0; }
	Gen(Slot *slot, const uint8_t *data, size_t n, bool) : slot_(slot), rng_(0), fresh_(false), bytes_(data), nbytes_(n) { slot_->ntape = 0; }

	uint64_t below(uint64_t bound) { // uniform in [0,bound); bound 0 = full 64-bit
		uint64_t v;
		if (fresh_) {
			v = bound ? rng_.below(bound) : rng_.next();
		} else if (bytes_) {
			v = 0;
			unsigned nb = 8;
			if (bound) { nb = 0; uint64_t b = bound - 1; while (b) { nb++; b >>= 8; } }
			for (unsigned i = 0; i < nb; i++) { v <<= 8; if (pos_ < nbytes_) v |= bytes_[pos_++]; }
			if (bound) v %= bound;
		} else {
			v = pos_ < ntape_ ? tape_[pos_] : 0;
			pos_++;
			if (bound) v %= bound;
		}
		uint32_t n = slot_->ntape.load(std::memory_order_relaxed);
		if (n >= MAX_TAPE) { overflow_ = true; return 0; }
		slot_->tape[n] = v;
		slot_->ntape.store(n + 1, std::memory_order_relaxed);
		return v;
	}
	std::vector<uint64_t> drawn() const { return std::vector<uint64_t>(slot_->tape, slot_->tape + slot_->ntape.load()); }
	Slot *slot() const { return slot_; }
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); } // inclusive
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks towards false
	uint64_t seed() { return below(0); }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	template <class T> const T &pickv(const std::vector<T> &l) { return l[below(l.size())]; }
	// weighted choice: returns an index
	size_t weighted(std::initializer_list<unsigned> w) {
		uint64_t tot = 0; for (auto x : w) tot += x;
		uint64_t v = below(tot); size_t i = 0;
		for (auto x : w) { if (v < x) return i; v -= x; i++; }
		return 0;
	}
	// log-uniform size in [lo,hi]
	uint64_t logsize(uint64_t lo, uint64_t hi) {
		if (hi <= lo) return lo;
		uint64_t span = hi - lo; unsigned bits = 0;
		while (bits < 64 && (span >> bits) != 0) bits++;
		unsigned b = (unsigned)below(bits + 1);
		uint64_t m = b >= 64 ? ~0ULL : ((1ULL << b) - 1);
		uint64_t lim = m < span ? m : span;
		return lo + below(lim + 1);
	}
	bool overflowed() const { return overflow_; }

private:
	Slot *slot_;
	Rng rng_;
	bool fresh_;
	const uint64_t *tape_ = nullptr;
	size_t ntape_ = 0;
	const uint8_t *bytes_ = nullptr;
	size_t nbytes_ = 0;
	size_t pos_ = 0;
	bool overflow_ = false;
};

class Ctx {
public:
	Slot *slot; DistinctSet *set; bool thorough; bool replay; std::string prop;
	void label(const char *name, uint64_t n = 1);
	void nontrivial(uint64_t hash);                 // counts the case as distinct & non-trivial
	bool want_sample() const { return slot->nsamples < NSAMPLES && nontriv_seen_; }
	void sample(const std::string &s);
	void skip() { slot->excluded++; throw Skip(); } // precondition does not hold
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	bool nontriv_seen_ = false;
};

// Known finding support: returns true when `key` is listed for this property (set by the driver).
bool is_known(const std::string &key);
void report_known(Ctx &c, const std::string &what);

struct Property {
	const char *id;
	void (*run)(Gen &, Ctx &);
	uint64_t quick_cases, thorough_cases;
	const char *rule;
	// Deterministic sub-cases run first (indices 0..nfixed-1 get passed through fixed())
	uint64_t nfixed;
	void (*fixed)(uint64_t i, Ctx &);
	bool definitive; // a failure seen once is a violation even when replays do not reproduce it (schedules)
	unsigned cpu_limit_s; // CPU time of one case beyond which it counts as a hang
};
void add(const Property &p);
int main_impl(int argc, char **argv);
extern unsigned worker_id;
extern std::string scratch; // per-run scratch directory (unique to this process tree)

std::string hex(const void *p, size_t n, size_t max = 64);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string json_escape(const std::string &s);
}
