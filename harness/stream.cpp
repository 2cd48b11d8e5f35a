// C13-C18, C20 and the stream part of C25 and C19: generated histories of the stream API.
// With USE_VSCHED the case runs under the deterministic scheduler, otherwise with real threads.
#include <dirent.h>
#include <sstream>
#include <stdexcept>
#include "common.hpp"
#include "streamsync.hpp"
#ifdef USE_VSCHED
#include "vsched.hpp"
#endif
#ifdef USE_MEMTRACK
#include "memtrack.hpp"
#endif
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <algorithm>
#include <iostream>
#include <memory>
#include <thread>
#include <sstream>

#ifdef __has_feature
#if __has_feature(thread_sanitizer)
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1"; }
#endif
#endif

using namespace lib842::stream;
typedef lib842::stream::Block SBlock;

// ---- world: scheduler or real threads ---------------------------------------------------------------------
#ifdef USE_VSCHED
static void wyield() { vs::yield(); }
static void wwait(const std::function<bool()> &p, const char *what) { vs::block_until(p, what); }
#else
static thread_local uint64_t ytl = 0x1234567;
static void wyield() { ytl = ytl * 6364136223846793005ULL + (uintptr_t)&ytl; unsigned k = (ytl >> 40) % 16; if (k < 4) sched_yield(); else if (k == 4) usleep((ytl >> 50) % 60); }
static void wwait(const std::function<bool()> &p, const char *) { while (!p()) usleep(20); }
#endif
#ifdef USE_MEMTRACK
static void mem_ignore(int d) { mem::ignore(d); }
#else
static void mem_ignore(int) {}
#endif
static size_t leaked; static std::string leak_msg;
static void wyields(unsigned n) { while (n--) wyield(); }

// ---- chunks -----------------------------------------------------------------------------------------------
// A chunk's content is a function of its key; key & 7 is its class.
enum Cls { SMALLC = 0, MIDC = 1, THRESH = 2, TINY = 3, ZEROC = 4, NOSPC = 5, BIGC = 6, EXACT = 7 };
static bool raw_class(uint64_t key, bool real) { unsigned k = key & 7; return real ? k >= 5 : (k == NOSPC || k == BIGC || k == EXACT); }
static void fill_chunk(uint8_t *p, uint64_t key, bool real) {
	if (real && raw_class(key, real)) { Rng r(key); for (size_t i = 0; i < CHUNK_SIZE; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); } return; }
	memcpy(p, &key, 8); for (size_t n = 8; n < CHUNK_SIZE; n *= 2) memcpy(p + n, p, n);
}
static bool chunk_is(const uint8_t *p, uint64_t key, bool real) {
	if (real && raw_class(key, real)) { Rng r(key); for (size_t i = 0; i < CHUNK_SIZE; i += 8) { uint64_t v = r.next(); if (memcmp(p + i, &v, 8)) return false; } return true; }
	return memcmp(p, &key, 8) == 0 && memcmp(p, p + 8, CHUNK_SIZE - 8) == 0;
}
static size_t mock_size(uint64_t key) { // bytes of the mock codec's compressed form
	switch (key & 7) {
	case SMALLC: return 24 + ((key >> 8) % 300) * 8;
	case MIDC: return 24 + ((key >> 8) % (COMPRESSIBLE_THRESHOLD - 24));
	case THRESH: return COMPRESSIBLE_THRESHOLD - ((key >> 8) % 2);
	case TINY: case ZEROC: return 24;
	case BIGC: return COMPRESSIBLE_THRESHOLD + 1 + (key >> 8) % (CHUNK_SIZE - COMPRESSIBLE_THRESHOLD - 1);
	case EXACT: return CHUNK_SIZE;
	default: return SIZE_MAX;
	}
}
static const uint64_t MAGIC = 0x842842842842f00dULL;

// ---- log ----------------------------------------------------------------------------------------------------
enum Ev { BB, BE, FB, FE, IFAIL, ELOG, DESTROYED, PUSHREF };
struct Rec { int ev, op; size_t off; uint64_t x; };
struct Fault { uint64_t key; int code; }; // code: errno returned for the chunk; 1: success with a wrong size; 2: whole call fails
struct Case {
	static constexpr unsigned MAXREC = 4096, MAXBLK = 256;
	Rec log[MAXREC]; std::atomic<unsigned> n{0}, nb{0}; SBlock blk[MAXBLK]; int blkop[MAXBLK]; unsigned blkpos[MAXBLK];
	std::vector<Fault> faults; unsigned impl_yields = 0, cb_yields = 0;
	std::vector<std::string> viol; // "C14 text"
	std::atomic<unsigned> errlogs{0}; std::atomic<int> bad{0}; std::atomic<size_t> misaligned{0};
	unsigned put(int ev, int op, size_t off, uint64_t x = 0) { unsigned i = n.fetch_add(1, std::memory_order_relaxed); if (i < MAXREC) log[i] = {ev, op, off, x}; return i; }
};
static Case *K;
static const Fault *fault_of(uint64_t key) { for (auto &f : K->faults) if (f.key == key) return &f; return nullptr; }

// ---- mock codec -----------------------------------------------------------------------------------------------
static int mock_c(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen) {
	if (K->impl_yields) wyields(1);
	uint64_t key; memcpy(&key, in, 8);
	if (ilen != CHUNK_SIZE) { K->bad = 1; *olen = 0; return -EINVAL; }
	if (const Fault *f = fault_of(key)) { *olen = 0; K->put(IFAIL, -1, 0, key); return f->code < 0 ? f->code : -EIO; }
	size_t s = mock_size(key);
	if (s > *olen) { *olen = 0; return -ENOSPC; }
	uint64_t h[3] = {MAGIC, key, s}; memcpy(out, h, 24); *olen = s;
	return 0;
}
static int mock_d(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen) {
	if (K->impl_yields) wyields(1);
	uint64_t h[3]; if (ilen < 24) { *olen = 0; return -EINVAL; }
	memcpy(h, in, 24);
	if (h[0] != MAGIC || h[2] != ilen || *olen < CHUNK_SIZE) { *olen = 0; K->put(IFAIL, -1, 0, 1); return -EINVAL; }
	if (const Fault *f = fault_of(h[1])) {
		K->put(IFAIL, -1, 0, h[1]);
		if (f->code == 1) { *olen = CHUNK_SIZE - 8; return 0; }
		if (f->code == -ENOSPC && (h[1] & 0x100)) return f->code; // the length stays what it was
		*olen = 0; return f->code < 0 ? f->code : -EIO;
	}
	if (K->impl_yields > 1) { memcpy(out, &h[1], 8); wyield(); }
	fill_chunk(out, h[1], false); *olen = CHUNK_SIZE;
	return 0;
}
extern lib842_implementation MOCKA; // the mock codec with the alignments of the current case
template <int (*F)(const uint8_t *, size_t, uint8_t *, size_t *)>
static int mock_chunked(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) {
	int ret = 0; size_t req = MOCKA.required_alignment; // what an implementation may rely on
	if (F == mock_c) { if ((uintptr_t)out % req || os % req) K->misaligned = (uintptr_t)out | os | 1; }
	for (size_t i = 0; i < n; i++) { if (il[i] == SIZE_MAX) continue; rets[i] = F(in + i * is, il[i], out + i * os, &ol[i]); if (!ret && rets[i] && rets[i] != -ENOSPC) ret = rets[i]; }
	return ret;
}
static const lib842_implementation MOCK = {mock_c, mock_d, mock_chunked<mock_c>, mock_chunked<mock_d>, 8, 64};
lib842_implementation MOCKA = MOCK;
static void set_align(size_t required, size_t preferred) { MOCKA.required_alignment = required; MOCKA.preferred_alignment = preferred; }
static const lib842_implementation &impl_of(unsigned i) { return i == 0 ? MOCKA : i == 1 ? *get_optsw842_implementation() : *get_sw842_implementation(); }
static const char *impl_name(unsigned i) { return i == 0 ? "mock" : i == 1 ? "optsw" : "sw"; }

// Compressed image of a chunk, possibly damaged. fault 0 none, else see code
static Bytes make_image(uint64_t key, bool real, int fault, uint64_t salt) {
	Bytes b;
	if (!real) {
		size_t s = mock_size(key); uint64_t h[3] = {MAGIC, key, s}; b.resize(s); memcpy(b.data(), h, 24);
		if (fault == 3) b[0] ^= 1; // unrecognisable
		return b;
	}
	size_t words = CHUNK_SIZE / 8; if (fault == 1) words -= 1 + salt % 64; if (fault == 4) words += 1 + salt % 64;
	std::vector<ref::Token> t; uint8_t kb[8]; memcpy(kb, &key, 8); ref::Token k; k.op = 0; k.v = {ref::rd(kb, 8)}; t.push_back(k);
	for (size_t w = 1; w < words;) { size_t n = std::min<size_t>(64, words - w); ref::Token r; r.op = ref::OP_REPEAT; r.v = {n - 1}; t.push_back(r); w += n; }
	Bytes d(words * 8); for (size_t i = 0; i < d.size(); i++) d[i] = kb[i & 7];
	uint32_t crc = ref::crc32_fast(d.data(), d.size()); if (fault == 3) crc ^= 1u << (salt % 32);
	b = ref::encode(t, crc);
	if (fault == 5) b.resize(8 + salt % (b.size() / 8 - 2) * 8); // truncated
	return b;
}

// ---- memory ---------------------------------------------------------------------------------------------------
// One arena per worker, sliced; content is only valid within a case.
static uint8_t *arena(size_t need) {
	static uint8_t *a; static size_t cap;
	if (need > cap) { if (a) munmap(a, cap); cap = (need + (8 << 20)) / (1 << 21) * (1 << 21) + (1 << 21); a = (uint8_t *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) abort(); }
	return a;
}

// ---- operations ----------------------------------------------------------------------------------------------------
struct CompOp {
	unsigned nblocks; size_t tail; std::vector<uint64_t> keys; uint8_t *data; size_t size;
	bool cancel, finalize, wait, nested; unsigned y1, y2;
	std::atomic<int> fin{0}; std::atomic<int> success{-1};
	CompOp() {} CompOp(const CompOp &o) : nblocks(o.nblocks), tail(o.tail), keys(o.keys), data(o.data), size(o.size), cancel(o.cancel), finalize(o.finalize), wait(o.wait), nested(o.nested), y1(o.y1), y2(o.y2) {}
};
struct DecBlock { size_t index; unsigned state[NUM_CHUNKS_PER_BLOCK]; uint64_t key[NUM_CHUNKS_PER_BLOCK]; int fault[NUM_CHUNKS_PER_BLOCK]; size_t padding, align; unsigned y; bool pushed = false; int pushret = -1; };
struct DecOp {
	unsigned nblocks; std::vector<DecBlock> blocks; uint8_t *dest; uint8_t *rawsrc; uint64_t fillv;
	bool cancel, finalize, wait, nested; unsigned y1, y2;
	std::atomic<int> fin{0}; std::atomic<int> success{-1}; uint64_t hash_at_fin = 0; bool in_progress_seen = false;
	DecOp() {} DecOp(const DecOp &o) : nblocks(o.nblocks), blocks(o.blocks), dest(o.dest), rawsrc(o.rawsrc), fillv(o.fillv), cancel(o.cancel), finalize(o.finalize), wait(o.wait), nested(o.nested), y1(o.y1), y2(o.y2) {}
};

struct Config {
	unsigned threads; bool numa, ready; unsigned impl; bool real;
	unsigned destroy; // 0 after the last callback, 1 right after the last finalize, 2 between start and finalize of the last operation, 3 no operation at all
	unsigned destroy_y;
};
struct Viol { std::string props, text; };
static std::vector<Viol> viols;
static void violate(const char *props, const char *f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); viols.push_back({props, b}); }
static std::string last_desc;
static void settle(Ctx &c, const std::string &desc) {
	last_desc = desc;
	std::string other;
	for (auto &v : viols) {
		if (c.prop == "C33" || v.props.find(c.prop) != std::string::npos) { std::string t = v.text; c.fail("%s; history: %s", t.c_str(), desc.substr(0, 3000).c_str()); }
		c.label(("other property: " + v.props).c_str());
	}
}

static std::ostream *errsink(unsigned *) { static thread_local std::ostringstream *s = nullptr; if (!s) s = new std::ostringstream(); s->str(""); return s; }
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } };
static std::ostream &null_stream() { static thread_local NullBuf nb; static thread_local std::ostream os(&nb); return os; }
static std::ostream &err_logger() { K->errlogs.fetch_add(1, std::memory_order_relaxed); K->put(ELOG, -1, 0); return null_stream(); }
static std::ostream &dbg_logger() { return null_stream(); }

// ---- scheduling ------------------------------------------------------------------------------------------------------
struct Sched { std::string desc; };
#ifdef USE_VSCHED
static Ctx *cur_ctx; static std::string cur_desc;
static void stuck(const char *kind, const std::string &w, void *) {
	cur_ctx->fail("%s after %llu steps (%s); history: %s", kind, (unsigned long long)vs::steps(), w.c_str(), cur_desc.substr(0, 3000).c_str());
}
static vs::Params draw_sched(Gen &g, std::string &desc) {
	vs::Params p; p.strategy = g.weighted({4, 5, 1}) ; p.seed = g.seed();
	p.p_sync = g.pick({3, 10, 30, 60, 100}); p.p_access = g.pick({0, 0, 100, 1000, 4000}); p.depth = g.below(5); p.horizon = g.pick({30, 100, 300, 1000, 4000}); p.spurious = g.pick({0, 0, 10, 100});
	desc = pbt::fmt("schedule: strategy %d seed %llx sync %u access %u depth %u horizon %u spurious %u", p.strategy, (unsigned long long)p.seed, p.p_sync, p.p_access, p.depth, p.horizon, p.spurious);
	return p;
}
#endif
struct Run { // scheduler on for the lifetime of this object
	Ctx &c; bool on = true;
	Run(Gen &g, Ctx &ctx, const std::string &desc) : c(ctx) {
#ifdef USE_VSCHED
		static bool tested = false; if (!tested) { tested = true; vs::selftest(); get_sw842_implementation(); get_optsw842_implementation(); }
		std::string sd; vs::Params p = draw_sched(g, sd); cur_ctx = &c; cur_desc = sd + "; " + desc;
		vs::begin(p, stuck, nullptr);
#else
		(void)g; (void)desc;
#endif
	}
	void finish() {
		if (!on) return; on = false;
#ifdef USE_VSCHED
		unsigned alive; if (!vs::end(&alive)) violate("C17 C25", "%u threads still exist after the stream was destroyed", alive);
		c.label("schedules"); c.label("context switches", vs::switches()); c.label("steps", vs::steps());
#endif
	}
	uint64_t hash() {
#ifdef USE_VSCHED
		return vs::trace_hash();
#else
		return 0;
#endif
	}
};

// every operation that finalizes with a failure has been reported through the error logger by then; nothing else is reported
static void check_errlog(Case *kc, unsigned nrec, bool anybad) {
	unsigned since = 0;
	for (unsigned i = 0; i < nrec; i++) {
		Rec &r = kc->log[i];
		if (r.ev == ELOG) { since++; if (!anybad) { violate("C18", "the error logger was used although nothing failed"); return; } }
		if (r.ev == FB) { if (!r.x && !since) violate("C18", "operation %d: finalization reports failure but nothing was written to the error logger", r.op); since = 0; }
	}
}

// ---- compression stream histories ----------------------------------------------------------------------------------------
static uint64_t draw_key(Gen &g, uint64_t base, unsigned idx, unsigned profile) {
	(void)g; uint64_t k = pbt::mix(base, idx) & ~7ULL; unsigned cls;
	uint64_t r = pbt::mix(base ^ 0x5555, idx);
	switch (profile) { case 0: cls = r % 5; break; case 1: cls = r % 8; break; case 2: cls = NOSPC + r % 3; break; default: cls = r % 3 == 0 ? THRESH : r % 3 == 1 ? BIGC : EXACT; }
	return k | cls;
}
static unsigned draw_yields(Gen &g) { return g.weighted({3, 2, 1}) == 0 ? 0 : g.chance(1, 2) ? g.below(6) : g.pick({10, 30, 100}); }

static void start_comp(DataCompressionStream &s, std::vector<CompOp> &ops, unsigned k, Config cfg);
static void finalize_comp(DataCompressionStream &s, std::vector<CompOp> &ops, unsigned k, Config cfg) {
	CompOp *op = &ops[k];
	s.finalize(op->cancel, [&s, &ops, op, k, cfg](bool ok) {
		K->put(FB, k, 0, ok);
		op->success = ok; wyields(op->y2 / 4);
		if (op->fin.fetch_add(1) == 0 && k + 1 < ops.size() && ops[k + 1].nested) {
			start_comp(s, ops, k + 1, cfg);
			if (ops[k + 1].finalize) finalize_comp(s, ops, k + 1, cfg);
		}
		K->put(FE, k, 0);
	});
}
static void start_comp(DataCompressionStream &s, std::vector<CompOp> &ops, unsigned k, Config) {
	CompOp &op = ops[k];
	s.start(op.data, op.size, [k](SBlock &&b) {
		K->put(BB, k, b.offset);
		wyields(K->cb_yields);
		unsigned i = K->nb.fetch_add(1, std::memory_order_relaxed);
		size_t off = b.offset;
		if (i < Case::MAXBLK) { K->blk[i] = std::move(b); K->blkop[i] = k; }
		K->put(BE, k, off, i);
	});
}

static void comp_history(Gen &g, Ctx &c, const char *focus) {
	std::string P = focus;
	bool faulty = P == "C18" || ((P == "C25" || P == "C19" || P == "C17") && g.chance(1, 3));
	bool epochs = P == "C15" || g.chance(1, 5);
	Config cfg; cfg.threads = 1 + g.weighted({2, 4, 4, 2, 1, 1}); cfg.numa = g.chance(1, 10); cfg.ready = g.chance(1, 3);
	cfg.impl = (P == "C14" && !faulty && g.chance(1, 12)) ? 1 : 0; cfg.real = cfg.impl != 0;
	cfg.destroy = (P == "C17" || P == "C25" || P == "C19") ? g.weighted({4, 3, 3, 1}) : P == "C15" ? g.weighted({6, 1, 2, 0}) : 0; cfg.destroy_y = draw_yields(g);
	unsigned nops = cfg.destroy == 3 ? 0 : 1 + g.weighted({3, 3, 2, 1});
	set_align(8, 64);
	if (P == "C14" && g.chance(1, 3)) { size_t r = g.pick({(size_t)1, (size_t)8, (size_t)128, (size_t)4096, (size_t)CHUNK_SIZE}); set_align(r, g.pick({(size_t)1, (size_t)8, (size_t)128, (size_t)4096, (size_t)CHUNK_SIZE, (size_t)2 * CHUNK_SIZE})); }
	if (P == "C18" && nops < 2) nops = 2;
	size_t epoch = epochs ? BLOCK_SIZE << g.below(3) : 0;
	Case *kc = K = new Case; std::unique_ptr<Case> hold(kc);
	kc->impl_yields = g.below(2); kc->cb_yields = g.pick({0, 0, 1, 3, 8});
	std::vector<CompOp> ops(nops); size_t total = 0;
	std::string desc = pbt::fmt("compression stream, %u threads, %s codec (alignment %zu required, %zu preferred), epoch %zu blocks, %u ops", cfg.threads, impl_name(cfg.impl), MOCKA.required_alignment, MOCKA.preferred_alignment, epoch / BLOCK_SIZE, nops);
	unsigned nfault = 0, nblk = 0;
	for (unsigned k = 0; k < nops; k++) {
		CompOp &o = ops[k];
		o.nblocks = epochs ? g.below(10) : g.weighted({1, 3, 3, 2, 1, 1}); if (!epochs && o.nblocks == 5) o.nblocks = 5 + g.below(5);
		if (cfg.real) o.nblocks = 1 + g.below(2);
		o.tail = g.pick({(size_t)0, (size_t)0, (size_t)1, (size_t)CHUNK_SIZE, (size_t)BLOCK_SIZE - 1});
		unsigned prof = g.weighted({3, 3, 1, 1}); uint64_t base = g.seed();
		for (unsigned i = 0; i < o.nblocks * NUM_CHUNKS_PER_BLOCK; i++) o.keys.push_back(draw_key(g, base, i, prof));
		o.size = o.nblocks * BLOCK_SIZE + o.tail; total += (o.nblocks + 1) * BLOCK_SIZE; nblk += o.nblocks;
		o.cancel = (P == "C17" || P == "C25" || P == "C18" || P == "C19" || P == "C15") && g.chance(1, 4);
		bool last = k + 1 == nops;
		o.finalize = !(last && cfg.destroy == 2); o.wait = !(last && cfg.destroy == 1);
		o.nested = k > 0 && g.chance(1, 4) && !(last && (cfg.destroy == 1 || cfg.destroy == 2)); o.y1 = draw_yields(g); o.y2 = draw_yields(g);
		desc += pbt::fmt("; op%u: %u blocks+%zu%s%s%s", k, o.nblocks, o.tail, o.cancel ? " cancelled" : "", o.nested ? " started from the callback" : "", o.finalize ? "" : " never finalized");
		if (faulty && o.nblocks && (k + 1 < nops || nops == 1 || P != "C18") && g.chance(3, 4)) {
			unsigned nf = 1 + g.weighted({4, 2, 1}) * g.below(3);
			for (unsigned f = 0; f < nf; f++) { uint64_t key = o.keys[g.below(o.keys.size())]; int code = g.pick({-EINVAL, -EIO, -ENOMEM}); kc->faults.push_back({key, code}); nfault++; desc += pbt::fmt(", chunk fails with %d", code); }
		}
	}
	desc += pbt::fmt("; destroy mode %u", cfg.destroy);
	uint8_t *a = arena(total + BLOCK_SIZE);
	for (auto &o : ops) { o.data = a; for (size_t i = 0; i < o.keys.size(); i++) fill_chunk(a + i * CHUNK_SIZE, o.keys[i], cfg.real); a += (o.nblocks + 1) * BLOCK_SIZE; }
	viols.clear();
	std::atomic<bool> dead{false}; unsigned dead_at = 0;
	Run run(g, c, desc);
#ifdef USE_MEMTRACK
	if (P == "C25") { static bool t = false; if (!t) { mem::self_test(); t = true; } }
	mem::track(true);
#endif
	{
		std::unique_ptr<DataCompressionStream> s(new DataCompressionStream(impl_of(cfg.impl), cfg.threads, cfg.numa ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults, err_logger, dbg_logger));
		if (cfg.ready) s->wait_until_ready();
		if (epoch) s->set_offset_sync_epoch_multiple(epoch);
		for (unsigned k = 0; k < nops; k++) {
			CompOp &o = ops[k];
			if (!o.nested) start_comp(*s, ops, k, cfg);
			wyields(o.y1);
			if (!o.nested && o.finalize) finalize_comp(*s, ops, k, cfg);
			bool next_nested = k + 1 < nops && ops[k + 1].nested;
			if (o.finalize && o.wait && !next_nested) { CompOp *op = &o; wwait([op] { return op->fin.load() > 0; }, "waiting for the finalization callback"); wyields(o.y2); }
		}
		wyields(cfg.destroy_y);
		s.reset();
		dead_at = kc->put(DESTROYED, -1, 0); dead = true;
	}
	wyields(3);
	run.finish();
	mem_ignore(1);
	unsigned nrec = kc->n.load(), nbl = kc->nb.load();
	if (nrec > Case::MAXREC || nbl > Case::MAXBLK) violate("C14", "more events (%u, %u blocks) than the operations can have", nrec, nbl);
	nrec = std::min(nrec, Case::MAXREC); nbl = std::min(nbl, Case::MAXBLK);
	if (kc->misaligned) violate("C14", "an implementation that requires %zu byte alignment (and prefers %zu) was given an output buffer with less", MOCKA.required_alignment, MOCKA.preferred_alignment);
	if (kc->bad) violate("C14 C17", "the codec was called with a wrong chunk size");
	// which operation does a codec failure belong to: by key
	std::vector<int> failed(nops, 0); bool prior = false;
	for (unsigned i = 0; i < nrec; i++) if (kc->log[i].ev == IFAIL) for (unsigned k = 0; k < nops; k++) for (auto x : ops[k].keys) if (x == kc->log[i].x) failed[k]++;
	for (unsigned i = dead_at + 1; i < nrec; i++) if (kc->log[i].ev != DESTROYED) violate("C17", "event %d of operation %d after the stream was destroyed", kc->log[i].ev, kc->log[i].op);
	for (unsigned k = 0; k < nops; k++) {
		CompOp &o = ops[k]; std::string after = std::string(k ? " C17" : "") + (prior ? " C18" : ""); // a later operation must behave like the first
		int fb = -1, nfin = 0; std::vector<int> begin(o.nblocks, -1), end(o.nblocks, -1);
		for (unsigned i = 0; i < nrec; i++) {
			Rec &r = kc->log[i]; if (r.op != (int)k) continue;
			if (r.ev == FB) { nfin++; if (fb < 0) fb = i; }
			if ((r.ev == BB || r.ev == BE) && fb >= 0) violate(("C14 C17" + after).c_str(), "operation %u: block callback (offset %zu) %s after the finalization callback began", k, r.off, r.ev == BB ? "starts" : "ends");
			if (r.ev == BB && r.off != SIZE_MAX) {
				if (r.off % BLOCK_SIZE || r.off / BLOCK_SIZE >= o.nblocks) { violate(("C14" + after).c_str(), "operation %u: block with offset %zu, which is not a whole block of the %zu bytes", k, r.off, o.size); continue; }
				size_t b = r.off / BLOCK_SIZE;
				if (begin[b] >= 0) violate(("C14" + after).c_str(), "operation %u: block at offset %zu emitted twice", k, r.off);
				begin[b] = i;
			}
			if (r.ev == BB && r.off == SIZE_MAX && !failed[k]) violate("C14 C18", "operation %u: error block although no chunk failed", k);
			if (r.ev == BE && r.off != SIZE_MAX && r.off / BLOCK_SIZE < o.nblocks) end[r.off / BLOCK_SIZE] = i;
		}
		bool must = o.finalize && o.wait; // not overtaken by destruction
		if (nfin > 1 || (must && nfin != 1) || (!o.finalize && nfin)) violate(("C17" + after).c_str(), "operation %u: finalization callback invoked %d times", k, nfin);
		if (nfin == 1) {
			bool ok = kc->log[fb].x;
			if (failed[k] && ok) violate("C18", "operation %u: the codec failed for %d chunks but finalization reports success", k, failed[k]);
			if (!failed[k] && !ok) violate("C17 C18 C14", "operation %u: finalization reports failure although no chunk failed%s", k, prior ? " (an earlier operation had failed)" : "");
			if (ok && !o.cancel) for (unsigned b = 0; b < o.nblocks; b++) if (begin[b] < 0) violate(("C14" + after).c_str(), "operation %u: finalization reports success but block %u was never emitted", k, b);
		}
		if (epoch) for (unsigned b = 0; b < o.nblocks; b++) if (begin[b] >= 0) {
			unsigned lim = b * BLOCK_SIZE / epoch * epoch / BLOCK_SIZE;
			if (!failed[k]) for (unsigned q = 0; q < lim; q++) if (end[q] < 0 || end[q] > begin[b]) { violate("C15", "operation %u%s: block %u emitted before the callback for block %u %s (epoch of %zu blocks)", k, o.cancel ? " (cancelled)" : "", b, q, end[q] < 0 ? "was ever made" : "returned", epoch / BLOCK_SIZE); break; }
		}
		if (failed[k]) prior = true;
	}
	check_errlog(kc, nrec, prior);
	for (unsigned i = 0; i < nbl; i++) {
		SBlock &b = kc->blk[i]; CompOp &o = ops[kc->blkop[i]];
		if (b.offset == SIZE_MAX || b.offset % BLOCK_SIZE || b.offset / BLOCK_SIZE >= o.nblocks) continue;
		if (b.source != o.data + b.offset) { violate("C14 C17", "block at offset %zu of operation %d refers to other source data", b.offset, kc->blkop[i]); continue; }
		for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) {
			uint64_t key = o.keys[b.offset / CHUNK_SIZE + q]; size_t sz = b.sizes[q];
			if (sz == CHUNK_SIZE) { if (!raw_class(key, cfg.real)) violate("C14", "compressible chunk %u of the block at %zu is marked uncompressed", q, b.offset); continue; }
			if (sz == 0 || sz > COMPRESSIBLE_THRESHOLD) { violate("C14", "chunk %u of the block at %zu has size %zu", q, b.offset, sz); continue; }
			const uint8_t *p = b.get_chunk(q);
			if (!cfg.real) {
				uint64_t h[3]; memcpy(h, p, 24);
				if (h[0] != MAGIC || h[1] != key || h[2] != sz) violate("C14", "chunk %u of the block at %zu does not hold the compressed form of that chunk", q, b.offset);
			} else {
				Bytes out(CHUNK_SIZE); size_t n = CHUNK_SIZE; int r = sw842_decompress(p, sz, out.data(), &n);
				if (r || n != CHUNK_SIZE || !chunk_is(out.data(), key, true)) violate("C14", "chunk %u of the block at %zu does not decode to that chunk (ret %d)", q, b.offset, r);
			}
		}
	}
	for (auto &b : kc->blk) b.release_buffer();
	kc->faults.shrink_to_fit();
	uint64_t rh = run.hash();
	bool anyfail = false; for (auto f : failed) anyfail |= f > 0;
#ifdef USE_MEMTRACK
	mem::ignore(-1);
	if (P == "C25" && !mem::overflow) { mem::Live l = mem::live(); size_t sz[4] = {0}; mem::live_sizes(sz, 4); leaked = l.blocks; if (l.blocks) leak_msg = pbt::fmt("%zu allocations (%zu bytes; sizes %zu %zu %zu) not freed after the compression stream was destroyed", l.blocks, l.bytes, sz[0], sz[1], sz[2]); }
	mem::track(false);
#endif
	settle(c, desc);
	c.label(pbt::fmt("comp: threads %u", cfg.threads).c_str()); c.label(pbt::fmt("comp: destroy mode %u", cfg.destroy).c_str()); if (anyfail) c.label("comp: a chunk failed"); if (epoch) c.label("comp: epochs"); if (nops > 1) c.label("comp: several operations");
	for (auto &o : ops) { if (o.cancel) c.label("comp: cancelled op"); if (o.nested) c.label("comp: op started from callback"); }
	bool nt = cfg.threads >= 2 && (P == "C15" ? nblk * BLOCK_SIZE > epoch : P == "C18" ? anyfail : P == "C17" || P == "C25" || P == "C19" ? true : nblk >= 2);
	if (nt) { c.nontrivial(pbt::mix(rh, pbt::hash_bytes(desc.data(), desc.size()))); if (c.want_sample()) c.sample(desc.substr(0, 700)); }
}

// ---- decompression stream histories --------------------------------------------------------------------------------------
enum { ABSENT, RAW, COMPD };
static SBlock build_block(const DecOp &o, const DecBlock &d, bool real) {
	SBlock b; b.offset = d.index * BLOCK_SIZE; b.chunk_padding = d.padding; b.source = nullptr;
	bool anyc = false, anyr = false; for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) { anyc |= d.state[q] == COMPD; anyr |= d.state[q] == RAW; }
	uint8_t *buf = anyc ? b.allocate_buffer(d.align, d.padding) : nullptr;
	if (anyr) b.source = o.rawsrc + d.index * BLOCK_SIZE;
	for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) {
		if (d.state[q] == ABSENT) b.sizes[q] = 0;
		else if (d.state[q] == RAW) b.sizes[q] = CHUNK_SIZE;
		else if (!real) { uint64_t h[3] = {MAGIC, d.key[q], mock_size(d.key[q])}; memcpy(buf + q * d.padding, h, 24); if (d.fault[q] == 3) buf[q * d.padding] ^= 1; b.sizes[q] = h[2]; }
		else { Bytes im = make_image(d.key[q], true, d.fault[q], d.key[q] >> 13); memcpy(buf + q * d.padding, im.data(), im.size()); b.sizes[q] = im.size(); }
	}
	return b;
}
static uint64_t region_hash(const DecOp &o) { return pbt::hash_bytes(o.dest, (o.nblocks + 1) * BLOCK_SIZE); }
// Content of one chunk of the destination. allow_new/allow_old: what is acceptable
static void check_dest(const DecOp &o, unsigned k, bool real, bool complete, bool lenient, const char *when, const std::string &after) {
	uint8_t fillc[8]; memset(fillc, (uint8_t)o.fillv, 8); uint64_t fk; memcpy(&fk, fillc, 8);
	std::vector<const DecBlock *> by(o.nblocks, nullptr); for (auto &b : o.blocks) if (b.pushed) by[b.index] = &b;
	for (unsigned b = 0; b <= o.nblocks; b++) for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) {
		const uint8_t *p = o.dest + b * BLOCK_SIZE + q * CHUNK_SIZE;
		unsigned st = b < o.nblocks && by[b] ? by[b]->state[q] : ABSENT;
		bool is_old = memcmp(p, &fk, 8) == 0 && memcmp(p, p + 8, CHUNK_SIZE - 8) == 0;
		if (st == ABSENT) { if (!is_old) violate(("C16 C17" + after).c_str(), "operation %u, %s: chunk %u of block %u was %s but its destination bytes changed", k, when, q, b, b < o.nblocks && by[b] ? "marked absent" : "never pushed"); continue; }
		if (lenient) continue;
		bool is_new = chunk_is(p, by[b]->key[q], real);
		if (complete ? !is_new : !is_new && !is_old) violate(("C16" + after).c_str(), "operation %u, %s: chunk %u of block %u (%s) does not hold its data%s", k, when, q, b, st == RAW ? "uncompressed" : "compressed", is_old ? " (not written)" : "");
	}
}
static void run_dec(DataDecompressionStream &s, std::vector<DecOp> &ops, unsigned k, const Config &cfg, bool nested);
static void finalize_dec(DataDecompressionStream &s, std::vector<DecOp> &ops, unsigned k, const Config &cfg) {
	DecOp *op = &ops[k];
	s.finalize(op->cancel, [&s, &ops, op, k, &cfg](bool ok) {
		K->put(FB, k, 0, ok);
		if (ok && !op->cancel) check_dest(*op, k, cfg.real, true, false, "when the finalization callback is invoked", "");
		op->hash_at_fin = region_hash(*op);
		op->success = ok; wyields(op->y2 / 4);
		if (op->fin.fetch_add(1) == 0 && k + 1 < ops.size() && ops[k + 1].nested) run_dec(s, ops, k + 1, cfg, true);
		K->put(FE, k, 0);
	});
}
static void run_dec(DataDecompressionStream &s, std::vector<DecOp> &ops, unsigned k, const Config &cfg, bool) {
	DecOp &o = ops[k];
	s.start(o.dest);
	wyields(o.y1);
	for (auto &d : o.blocks) {
		unsigned logged = K->errlogs.load();
		SBlock b = build_block(o, d, cfg.real);
		d.pushed = true; // set first: workers may start at once
		bool r = s.push_block(std::move(b)); d.pushret = r;
		if (!r) d.pushed = false;
		(void)logged;
		K->put(PUSHREF, k, d.index, r);
		wyields(d.y);
	}
	if (o.finalize) finalize_dec(s, ops, k, cfg);
}
static void decomp_history(Gen &g, Ctx &c, const char *focus) {
	std::string P = focus;
	bool faulty = P == "C18" || ((P == "C25" || P == "C17" || P == "C19") && g.chance(1, 3));
	Config cfg; cfg.threads = 1 + g.weighted({2, 4, 4, 2, 1, 1}); cfg.numa = g.chance(1, 10); cfg.ready = g.chance(1, 3);
	cfg.impl = (P == "C16" || P == "C18") && g.chance(1, 3) ? 1 + g.chance(1, 4) : 0; cfg.real = cfg.impl != 0;
	cfg.destroy = (P == "C17" || P == "C25" || P == "C19") ? g.weighted({4, 3, 3, 1}) : 0; cfg.destroy_y = draw_yields(g);
	unsigned nops = cfg.destroy == 3 ? 0 : 1 + g.weighted({3, 3, 2, 1}); if (P == "C18" && nops < 2) nops = 2; if (cfg.impl == 2 && nops > 2) nops = 2;
	Case *kc = K = new Case; std::unique_ptr<Case> hold(kc);
	kc->impl_yields = g.below(3); viols.clear();
	std::vector<DecOp> ops(nops); size_t total = 0; unsigned npush = 0;
	std::string desc = pbt::fmt("decompression stream, %u threads, %s codec, %u ops", cfg.threads, impl_name(cfg.impl), nops);
	std::vector<int> planned(nops, 0); bool rawneeded = false;
	for (unsigned k = 0; k < nops; k++) {
		DecOp &o = ops[k]; o.nblocks = 1 + g.weighted({3, 3, 2, 1}); if (g.chance(1, 12)) o.nblocks = 5 + g.below(4);
		o.fillv = 0xA0 + g.below(64); uint64_t base = g.seed(); unsigned prof = g.weighted({3, 3, 1}); unsigned absent = g.pick({0, 0, 1, 4});
		std::vector<unsigned> order(o.nblocks); for (unsigned i = 0; i < o.nblocks; i++) order[i] = i;
		for (unsigned i = 0; i + 1 < o.nblocks; i++) std::swap(order[i], order[i + g.below(o.nblocks - i)]);
		unsigned np = g.chance(2, 3) ? o.nblocks : g.below(o.nblocks + 1);
		bool last = k + 1 == nops, fault_op = faulty && (P != "C18" || !last) && g.chance(3, 4);
		bool pad = g.chance(1, 4);
		for (unsigned i = 0; i < np; i++) {
			DecBlock d; d.index = order[i]; d.y = draw_yields(g) / 2; d.align = g.pick({1, 8, 64, 4096}); if (cfg.real && d.align < 8) d.align = 8; size_t maxs = 24;
			for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) {
				uint64_t key = draw_key(g, base, d.index * NUM_CHUNKS_PER_BLOCK + q, prof); d.key[q] = key; d.fault[q] = 0;
				d.state[q] = pbt::mix(base + 77, d.index * 16 + q) % 8 < absent ? ABSENT : raw_class(key, cfg.real) ? RAW : COMPD;
				if (d.state[q] == RAW) rawneeded = true;
			}
			if (fault_op && g.chance(1, 2)) {
				unsigned q = g.below(NUM_CHUNKS_PER_BLOCK); if (d.state[q] == RAW || d.state[q] == ABSENT) { d.key[q] &= ~7ULL; d.state[q] = COMPD; }
				int mode = g.weighted({3, 2, 3, 2, 2});
				if (!cfg.real) { if (mode == 4) d.fault[q] = 3; else kc->faults.push_back({d.key[q], mode == 0 ? -EINVAL : mode == 1 ? -EIO : mode == 2 ? 1 : -ENOSPC}); }
				else d.fault[q] = mode == 0 ? 3 : mode == 1 ? 5 : mode == 2 ? 1 : 4;
				planned[k]++; static const char *mn[] = {"fails", "fails(2)", "decodes to less than a chunk", "decodes to more than a chunk", "is damaged"}; desc += pbt::fmt(" [op%u block %zu chunk %u %s]", k, d.index, q, mn[mode]);
			}
			for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) if (d.state[q] == COMPD) maxs = std::max(maxs, cfg.real ? (size_t)4096 : mock_size(d.key[q]));
			d.padding = pad ? (maxs + 255) / 256 * 256 : CHUNK_SIZE; if (d.padding > CHUNK_SIZE) d.padding = CHUNK_SIZE;
			o.blocks.push_back(d); npush++;
		}
		o.cancel = (P == "C17" || P == "C25" || P == "C18" || P == "C19") && g.chance(1, 4);
		o.finalize = !(last && cfg.destroy == 2); o.wait = !(last && cfg.destroy == 1); o.nested = k > 0 && g.chance(1, 4) && !(last && (cfg.destroy == 1 || cfg.destroy == 2)); o.y1 = draw_yields(g); o.y2 = draw_yields(g);
		desc += pbt::fmt("; op%u: push %u of %u blocks%s%s%s", k, np, o.nblocks, o.cancel ? " cancelled" : "", o.nested ? " run from the callback" : "", o.finalize ? "" : " never finalized");
		total += 2 * (o.nblocks + 1) * BLOCK_SIZE;
	}
	desc += pbt::fmt("; destroy mode %u", cfg.destroy);
	uint8_t *a = arena(total + BLOCK_SIZE);
	for (auto &o : ops) {
		o.dest = a; memset(a, (uint8_t)o.fillv, (o.nblocks + 1) * BLOCK_SIZE); a += (o.nblocks + 1) * BLOCK_SIZE;
		o.rawsrc = a; a += (o.nblocks + 1) * BLOCK_SIZE;
		for (auto &d : o.blocks) for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) if (d.state[q] == RAW) fill_chunk(o.rawsrc + d.index * BLOCK_SIZE + q * CHUNK_SIZE, d.key[q], cfg.real);
	}
	unsigned dead_at;
	Run run(g, c, desc);
#ifdef USE_MEMTRACK
	if (P == "C25") { static bool t = false; if (!t) { mem::self_test(); t = true; } }
	mem::track(true);
#endif
	{
		std::unique_ptr<DataDecompressionStream> s(new DataDecompressionStream(impl_of(cfg.impl), cfg.threads, cfg.numa ? thread_policy::spread_threads_among_numa_nodes : thread_policy::use_defaults, err_logger, dbg_logger));
		if (cfg.ready) s->wait_until_ready();
		for (unsigned k = 0; k < nops; k++) {
			DecOp &o = ops[k];
			if (!o.nested) run_dec(*s, ops, k, cfg, false);
			bool next_nested = k + 1 < nops && ops[k + 1].nested;
			if (o.finalize && o.wait && !next_nested) { DecOp *op = &o; wwait([op] { return op->fin.load() > 0; }, "waiting for the finalization callback"); wyields(o.y2); }
		}
		wyields(cfg.destroy_y);
		s.reset();
		dead_at = kc->put(DESTROYED, -1, 0);
	}
	wyields(3);
	run.finish();
	mem_ignore(1);
	unsigned nrec = std::min(kc->n.load(), Case::MAXREC);
	for (unsigned i = dead_at + 1; i < nrec; i++) violate("C17", "event %d after the stream was destroyed", kc->log[i].ev);
	bool prior = false, anyfail = false;
	for (unsigned k = 0; k < nops; k++) {
		DecOp &o = ops[k]; std::string after = std::string(k ? " C17" : "") + (prior ? " C18" : ""); // a later operation must behave like the first
		int nfin = 0, ok = -1;
		for (unsigned i = 0; i < nrec; i++) if (kc->log[i].op == (int)k && kc->log[i].ev == FB) { nfin++; ok = kc->log[i].x; }
		bool must = o.finalize && o.wait;
		if (nfin > 1 || (must && nfin != 1) || (!o.finalize && nfin)) violate(("C17" + after).c_str(), "operation %u: finalization callback invoked %d times", k, nfin);
		unsigned badpushed = 0; // faulty chunks that were accepted
		for (auto &d : o.blocks) if (d.pushed) for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) if (d.state[q] == COMPD && (d.fault[q] || (!cfg.real && fault_of(d.key[q])))) badpushed++;
		bool refused = false; for (auto &d : o.blocks) if (d.pushret == 0) refused = true;
		// which failures actually happened is only known for the mock; after cancellation a bad block may have been dropped
		bool happened = badpushed && !o.cancel;
		if (!cfg.real) { happened = false; for (unsigned i = 0; i < nrec; i++) if (kc->log[i].ev == IFAIL) { if (kc->log[i].x == 1) { for (auto &d : o.blocks) if (d.pushed) for (auto f : d.fault) if (f == 3 && !o.cancel) happened = true; } else for (auto &d : o.blocks) for (auto key : d.key) if (key == kc->log[i].x) happened = true; } }
		if (nfin >= 1) {
			if ((happened || (badpushed && !o.cancel)) && ok) violate("C18", "operation %u: %u chunks could not be decompressed but finalization reports success", k, badpushed);
			if (!badpushed && !ok) violate("C17 C18 C16", "operation %u: finalization reports failure although nothing failed%s", k, prior ? " (an earlier operation had failed)" : "");
			if (refused && ok) violate("C18 C16", "operation %u: a block was refused but finalization reports success", k);
		}
		if (refused && !badpushed) violate("C16 C18", "operation %u: a block was refused although nothing failed%s", k, prior ? " (an earlier operation had failed)" : "");
		bool clean = !badpushed && nfin >= 1 && ok && !o.cancel;
		if (o.finalize) check_dest(o, k, cfg.real, clean, badpushed != 0, "at the end", after); else check_dest(o, k, cfg.real, false, true, "at the end", after);
		if (nfin >= 1 && region_hash(o) != o.hash_at_fin) violate("C16 C17", "operation %u%s: the destination changed after the finalization callback was invoked", k, o.cancel ? " (cancelled)" : "");
		if (badpushed) { prior = true; anyfail = true; }
	}
	check_errlog(kc, nrec, anyfail);
	// pushes after the failure was recorded (the error logger is used after recording it) are refused
	{
		int cur = -1; bool err = false;
		for (unsigned i = 0; i < nrec; i++) {
			Rec &r = kc->log[i];
			if (r.ev == FB) err = false;
			if (r.ev == ELOG) err = true;
			if (r.ev == PUSHREF) {
				if (r.op != cur) { cur = r.op; }
				// the record is written after the call: only an error logged before the previous push record counts
				bool before = false; for (int j = (int)i - 1; j >= 0; j--) { if (kc->log[j].ev == FB) break; if (kc->log[j].ev == PUSHREF && kc->log[j].op == r.op) { for (int q = j - 1; q >= 0; q--) { if (kc->log[q].ev == FB) break; if (kc->log[q].ev == ELOG) { before = true; break; } } break; } }
				if (before && r.x) violate("C18", "operation %d: block %zu accepted after the failure had been recorded", r.op, r.off);
			}
		}
		(void)err;
	}
	uint64_t rh = run.hash();
#ifdef USE_MEMTRACK
	mem::ignore(-1);
	if (P == "C25" && !mem::overflow) { mem::Live l = mem::live(); size_t sz[4] = {0}; mem::live_sizes(sz, 4); leaked = l.blocks; if (l.blocks) leak_msg = pbt::fmt("%zu allocations (%zu bytes; sizes %zu %zu %zu) not freed after the decompression stream was destroyed", l.blocks, l.bytes, sz[0], sz[1], sz[2]); }
	mem::track(false);
#endif
	settle(c, desc);
	(void)rawneeded;
	c.label(pbt::fmt("decomp: threads %u", cfg.threads).c_str()); c.label(pbt::fmt("decomp: codec %s", impl_name(cfg.impl)).c_str()); c.label(pbt::fmt("decomp: destroy mode %u", cfg.destroy).c_str()); if (anyfail) c.label("decomp: a chunk failed"); if (nops > 1) c.label("decomp: several operations");
	for (auto &o : ops) { if (o.cancel) c.label("decomp: cancelled op"); if (o.nested) c.label("decomp: op run from callback"); for (auto &d : o.blocks) if (d.pushret == 0) c.label("decomp: push refused"); }
	bool nt = cfg.threads >= 2 && (P == "C18" ? anyfail : P == "C16" ? npush >= 2 : true);
	if (nt) { c.nontrivial(pbt::mix(rh, pbt::hash_bytes(desc.data(), desc.size()))); if (c.want_sample()) c.sample(desc.substr(0, 700)); }
}

// Data far larger than memory: the source is never written and the codec identifies chunks by their address.
namespace sparse {
static const uint8_t *base; static size_t nblocks, size; static uint64_t seed; static std::atomic<int> bad;
static uint64_t key_of(size_t chunk) { uint64_t r = pbt::mix(seed, chunk); return (r & ~7ULL) | (r % 11 == 0 ? NOSPC : r % 13 == 0 ? BIGC : SMALLC); }
static int comp(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen) {
	size_t off = in - base; uint64_t k;
	if (in < base || off >= size || off % CHUNK_SIZE || ilen != CHUNK_SIZE) { bad = 1; *olen = 0; return -EINVAL; }
	k = key_of(off / CHUNK_SIZE); size_t s = mock_size(k);
	if (s > *olen) { *olen = 0; return -ENOSPC; }
	uint64_t h[3] = {MAGIC, off / CHUNK_SIZE, s}; memcpy(out, h, 24); *olen = s; return 0;
}
static const lib842_implementation IMPL = {comp, mock_d, mock_chunked<comp>, mock_chunked<mock_d>, 8, 64};
}
static void sparse_comp(Gen &g, Ctx &c, const char *focus, size_t fixed_blocks) {
	std::string P = focus; unsigned threads = 1 + g.weighted({1, 4, 4, 2, 1, 1});
	size_t nb = fixed_blocks ? fixed_blocks : 1 + (g.chance(1, 2) ? g.below(64) : g.below(600)), tail = g.pick({(size_t)0, (size_t)1, (size_t)CHUNK_SIZE, (size_t)BLOCK_SIZE - 1});
	size_t epoch = P == "C15" || g.chance(1, 2) ? BLOCK_SIZE << (fixed_blocks ? g.below(13) : g.below(9)) : 0; unsigned nops = 1 + g.chance(1, 3);
	sparse::nblocks = nb; sparse::size = nb * BLOCK_SIZE + tail; sparse::seed = g.seed(); sparse::bad = 0; viols.clear();
	Case *kc = K = new Case; std::unique_ptr<Case> hold(kc); unsigned cby = g.pick({0, 0, 1, 3});
	std::string desc = pbt::fmt("compression stream over untouched data, %u threads, %zu blocks+%zu, epoch %zu blocks, %u ops", threads, nb, tail, epoch / BLOCK_SIZE, nops);
	size_t map = (nb + 1) * BLOCK_SIZE; uint8_t *m = (uint8_t *)mmap(nullptr, map, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { c.label("large mapping refused"); return; }
	sparse::base = m;
	Run run(g, c, desc);
	{
		DataCompressionStream s(sparse::IMPL, threads, thread_policy::use_defaults, err_logger, dbg_logger);
		if (epoch) s.set_offset_sync_epoch_multiple(epoch);
		for (unsigned k = 0; k < nops; k++) {
			std::unique_ptr<std::atomic<unsigned>[]> beg(new std::atomic<unsigned>[nb]), end(new std::atomic<unsigned>[nb]); for (size_t i = 0; i < nb; i++) beg[i] = end[i] = 0;
			std::atomic<unsigned> clock{1}; std::atomic<int> fin{-1}, wrong{0}; std::atomic<size_t> where{0};
			auto flag = [&](int what, size_t off) { if (!wrong.exchange(what)) where = off; };
			s.start(m, sparse::size, [&](SBlock &&b) {
				SBlock blk = std::move(b);
				if (blk.offset % BLOCK_SIZE || blk.offset / BLOCK_SIZE >= nb) { flag(1, blk.offset); return; }
				size_t i = blk.offset / BLOCK_SIZE;
				if (beg[i].exchange(clock++)) flag(2, blk.offset);
				if (blk.source != m + blk.offset) flag(3, blk.offset);
				for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) {
					uint64_t key = sparse::key_of(i * NUM_CHUNKS_PER_BLOCK + q); bool raw = raw_class(key, false);
					if (raw ? blk.sizes[q] != CHUNK_SIZE : blk.sizes[q] != mock_size(key)) { flag(4, blk.offset + q * CHUNK_SIZE); continue; }
					if (raw) continue;
					uint64_t h[3]; memcpy(h, blk.get_chunk(q), 24); if (h[0] != MAGIC || h[1] != i * NUM_CHUNKS_PER_BLOCK + q || h[2] != blk.sizes[q]) flag(5, blk.offset + q * CHUNK_SIZE);
				}
				wyields(cby);
				end[i] = clock++;
			});
			s.finalize(false, [&](bool ok) { fin = ok; });
			wwait([&] { return fin >= 0; }, "waiting for the finalization callback");
			static const char *what[] = {"", "is not a whole block of the data", "is emitted twice", "refers to other source data", "has a chunk with the wrong size", "has a chunk that is not the compressed form of that chunk"};
			if (wrong) violate(wrong == 4 || wrong == 5 || wrong == 3 ? "C14" : "C14 C15", "operation %u: the block at or around offset %zu %s", k, (size_t)where, what[wrong]);
			if (fin != 1 || sparse::bad) violate("C14 C15 C17", "operation %u: success %d%s", k, (int)fin, sparse::bad ? ", the codec was called on something that is not a chunk of the data" : "");
			else for (size_t i = 0; i < nb; i++) if (!beg[i] || !end[i]) { violate("C14 C15", "operation %u: block %zu was never emitted", k, i); break; }
			if (epoch) { size_t e = epoch / BLOCK_SIZE; unsigned maxend = 0; for (size_t f = 0; f < nb; f += e) { for (size_t i = f; i < std::min(nb, f + e); i++) if (beg[i] < maxend) { violate("C15", "operation %u: block %zu emitted before a block below %zu was (epoch of %zu blocks)", k, i, f, e); f = nb; break; } if (f < nb) for (size_t i = f; i < std::min(nb, f + e); i++) maxend = std::max<unsigned>(maxend, end[i]); } }
		}
	}
	run.finish(); munmap(m, map);
	settle(c, desc);
	c.label(sparse::size >> 32 ? "comp: more than 4 GiB" : "comp: many blocks"); if (epoch) c.label("comp: epochs");
	if (threads >= 2) { c.nontrivial(pbt::mix(run.hash(), pbt::hash_bytes(desc.data(), desc.size()))); if (c.want_sample()) c.sample(desc); }
}
static void sparse_decomp(Gen &g, Ctx &c) {
	unsigned threads = 1 + g.weighted({1, 4, 4, 2}); size_t span = ((size_t)4 << 30) + (g.chance(1, 2) ? (size_t)4 << 30 : 0) + 64 * BLOCK_SIZE, nb = span / BLOCK_SIZE;
	std::vector<size_t> idx; size_t n = 2 + g.below(6);
	while (idx.size() < n) { size_t i = g.pick({(size_t)0, ((size_t)1 << 31) / BLOCK_SIZE, ((size_t)1 << 32) / BLOCK_SIZE, nb - 1}) ; i = (i + g.below(40)) % nb; if (std::find(idx.begin(), idx.end(), i) == idx.end()) idx.push_back(i); }
	Case *kc = K = new Case; std::unique_ptr<Case> hold(kc); viols.clear(); uint64_t base = g.seed();
	std::string desc = pbt::fmt("decompression stream into %zu MiB, %u threads, blocks", span >> 20, threads); for (auto i : idx) desc += pbt::fmt(" %zu", i);
	uint8_t *m = (uint8_t *)mmap(nullptr, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { c.label("large mapping refused"); return; }
	uint8_t *src = arena(n * BLOCK_SIZE);
	auto key = [&](size_t i, unsigned q) { uint64_t r = pbt::mix(base, i * 16 + q); return (r & ~7ULL) | (r % 3 == 0 ? (uint64_t)EXACT : (uint64_t)SMALLC); };
	Run run(g, c, desc);
	{
		DataDecompressionStream s(MOCK, threads, thread_policy::use_defaults, err_logger, dbg_logger); std::atomic<int> fin{-1};
		s.start(m);
		for (size_t w = 0; w < n; w++) {
			SBlock b; b.offset = idx[w] * BLOCK_SIZE; b.chunk_padding = CHUNK_SIZE; b.source = src + w * BLOCK_SIZE; uint8_t *buf = b.allocate_buffer(64, CHUNK_SIZE);
			for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) { uint64_t k = key(idx[w], q); if ((k & 7) == EXACT) { fill_chunk(src + w * BLOCK_SIZE + q * CHUNK_SIZE, k, false); b.sizes[q] = CHUNK_SIZE; } else { uint64_t h[3] = {MAGIC, k, mock_size(k)}; memcpy(buf + q * CHUNK_SIZE, h, 24); b.sizes[q] = h[2]; } }
			if (!s.push_block(std::move(b))) violate("C16", "block %zu refused", idx[w]);
		}
		s.finalize(false, [&](bool ok) { fin = ok; });
		wwait([&] { return fin >= 0; }, "waiting for the finalization callback");
		if (fin != 1) violate("C16", "finalization reports failure");
		for (auto i : idx) for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) if (!chunk_is(m + i * BLOCK_SIZE + q * CHUNK_SIZE, key(i, q), false)) { violate("C16", "chunk %u of the block at offset %zu does not hold its data", q, i * BLOCK_SIZE); break; }
		size_t pages = 0; std::vector<unsigned char> vec(span / 4096); if (mincore(m, span, vec.data()) == 0) for (size_t p = 0; p < vec.size(); p++) if (vec[p] & 1) { size_t blk = p * 4096 / BLOCK_SIZE; if (std::find(idx.begin(), idx.end(), blk) == idx.end()) { const uint8_t *q = m + p * 4096; for (int i = 0; i < 4096; i++) if (q[i]) { violate("C16", "bytes at %zu, outside every pushed block, were written", p * 4096 + i); break; } pages++; } }
		(void)pages;
	}
	run.finish(); munmap(m, span);
	settle(c, desc); c.label("decomp: offsets beyond 4 GiB");
	if (threads >= 2) { c.nontrivial(pbt::mix(run.hash(), pbt::hash_bytes(desc.data(), desc.size()))); if (c.want_sample()) c.sample(desc); }
}

// Many blocks in one operation, each with few chunks present.
static void many_decomp(Gen &g, Ctx &c) {
	unsigned threads = 1 + g.weighted({3, 4, 4, 2}), nops = 1 + g.chance(1, 3); size_t nb = 10 + (g.chance(1, 2) ? g.below(100) : g.below(400)); unsigned per = 1 + g.below(2);
	Case *kc = K = new Case; std::unique_ptr<Case> hold(kc); viols.clear(); uint64_t base = g.seed(); bool shuffle = g.chance(1, 2);
	std::string desc = pbt::fmt("decompression stream, %u threads, %u ops of %zu blocks%s, up to %u chunks each", threads, nops, nb, shuffle ? " in random order" : "", per);
	size_t span = nb * BLOCK_SIZE; uint8_t *m = (uint8_t *)mmap(nullptr, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { c.label("large mapping refused"); return; }
	Run run(g, c, desc);
	{
		DataDecompressionStream s(MOCK, threads, thread_policy::use_defaults, err_logger, dbg_logger);
		for (unsigned k = 0; k < nops; k++) {
			std::atomic<int> fin{-1};
			auto key = [&](size_t i, unsigned j) { return (pbt::mix(base, (k * 1000 + i) * 16 + j) & ~7ULL) | (uint64_t)SMALLC; };
			auto pos = [&](size_t i, unsigned j) { return (unsigned)((pbt::mix(base + 1, i) + 5 * j) % 16); };
			std::vector<size_t> order(nb); for (size_t i = 0; i < nb; i++) order[i] = i;
			if (shuffle) { Rng r(base + k); for (size_t i = 0; i + 1 < nb; i++) std::swap(order[i], order[i + r.below(nb - i)]); }
			s.start(m); bool refused = false;
			for (size_t i : order) {
				SBlock b; b.offset = i * BLOCK_SIZE; b.chunk_padding = 64; b.source = nullptr; uint8_t *buf = b.allocate_buffer(64, 64); b.sizes.fill(0);
				for (unsigned j = 0; j < per; j++) { unsigned q = pos(i, j); uint64_t h[3] = {MAGIC, key(i, j), 24}; memcpy(buf + q * 64, h, 24); b.sizes[q] = mock_size(key(i, j)); h[2] = b.sizes[q]; memcpy(buf + q * 64, h, 24); }
				if (!s.push_block(std::move(b))) refused = true;
			}
			s.finalize(false, [&](bool ok) { fin = ok; });
			wwait([&] { return fin >= 0; }, "waiting for the finalization callback");
			if (refused) violate("C16", "operation %u: a block was refused", k);
			if (fin != 1) violate("C16", "operation %u: finalization reports failure", k);
			for (size_t i = 0; i < nb && viols.empty(); i++) for (unsigned j = 0; j < per; j++) if (!chunk_is(m + i * BLOCK_SIZE + pos(i, j) * CHUNK_SIZE, key(i, j), false)) { violate("C16", "operation %u: chunk %u of block %zu does not hold its data", k, pos(i, j), i); break; }
		}
	}
	run.finish(); munmap(m, span);
	settle(c, desc); c.label("decomp: many blocks");
	if (threads >= 2) { c.nontrivial(pbt::mix(run.hash(), pbt::hash_bytes(desc.data(), desc.size()))); if (c.want_sample()) c.sample(desc); }
}

// ---- C13: pipeline -----------------------------------------------------------------------------------------------------------
static void pipeline(Gen &g, Ctx &c) {
	unsigned pair = g.weighted({8, 3, 1, 1}); // mock, optsw->optsw, optsw->sw, sw->optsw
	unsigned ci = pair == 0 ? 0 : pair == 3 ? 2 : 1, di = pair == 0 ? 0 : pair == 2 ? 2 : 1; bool real = pair != 0;
	unsigned nt1 = 1 + g.below(4), nt2 = 1 + g.below(4), nops = 1 + g.below(2); if (ci == 2 || di == 2) nops = 1;
	unsigned mode = g.below(3); // push from the callbacks / collect, shuffle, push / push from the callbacks, serialised
	size_t epoch = g.chance(1, 5) ? BLOCK_SIZE << g.below(2) : 0;
	Case *kc = K = new Case; std::unique_ptr<Case> hold(kc); kc->impl_yields = g.below(3); kc->cb_yields = g.pick({0, 1, 4}); viols.clear();
	std::vector<unsigned> nb(nops); std::vector<std::vector<uint64_t>> keys(nops); size_t total = 0;
	std::string desc = pbt::fmt("pipeline %s -> %s, %u/%u threads, %s, epoch %zu", impl_name(ci), impl_name(di), nt1, nt2, mode == 0 ? "pushed by the compression threads" : mode == 1 ? "collected, shuffled, pushed" : "pushed by the compression threads one at a time", epoch / BLOCK_SIZE);
	for (unsigned k = 0; k < nops; k++) {
		nb[k] = real ? 1 + g.below(ci == 2 || di == 2 ? 1 : 2) : g.weighted({1, 2, 3, 2, 1}); if (!real && g.chance(1, 12)) nb[k] = 5 + g.below(5);
		unsigned prof = g.weighted({2, 3, 1, 1}); uint64_t base = g.seed();
		for (unsigned i = 0; i < nb[k] * NUM_CHUNKS_PER_BLOCK; i++) keys[k].push_back(draw_key(g, base, i, prof));
		total += 2 * (nb[k] + 1) * BLOCK_SIZE; desc += pbt::fmt("; op%u: %u blocks (profile %u)", k, nb[k], prof);
	}
	uint8_t *a = arena(total); uint64_t shuf = g.seed();
	Run run(g, c, desc);
	{
		DataCompressionStream cs(impl_of(ci), nt1, thread_policy::use_defaults, err_logger, dbg_logger);
		DataDecompressionStream ds(impl_of(di), nt2, thread_policy::use_defaults, err_logger, dbg_logger);
		if (epoch) cs.set_offset_sync_epoch_multiple(epoch);
		for (unsigned k = 0; k < nops; k++) {
			uint8_t *src = a, *dst = a + (nb[k] + 1) * BLOCK_SIZE; a = dst + (nb[k] + 1) * BLOCK_SIZE;
			for (size_t i = 0; i < keys[k].size(); i++) fill_chunk(src + i * CHUNK_SIZE, keys[k][i], real);
			memset(dst, 0x3C, (nb[k] + 1) * BLOCK_SIZE);
			std::mutex m; std::vector<SBlock> coll; std::atomic<int> cfin{-1}, dfin{-1}, refused{0}, errs{0};
			ds.start(dst);
			cs.start(src, nb[k] * BLOCK_SIZE, [&](SBlock &&b) {
				if (b.offset == SIZE_MAX) { errs++; return; }
				wyields(kc->cb_yields);
				if (mode == 0) { if (!ds.push_block(std::move(b))) refused++; return; }
				std::lock_guard<std::mutex> l(m);
				if (mode == 2) { if (!ds.push_block(std::move(b))) refused++; } else coll.push_back(std::move(b));
			});
			cs.finalize(false, [&](bool ok) { cfin = ok; });
			wwait([&] { return cfin >= 0; }, "waiting for the compression to finish");
			if (mode == 1) { Rng r(shuf + k); for (size_t i = 0; i + 1 < coll.size(); i++) std::swap(coll[i], coll[i + r.below(coll.size() - i)]); for (auto &b : coll) { if (!ds.push_block(std::move(b))) refused++; wyields(r.below(3)); } }
			ds.finalize(false, [&](bool ok) { dfin = ok; });
			wwait([&] { return dfin >= 0; }, "waiting for the decompression to finish");
			if (cfin != 1 || dfin != 1 || refused || errs) violate("C13", "operation %u: compression success %d, decompression success %d, refused blocks %d, error blocks %d", k, (int)cfin, (int)dfin, (int)refused, (int)errs);
			for (size_t i = 0; i < keys[k].size(); i++) if (!chunk_is(dst + i * CHUNK_SIZE, keys[k][i], real)) { violate("C13", "operation %u: chunk %zu of block %zu is not reproduced (%s chunk)", k, i % 16, i / 16, raw_class(keys[k][i], real) ? "incompressible" : "compressible"); break; }
			for (size_t i = 0; i < BLOCK_SIZE; i++) if (dst[nb[k] * BLOCK_SIZE + i] != 0x3C) { violate("C13", "operation %u: bytes after the data were written", k); break; }
		}
	}
	run.finish();
	settle(c, desc);
	c.label(pbt::fmt("pipeline %s -> %s", impl_name(ci), impl_name(di)).c_str()); c.label(mode == 0 ? "pushed by compression threads" : mode == 1 ? "collected and shuffled" : "pushed under a lock");
	unsigned n = 0; for (auto x : nb) n += x; for (auto &k : keys) for (auto x : k) if (raw_class(x, real)) { c.label("incompressible chunks present"); break; }
	if (n >= 2) { c.nontrivial(pbt::mix(run.hash(), pbt::hash_bytes(desc.data(), desc.size()))); if (c.want_sample()) c.sample(desc); }
}

// ---- C20 ------------------------------------------------------------------------------------------------------------------------
static void barrier_case(Gen &g, Ctx &c) {
	unsigned nt = 1 + g.weighted({1, 4, 4, 2, 1, 1}), phases = 1 + g.below(6); bool interrupt = g.chance(1, 3); unsigned iy = draw_yields(g);
	std::vector<std::vector<unsigned>> ys(nt); for (auto &v : ys) for (unsigned p = 0; p < phases; p++) v.push_back(draw_yields(g));
	unsigned fewer = interrupt ? g.below(nt + 1) : 0; // threads that stop early: only the interruption can release the others
	std::vector<unsigned> stop(nt, phases); for (unsigned i = 0; i < fewer; i++) stop[i] = g.below(phases + 1);
	std::string desc = pbt::fmt("barrier for %u threads, %u phases%s", nt, phases, interrupt ? ", interrupted" : "");
	viols.clear(); std::vector<std::atomic<unsigned>> arrived(phases), left(phases); for (auto &x : arrived) x = 0; for (auto &x : left) x = 0;
	std::atomic<int> intr{0}; std::atomic<int> badphase{-1};
	Run run(g, c, desc);
	{
		Sync::Barrier *b = Sync::make_barrier(nt);
		std::vector<std::thread> th;
		for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
			for (unsigned p = 0; p < stop[t]; p++) {
				wyields(ys[t][p]);
				arrived[p]++; Sync::arrive(b);
				if (arrived[p] != nt && intr.load() == 0) badphase = p;
				left[p]++;
			}
		});
		if (interrupt) { wyields(iy); intr = 1; Sync::interrupt(b); if (g.chance(1, 2)) { Sync::arrive(b); Sync::arrive(b); } }
		for (auto &x : th) x.join();
		Sync::destroy(b);
	}
	run.finish();
	if (badphase >= 0) c.fail("a thread left phase %d of the barrier before all %u threads had arrived; %s", (int)badphase, nt, desc.c_str());
	if (!interrupt) for (unsigned p = 0; p < phases; p++) if (left[p] != nt) c.fail("phase %u was left by %u of %u threads; %s", p, (unsigned)left[p], nt, desc.c_str());
	settle(c, desc); c.label(interrupt ? "barrier interrupted" : "barrier");
	if (nt >= 2) { c.nontrivial(pbt::mix(run.hash(), pbt::hash_bytes(desc.data(), desc.size()))); if (c.want_sample()) c.sample(desc); }
}
static void latch_case(Gen &g, Ctx &c) {
	unsigned n = g.below(5), waiters = 1 + g.below(4); std::vector<unsigned> yd(n), yw(waiters); for (auto &x : yd) x = draw_yields(g); for (auto &x : yw) x = draw_yields(g);
	unsigned per = 1 + g.below(2);
	std::string desc = pbt::fmt("latch of %u counted down by %u threads, %u waiters", n * per, n, waiters);
	viols.clear(); std::atomic<unsigned> down{0}, released{0}; std::atomic<int> early{0};
	Run run(g, c, desc);
	{
		Sync::Latch *l = Sync::make_latch(n * per);
		std::vector<std::thread> th;
		for (unsigned i = 0; i < n; i++) th.emplace_back([&, i] { for (unsigned q = 0; q < per; q++) { wyields(yd[i]); down++; Sync::count_down(l); } });
		for (unsigned i = 0; i < waiters; i++) th.emplace_back([&, i] { wyields(yw[i]); Sync::wait(l); if (down != n * per) early = 1; released++; });
		for (auto &x : th) x.join();
		Sync::wait(l); // late waiter
		Sync::destroy(l);
	}
	run.finish();
	if (early) c.fail("a waiter was released before the latch reached zero; %s", desc.c_str());
	settle(c, desc); c.label("latch");
	if (n && waiters) { c.nontrivial(pbt::mix(run.hash(), pbt::hash_bytes(desc.data(), desc.size()))); if (c.want_sample()) c.sample(desc); }
}

static void c13(Gen &g, Ctx &c) { pipeline(g, c); }
static void c14(Gen &g, Ctx &c) { if (g.chance(1, 40)) sparse_comp(g, c, "C14", 0); else comp_history(g, c, "C14"); }
static const size_t BEYOND = ((size_t)1 << 32) / BLOCK_SIZE + 3; // blocks
static void c14_fixed(uint64_t i, Ctx &c) { Gen g(c.slot, pbt::mix(14, i)); sparse_comp(g, c, "C14", i ? BEYOND / 2 : BEYOND); }
static void c15_fixed(uint64_t i, Ctx &c) { Gen g(c.slot, pbt::mix(15, i)); sparse_comp(g, c, "C15", i & 1 ? BEYOND / 2 : BEYOND); }
static void c16_fixed(uint64_t i, Ctx &c) { Gen g(c.slot, pbt::mix(16, i)); sparse_decomp(g, c); }
static void c15(Gen &g, Ctx &c) { if (g.chance(1, 40)) sparse_comp(g, c, "C15", 0); else comp_history(g, c, "C15"); }
static void c16(Gen &g, Ctx &c) { if (g.chance(1, 40)) many_decomp(g, c); else decomp_history(g, c, "C16"); }
static void c17(Gen &g, Ctx &c) { if (g.chance(1, 2)) comp_history(g, c, "C17"); else decomp_history(g, c, "C17"); }
static void c18(Gen &g, Ctx &c) { if (g.chance(1, 3)) comp_history(g, c, "C18"); else decomp_history(g, c, "C18"); }
static void c25_once(Gen &g, Ctx &c) { leaked = 0; if (g.chance(1, 2)) comp_history(g, c, "C25"); else decomp_history(g, c, "C25"); }
static void c25(Gen &g, Ctx &c) {
	// memory allocated once and kept (a function's static) is not a leak: the same history is repeated twice
	c25_once(g, c);
	for (int i = 0; i < 2 && leaked; i++) { auto t = g.drawn(); Gen h(g.slot(), t.data(), t.size()); c25_once(h, c); }
	if (leaked) c.fail("%s, each time the history is repeated; history: %s", leak_msg.c_str(), last_desc.substr(0, 3000).c_str());
}
static void c19(Gen &g, Ctx &c) { switch (g.below(5)) { case 0: case 1: comp_history(g, c, "C19"); break; case 2: case 3: decomp_history(g, c, "C19"); break; default: pipeline(g, c); } }
static void c33(Gen &g, Ctx &c) {
	static bool q = false; if (!q) { q = true; if (!freopen("/dev/null", "w", stdout)) abort(); } // traces
	if (g.chance(1, 20)) return g.chance(1, 2) ? many_decomp(g, c) : sparse_comp(g, c, "C14", 0);
	switch (g.below(8)) { case 0: return comp_history(g, c, "C14"); case 1: return comp_history(g, c, "C15"); case 2: return decomp_history(g, c, "C16"); case 3: return comp_history(g, c, "C17"); case 4: return decomp_history(g, c, "C17"); case 5: return comp_history(g, c, "C18"); case 6: return decomp_history(g, c, "C18"); default: return pipeline(g, c); }
}
static void c20(Gen &g, Ctx &c) { if (g.chance(2, 3)) barrier_case(g, c); else latch_case(g, c); }
#ifndef USE_VSCHED
static size_t tasks() { size_t n = 0; DIR *d = opendir("/proc/self/task"); if (!d) return 0; while (auto e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
// tables whose required alignment does not divide the chunk size, between working streams
static void c38(Gen &g, Ctx &c) {
	std::ostringstream log, dbg; auto el = [&]() -> std::ostream & { return log; }; auto dl = [&]() -> std::ostream & { return dbg; }; std::string hist; unsigned refused = 0;
	for (unsigned s = 0, steps = 2 + g.below(3); s < steps; s++) {
		unsigned nt = 1 + g.below(6); bool comp = g.chance(1, 2), good = s + 1 == steps || g.chance(1, 4); lib842_implementation im = *get_optsw842_implementation();
		if (good) { im.required_alignment = (size_t)1 << g.below(17); im.preferred_alignment = im.required_alignment << g.below(4); }
		else { do im.required_alignment = g.chance(1, 2) ? (size_t)1 << (17 + g.below(20)) : 3 + g.below(200000); while (65536 % im.required_alignment == 0); im.preferred_alignment = g.chance(1, 2) ? im.required_alignment : 64; }
		hist += pbt::fmt("%s%s stream with %u threads, alignment %zu", s ? "; " : "", comp ? "compression" : "decompression", nt, im.required_alignment);
		log.str(""); size_t before = tasks(); bool refusal = false; std::string what;
		try {
			bool fin = false, ok = false; std::mutex m; std::condition_variable cv; auto done = [&](bool r) { std::lock_guard<std::mutex> l(m); fin = true; ok = r; cv.notify_all(); };
			auto run = [&](auto &st, auto start) { if (!good) return; start(st); st.finalize(false, done); std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return fin; }); if (!ok) c.fail("%s: a stream that was accepted does not work", hist.c_str()); };
			if (comp) { DataCompressionStream st(im, nt, thread_policy::use_defaults, el, dl); run(st, [&](auto &x) { x.start(nullptr, 0, [](Block &&) {}); }); }
			else { DataDecompressionStream st(im, nt, thread_policy::use_defaults, el, dl); run(st, [&](auto &x) { static uint8_t dst[8]; x.start(dst); }); }
		} catch (const std::runtime_error &x) { refusal = true; what = x.what(); }
		catch (const std::exception &x) { c.fail("%s: reported as another exception: %s", hist.c_str(), x.what()); }
		if (refusal == good) c.fail(good ? "%s: refused (%s)" : "%s: accepted%s", hist.c_str(), what.c_str());
		if (!good) { if (log.str().empty()) c.fail("%s: refused, but nothing was logged", hist.c_str()); for (unsigned i = 0; tasks() > before && i < 200; i++) usleep(1000); if (tasks() > before) c.fail("%s: refused, but threads are left over", hist.c_str()); refused++; }
	}
	c.label("stream construction"); if (refused) { c.nontrivial(pbt::hash_bytes(hist.data(), hist.size())); if (c.want_sample()) c.sample(hist); }
}
#endif
static struct Init { Init() {
	using pbt::add;
	add({"C13", c13, 4000, 200000, "pipelines moving at least two blocks (counted once per distinct history and schedule)", 0, nullptr, true, 120});
	add({"C14", c14, 4000, 200000, "at least two blocks and two threads (counted once per distinct history and schedule)", 2, c14_fixed, true, 120});
	add({"C15", c15, 4000, 200000, "data crossing an epoch boundary, at least two threads (counted once per distinct history and schedule)", 8, c15_fixed, true, 120});
	add({"C16", c16, 4000, 200000, "at least two pushed blocks and two threads (counted once per distinct history and schedule)", 4, c16_fixed, true, 120});
	add({"C17", c17, 4000, 200000, "at least two threads (counted once per distinct history and schedule)", 0, nullptr, true, 120});
	add({"C18", c18, 4000, 200000, "a chunk failed, at least two threads (counted once per distinct history and schedule)", 0, nullptr, true, 120});
	add({"C19", c19, 1000, 60000, "at least two threads in one stream, or a pipeline", 0, nullptr, true, 300});
	add({"C33", c33, 1500, 40000, "the non-trivial cases of the underlying property, with tracing built in", 0, nullptr, true, 120});
	add({"C20", c20, 8000, 400000, "at least two threads (counted once per distinct history and schedule)", 0, nullptr, true, 120});
#ifndef USE_VSCHED
	add({"C38", c38, 2000, 100000, "at least one table that has to be refused", 0, nullptr, false, 120});
#endif
	add({"C25", c25, 4000, 200000, "at least two threads (counted once per distinct history and schedule)", 0, nullptr, true, 120});
} } init_;
