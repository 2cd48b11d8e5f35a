// C35: allocations and thread creations that fail. The allocation interposer refuses chosen allocations, pthread_create
// refuses chosen threads; the codecs and streams must report an error, release everything and keep working afterwards.
#include "common.hpp"
#include "memtrack.hpp"
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <chrono>
#include <condition_variable>
#include <dirent.h>
#include <dlfcn.h>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sstream>
using namespace lib842::stream;

// ---- refused threads --------------------------------------------------------------------------------------------
static std::atomic<long> thr_after{-1}; // threads that may still be created; -1: all
static std::atomic<unsigned> thr_refused{0};
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
	static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
	if (thr_after >= 0) { if (thr_after == 0) { thr_refused++; return EAGAIN; } thr_after--; }
	return real(t, a, f, arg);
}
static unsigned nthreads() { DIR *d = opendir("/proc/self/task"); unsigned n = 0; if (!d) return 0; while (readdir(d)) n++; closedir(d); return n - 2; }
struct Exempt { Exempt() { mem::ignore(1); } ~Exempt() { mem::ignore(-1); } };

// ---- one codec call ---------------------------------------------------------------------------------------------
struct Res { int ret; std::vector<int> rets; std::vector<size_t> olens; Bytes out; };
struct Call { const Impl *im; bool comp; unsigned entry, chunks; size_t istride, ostride; std::vector<size_t> ilens, caps; Buf *in, *out; };
static Res perform(const Call &k) { // the harness allocates nothing between arming and disarming
	Res r; r.rets.assign(k.chunks, 4711); r.olens = k.caps; memset(k.out->p, 0xA5, k.out->n);
	return r;
}
static int invoke(const Call &k, Res &r) {
	if (k.chunks > 1) {
		auto f = k.entry & 1 ? (k.comp ? k.im->table()->compress_chunked : k.im->table()->decompress_chunked) : k.comp ? k.im->compc : k.im->decompc;
		return f(k.chunks, r.rets.data(), k.in->p, k.istride, k.ilens.data(), k.out->p, k.ostride, r.olens.data());
	}
	return r.rets[0] = k.comp ? call_comp(*k.im, k.entry, k.in->p, k.ilens[0], k.out->p, &r.olens[0]) : call_decomp(*k.im, k.entry, k.in->p, k.ilens[0], k.out->p, &r.olens[0]);
}
static bool chunk_same(const Call &k, const Res &a, const Res &b, unsigned i) {
	return a.rets[i] == b.rets[i] && a.olens[i] == b.olens[i] && (a.rets[i] != 0 || memcmp(&a.out[i * k.ostride], &b.out[i * k.ostride], a.olens[i]) == 0);
}
static void codec_case(Gen &g, Ctx &c, uint64_t exhaustive) {
	Call k; k.im = &IMPLS[g.below(2)]; k.comp = !g.chance(1, 6); k.entry = g.below(4);
	k.chunks = g.chance(1, 4) ? g.range(2, 4) : 1;
	bool opt = k.im->opt, tight = g.chance(1, 5);
	unsigned align = g.chance(1, 4) ? g.below(8) : 0; // unaligned: the optimised functions fall back to the others
	std::vector<Bytes> d; size_t maxi = 8, maxo = 8;
	for (unsigned i = 0; i < k.chunks; i++) {
		Bytes b = gen::data(g, exhaustive ? 96 : g.chance(1, 8) ? 6000 : 400, opt);
		if (!k.comp) { size_t n = b.size(); b = compress_ok(c, IMPLS[0], b); k.caps.push_back(n); }
		else k.caps.push_back(tight ? g.below(b.size() + 17) / (opt ? 8 : 1) * (opt ? 8 : 1) : ample(b.size()));
		k.ilens.push_back(b.size()); maxi = std::max(maxi, (b.size() + 7) & ~(size_t)7); maxo = std::max(maxo, (k.caps[i] + 7) & ~(size_t)7); d.push_back(b);
	}
	k.istride = maxi; k.ostride = maxo;
	Bytes all(k.chunks * k.istride, 0xEE); for (unsigned i = 0; i < k.chunks; i++) if (!d[i].empty()) memcpy(&all[i * k.istride], d[i].data(), d[i].size());
	Buf in(all, align), out(k.chunks * k.ostride, align); k.in = &in; k.out = &out;

	static bool warm = false;
	if (!warm) { warm = true; mem::self_test(); mem::fail_arm(0, 1); void *volatile p = malloc(77); uint64_t n = mem::fail_disarm(); if (p || n != 1) c.fail("harness: allocation failures not in effect"); Res w = perform(k); invoke(k, w); }
	auto run = [&](uint64_t first, uint64_t n, uint64_t &seen, uint64_t &hits, mem::Live &leak) {
		Res r = perform(k);
		mem::track(true); mem::fail_arm(first, n);
		r.ret = invoke(k, r);
		seen = mem::fail_seen(); hits = mem::fail_disarm(); leak = mem::live(); mem::track(false);
		r.out.assign(out.p, out.p + out.n);
		if (!in.intact() || !out.intact() || !in.eq(all)) c.fail("%s: bytes outside the output buffer changed (allocation %llu of the call fails)", k.im->name, (unsigned long long)first);
		return r;
	};
	uint64_t seen, hits; mem::Live leak;
	Res base = run(~0ull, 0, seen, hits, leak);
	uint64_t nalloc = seen;
	const char *op = k.comp ? "compress" : "decompress";
	auto check = [&](uint64_t first, uint64_t n) {
		uint64_t seen2; Res r = run(first, n, seen2, hits, leak);
		std::string what = pbt::fmt("%s_%s%s of %s (%u chunks, %zu bytes of space, align %u): allocation %llu of %llu%s fails", k.im->name, op, k.chunks > 1 ? "_chunked" : "", gen::describe_data(d[0]).c_str(), k.chunks, k.caps[0], align, (unsigned long long)first + 1, (unsigned long long)nalloc, n > 1 ? " and all later ones" : "");
		if (leak.blocks && !mem::overflow) c.fail("%s: %zu allocations (%zu bytes) are never released", what.c_str(), leak.blocks, leak.bytes);
		unsigned bad = 0; int first_err = 0;
		for (unsigned i = 0; i < k.chunks; i++) {
			if (!first_err && r.rets[i] && r.rets[i] != -ENOSPC) first_err = r.rets[i];
			if (chunk_same(k, r, base, i)) continue;
			bad++;
			if (!hits) c.fail("%s: no allocation failed, but chunk %u differs from an earlier identical call (%d/%zu instead of %d/%zu)", what.c_str(), i, r.rets[i], r.olens[i], base.rets[i], base.olens[i]);
			if (r.rets[i] >= 0) c.fail("%s: the call returns %d with %zu bytes, not the bytes it produces when no allocation fails", what.c_str(), r.rets[i], r.olens[i]);
			if (r.rets[i] == -ENOSPC) c.fail("%s: reported as lack of output space (ENOSPC)", what.c_str());
			if (k.comp && r.olens[i] != 0) c.fail("%s: error %d, but *olen is %zu, not 0", what.c_str(), r.rets[i], r.olens[i]);
		}
		if (n == 1 && bad > 1) c.fail("%s: %u chunks fail although only one allocation did", what.c_str(), bad);
		if (k.chunks > 1 && r.ret != first_err) c.fail("%s: the call returns %d, the first error of its chunks is %d", what.c_str(), r.ret, first_err);
		if (hits) {
			c.label(k.comp ? (opt ? "optsw compress, refused" : "sw compress, refused") : "decompress, refused"); if (!bad) c.label("refused allocation tolerated");
			c.nontrivial(pbt::mix(pbt::hash_bytes(all.data(), all.size()), first * 4 + (n > 1) * 2 + opt));
			if (c.want_sample()) c.sample(what + pbt::fmt(" -> %d", r.rets[0]));
		}
	};
	if (!nalloc) { c.label("no allocation at all"); check(~0ull, 0); return; }
	if (exhaustive) { for (uint64_t f = 0; f < nalloc && f < 400; f++) { check(f, 1); if (f % 3 == 0) check(f, ~0ull); } }
	else {
		unsigned n = g.range(1, 4);
		for (unsigned i = 0; i < n; i++) { uint64_t f = g.chance(1, 2) ? g.below(nalloc) : g.chance(1, 2) ? nalloc - 1 - g.below(std::min<uint64_t>(nalloc, 8)) : g.below(std::min<uint64_t>(nalloc, 40)); check(f, g.chance(1, 3) ? ~0ull : 1); }
	}
	check(~0ull, 0); // and without failures everything is as before
}

// ---- streams ----------------------------------------------------------------------------------------------------
static std::ostream &nulllog() { static std::ostringstream s; static std::ostream n(nullptr); return n; }
struct Fin {
	std::mutex m; std::condition_variable cv; unsigned calls = 0; bool ok = false;
	void set(bool r) { std::lock_guard<std::mutex> l(m); calls++; ok = r; cv.notify_all(); }
	bool wait() { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::seconds(40), [&] { return calls > 0; }); }
};
// constructing a stream while threads or allocations are refused
template <class S, class F> static void construct_case(Gen &g, Ctx &c, const char *name, F make) {
	unsigned n = g.range(1, 8); bool thr = g.chance(1, 2); long after = thr ? g.below(n + 1) : -1;
	uint64_t k = g.below(3 * n + 4), len = g.chance(1, 4) ? ~0ull : 1;
	{ auto w = make(n); } // warm up
	{ Exempt e; mem::track(false); }
	unsigned before = nthreads(); bool threw = false; std::string what; unsigned refused = 0; uint64_t hits = 0;
	thr_refused = 0;
	{
		S *s = nullptr;
		mem::track(true);
		thr_after = after; if (!thr) mem::fail_arm(k, len);
		try { s = make(n); } catch (const std::exception &e) { mem::fail_disarm(); threw = true; }
		hits = mem::fail_disarm(); thr_after = -1; refused = thr_refused;
		delete s;
	}
	std::string desc = pbt::fmt("%s with %u threads, %s", name, n, thr ? pbt::fmt("creation of thread %ld refused", after + 1).c_str() : pbt::fmt("allocation %llu%s refused", (unsigned long long)k + 1, len > 1 ? " and later ones" : "").c_str());
	mem::Live l = mem::live(); mem::track(false);
	for (int i = 0; i < 2000 && nthreads() > before; i++) usleep(1000); // the kernel removes a joined thread a little later
	if (nthreads() > before) c.fail("%s: %u threads are left", desc.c_str(), nthreads() - before);
	(void)l; // thread stacks keep thread-local storage alive: see leak_case
	if (threw && !hits && !refused) c.fail("%s: the constructor throws although nothing was refused", desc.c_str());
	if (refused && !threw) c.fail("%s: the constructor returns although not all threads exist", desc.c_str());
	if (hits || refused) { c.label(thr ? "constructor, thread refused" : "constructor, allocation refused"); c.nontrivial(pbt::mix(pbt::mix(n, thr ? after : k + 1000), len + (name[4] == 'C'))); if (c.want_sample()) c.sample(desc + (threw ? " -> exception" : " -> succeeds")); }
}
static const lib842_implementation *stream_impl() { static lib842_implementation i = *get_optsw842_implementation(); return &i; }
static DataCompressionStream *mk_c(unsigned n) { return new DataCompressionStream(*stream_impl(), n, thread_policy::use_defaults, nulllog, nulllog); }
static DataDecompressionStream *mk_d(unsigned n) { return new DataDecompressionStream(*stream_impl(), n, thread_policy::use_defaults, nulllog, nulllog); }

static Bytes stream_data(Gen &g, unsigned nblocks) { // 16 chunks per block, cheap to compress, mixed kinds
	Bytes b(nblocks * BLOCK_SIZE); uint64_t s = g.seed(); unsigned kind = g.below(3);
	for (size_t q = 0; q < b.size() / CHUNK_SIZE; q++) {
		Rng r(pbt::mix(s, q)); uint8_t *p = &b[q * CHUNK_SIZE]; bool raw = kind == 1 || (kind == 2 && r.chance(1, 2));
		if (raw) for (size_t i = 0; i < CHUNK_SIZE; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); }
		else { uint64_t w[4]; for (auto &x : w) x = r.next(); for (size_t i = 0; i < CHUNK_SIZE; i += 8) memcpy(p + i, &w[(i >> 8) % 4], 8); }
	}
	return b;
}
struct Got { std::mutex m; std::vector<Block> v; unsigned errs = 0; };
static void compress_op(Ctx &c, DataCompressionStream &s, const Bytes &d, Got &got, Fin &f, uint64_t k, uint64_t n, bool cancel, uint64_t &hits, unsigned &threw) {
	std::function<void(Block &&)> cb = [&got](Block &&b) { Exempt e; std::lock_guard<std::mutex> l(got.m); if (b.offset == SIZE_MAX) got.errs++; else got.v.push_back(std::move(b)); };
	std::function<void(bool)> fin = [&f](bool ok) { Exempt e; f.set(ok); };
	mem::fail_arm(k, n);
	try { s.start(d.data(), d.size(), std::move(cb)); s.finalize(cancel, std::move(fin)); } catch (const std::bad_alloc &) { threw = 1; }
	bool done = threw || f.wait();
	hits = mem::fail_disarm();
	if (!done) c.fail("compression stream: the operation is never finalized (allocation %llu refused)", (unsigned long long)k + 1);
}
static void comp_case(Gen &g, Ctx &c) {
	unsigned nt = g.range(1, 4), nb = g.range(1, 5), nops = g.range(1, 3);
	std::unique_ptr<DataCompressionStream> s(mk_c(nt)); s->wait_until_ready();
	if (g.chance(1, 3)) s->set_offset_sync_epoch_multiple(BLOCK_SIZE << g.below(2));
	unsigned refused_ops = 0;
	for (unsigned o = 0; o <= nops; o++) {
		bool inject = o < nops, cancel = inject && g.chance(1, 6); Bytes d = stream_data(g, nb);
		uint64_t k = inject ? g.below(nb * 6) : ~0ull, n = inject ? g.pick<uint64_t>({1, 2, ~0ull}) : 0; // one block: its buffer, then two allocations per chunk
		if (inject && g.chance(1, 2)) k = g.below(nb * 34);
		Got got; Fin f; uint64_t hits; unsigned threw = 0;
		compress_op(c, *s, d, got, f, k, n, cancel, hits, threw);
		if (threw) c.fail("compression stream: start or finalize throws");
		if (f.calls != 1) c.fail("compression stream: finalization callback invoked %u times", f.calls);
		if (!hits && !f.ok && !cancel) c.fail("compression stream, operation %u: failure reported although nothing was refused%s", o, o ? " (an earlier operation ran out of memory)" : "");
		if (!hits && got.errs) c.fail("compression stream, operation %u: error block although nothing was refused", o);
		std::lock_guard<std::mutex> l(got.m); std::vector<unsigned> seen(nb);
		for (auto &b : got.v) {
			if (b.offset % BLOCK_SIZE || b.offset >= d.size() || seen[b.offset / BLOCK_SIZE]++) c.fail("compression stream: unexpected block at offset %zu", b.offset);
			for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK; q++) {
				const uint8_t *src = d.data() + b.offset + q * CHUNK_SIZE;
				if (b.sizes[q] == CHUNK_SIZE) { if (b.get_chunk(q) != src) c.fail("compression stream: raw chunk %u at %zu does not point into the source", q, b.offset); continue; }
				static std::vector<uint8_t> tmp(CHUNK_SIZE); size_t ol = CHUNK_SIZE;
				if (b.sizes[q] > COMPRESSIBLE_THRESHOLD || optsw842_decompress(b.get_chunk(q), b.sizes[q], tmp.data(), &ol) || ol != CHUNK_SIZE || memcmp(tmp.data(), src, CHUNK_SIZE))
					c.fail("compression stream, operation %u (allocation %llu refused, %llu hits): chunk %u of the block at %zu does not hold the source data", o, (unsigned long long)k + 1, (unsigned long long)hits, q, b.offset);
			}
		}
		if (f.ok && !cancel && got.v.size() != nb) c.fail("compression stream, operation %u (allocation %llu refused, %llu hits): success reported, but only %zu of %u blocks were delivered", o, (unsigned long long)k + 1, (unsigned long long)hits, got.v.size(), nb);
		if (hits) { refused_ops++; c.label(f.ok ? "compression operation, refusal tolerated" : "compression operation fails"); c.nontrivial(pbt::mix(pbt::mix(k, nb * 16 + nt), pbt::hash_bytes(d.data(), 512))); if (c.want_sample()) c.sample(pbt::fmt("compression stream, %u threads, %u blocks: allocation %llu refused -> success=%d, %zu blocks", nt, nb, (unsigned long long)k + 1, f.ok, got.v.size())); }
	}
}
static void decomp_case(Gen &g, Ctx &c) {
	unsigned nt = g.range(1, 4), nb = g.range(1, 5), nops = g.range(1, 3);
	std::unique_ptr<DataDecompressionStream> s(mk_d(nt)); s->wait_until_ready();
	for (unsigned o = 0; o <= nops; o++) {
		bool inject = o < nops, cancel = inject && g.chance(1, 4); Bytes d = stream_data(g, nb), dst(d.size(), 0x5A);
		int damaged = inject && g.chance(1, 2) ? (int)g.below(nb) : -1;
		std::vector<Block> bl; {
			std::unique_ptr<DataCompressionStream> cs(mk_c(2)); Got got; Fin f; uint64_t h; unsigned t = 0; compress_op(c, *cs, d, got, f, ~0ull, 0, false, h, t); cs.reset();
			if (!f.ok) c.fail("compression stream fails although nothing was refused"); bl = std::move(got.v);
		}
		for (auto &b : bl) if ((int)(b.offset / BLOCK_SIZE) == damaged) { bool done = false; for (unsigned q = 0; q < NUM_CHUNKS_PER_BLOCK && !done; q++) if (b.sizes[q] < CHUNK_SIZE) { memset((void *)b.get_chunk(q), 0xff, 8); done = true; } if (!done) damaged = -1; }
		uint64_t k = inject ? g.below(12) : ~0ull, n = inject ? g.pick<uint64_t>({1, 2, ~0ull}) : 0, hits; Fin f; unsigned threw = 0, rejected = 0;
		std::function<void(bool)> fin = [&f](bool ok) { Exempt e; f.set(ok); };
		mem::fail_arm(k, n);
		s->start(dst.data());
		for (auto &b : bl) { try { if (!s->push_block(std::move(b))) { rejected++; break; } } catch (const std::bad_alloc &) { threw++; break; } }
		if (threw) cancel = true;
		bool fthrew = false;
		try { s->finalize(cancel, std::move(fin)); } catch (const std::bad_alloc &) { fthrew = true; }
		if (fthrew) c.fail("decompression stream: finalize(%d) throws", cancel);
		bool done = f.wait(); hits = mem::fail_disarm();
		std::string what = pbt::fmt("decompression stream, operation %u (%u threads, %u blocks, allocation %llu refused, %llu hits, %s%s)", o, nt, nb, (unsigned long long)k + 1, (unsigned long long)hits, cancel ? "cancelled" : "not cancelled", damaged >= 0 ? ", damaged block" : "");
		if (!done) c.fail("%s: never finalized", what.c_str());
		if (f.calls != 1) c.fail("%s: finalization callback invoked %u times", what.c_str(), f.calls);
		if (!hits && threw) c.fail("%s: push_block throws", what.c_str());
		if (damaged < 0 && !hits && (rejected || !f.ok)) c.fail("%s: failure reported although nothing was refused and nothing is damaged", what.c_str());
		if (f.ok && !cancel && damaged >= 0) c.fail("%s: success reported", what.c_str());
		if (f.ok && !cancel && memcmp(d.data(), dst.data(), d.size())) c.fail("%s: success reported, but the data is wrong", what.c_str());
		if (hits) { c.label(threw ? "push_block throws" : "decompression operation, refused"); c.nontrivial(pbt::mix(pbt::mix(k, nb * 16 + nt), pbt::hash_bytes(d.data(), 512))); if (c.want_sample()) c.sample(what + pbt::fmt(" -> success=%d", f.ok)); }
	}
}
static void c35(Gen &g, Ctx &c) {
	mem::set_fill(g.chance(1, 2) ? mem::RANDOM : mem::NONE, 0xf111);
	switch (g.weighted({20, 3, 3, 3, 3})) {
	case 0: codec_case(g, c, 0); break;
	case 1: construct_case<DataCompressionStream>(g, c, "DataCompressionStream", mk_c); break;
	case 2: construct_case<DataDecompressionStream>(g, c, "DataDecompressionStream", mk_d); break;
	case 3: comp_case(g, c); break;
	default: decomp_case(g, c);
	}
}
static void c35_fixed(uint64_t i, Ctx &c) { Gen g(c.slot, 0xc35000 + i); codec_case(g, c, 1); }
static struct Init { Init() {
	pbt::add({"C35", c35, 12000, 600000, "the call or operation met at least one refused allocation or thread", 120, c35_fixed, true, 120});
} } init_;
