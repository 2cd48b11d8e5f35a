// C11 (purity) and the codec part of C25 (leaks). Built without sanitizers, with the allocation interposer.
#include "common.hpp"
#include "memtrack.hpp"
#include <memory>
#include <thread>
#include <sys/wait.h>

struct Call {
	bool comp; unsigned im, entry; Bytes in; size_t cap; unsigned ia, oa;
	std::string str() const { return pbt::fmt("%s %s entry %u, %zu input bytes, capacity %zu, align %u/%u", IMPLS[im].name, comp ? "compress" : "decompress", entry, in.size(), cap, ia, oa); }
};
struct Res { int ret; size_t olen; Bytes out; bool operator==(const Res &o) const { return ret == o.ret && olen == o.olen && out == o.out; } };

// Input in its own pages, read-only, ending right before an inaccessible page (shifted down by `down` bytes for the alignment wanted).
struct RoInput {
	uint8_t *map; size_t len; uint8_t *p;
	RoInput(const Bytes &b, unsigned align) {
		size_t pg = 4096, n = (b.size() + 16 + pg - 1) / pg * pg + pg;
		map = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (map == MAP_FAILED) abort();
		len = n; uint8_t *end = map + n - pg; p = end - b.size(); while (((uintptr_t)p & 7) != align) p--;
		memset(map, 0xEE, n - pg); if (!b.empty()) memcpy(p, b.data(), b.size());
		mprotect(map, n - pg, PROT_READ); mprotect(end, pg, PROT_NONE);
	}
	~RoInput() { munmap(map, len); }
};

static Res perform(const Call &k, const uint8_t *in, uint8_t *out) {
	size_t ol = k.cap;
	int r = k.comp ? call_comp(IMPLS[k.im], k.entry, in, k.in.size(), out, &ol) : call_decomp(IMPLS[k.im], k.entry, in, k.in.size(), out, &ol);
	Res x{r, ol, {}};
	if (r == 0 && ol <= k.cap) x.out.assign(out, out + ol);
	return x;
}
static std::string diff(const Res &a, const Res &b) {
	if (a.ret != b.ret) return pbt::fmt("returns %d instead of %d", a.ret, b.ret);
	if (a.olen != b.olen) return pbt::fmt("length %zu instead of %zu (ret %d)", a.olen, b.olen, a.ret);
	size_t i = 0; while (a.out[i] == b.out[i]) i++;
	return pbt::fmt("output byte %zu is %02x instead of %02x", i, a.out[i], b.out[i]);
}

// A process that never called the library serves "the call made alone": it forks for every request.
struct Zygote {
	int to = -1, from = -1; uint8_t *shm = nullptr; static constexpr size_t IN = 1 << 20, OUT = 3 << 20;
	pid_t owner = 0;
	struct Hdr { int comp; unsigned im, entry, ia, oa; size_t n, cap; int ret; size_t olen; int status; };
	void start() {
		if (owner == getpid()) return;
		owner = getpid();
		shm = (uint8_t *)mmap(nullptr, 4096 + IN + OUT + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (shm == MAP_FAILED) abort();
		int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
		pid_t p = fork(); if (p < 0) abort();
		if (p == 0) {
			close(a[1]); close(b[0]);
			char ch;
			while (read(a[0], &ch, 1) == 1) {
				Hdr *h = (Hdr *)shm;
				pid_t q = fork();
				if (q == 0) {
					Call k; k.comp = h->comp; k.im = h->im; k.entry = h->entry; k.cap = h->cap; k.in.assign(shm + 4096, shm + 4096 + h->n);
					size_t ol = h->cap; uint8_t *in = shm + 4096 + h->ia; memmove(in, k.in.data(), h->n);
					uint8_t *out = shm + 4096 + IN + h->oa;
					h->ret = k.comp ? call_comp(IMPLS[k.im], k.entry, in, h->n, out, &ol) : call_decomp(IMPLS[k.im], k.entry, in, h->n, out, &ol);
					h->olen = ol; _exit(0);
				}
				int st = -1; if (q < 0 || waitpid(q, &st, 0) < 0) st = -1;
				h->status = st;
				if (write(b[1], &ch, 1) != 1) break;
			}
			_exit(0);
		}
		close(a[0]); close(b[1]); to = a[1]; from = b[0];
	}
	Res run(Ctx &c, const Call &k) {
		Hdr *h = (Hdr *)shm; *h = {k.comp, k.im, k.entry, k.ia, k.oa, k.in.size(), k.cap, 0, 0, 0};
		memcpy(shm + 4096, k.in.data(), k.in.size());
		char ch = 'x'; if (write(to, &ch, 1) != 1 || read(from, &ch, 1) != 1) { fprintf(stderr, "zygote lost\n"); abort(); }
		if (h->status != 0) c.fail("the call made alone in a fresh process died with status %x: %s", h->status, k.str().c_str());
		Res r{h->ret, h->olen, {}};
		uint8_t *out = shm + 4096 + IN + k.oa;
		if (r.ret == 0 && r.olen <= k.cap) r.out.assign(out, out + r.olen);
		return r;
	}
};
static Zygote zyg;

// Related inputs: they share words, so that state leaking from one call into another matters.
static std::vector<Bytes> related_data(Gen &g, unsigned n, size_t max) {
	std::vector<Bytes> v;
	for (unsigned i = 0; i < n; i++) {
		if (v.empty() || g.chance(1, 3)) { v.push_back(gen::data(g, max, false)); continue; }
		Bytes b = g.pickv(v); Rng r(g.seed());
		switch (g.below(5)) {
		case 0: if (b.size() > 16) b.resize(8 + r.below(b.size() - 8)); break;                                        // prefix
		case 1: if (b.size() > 16) b.erase(b.begin(), b.begin() + r.below(b.size() / 8) * 8); break;                     // suffix
		case 2: { size_t w = b.size() / 8; for (size_t k = 0; k + 1 < w; k++) { size_t q = k + r.below(w - k); for (int x = 0; x < 8; x++) std::swap(b[k * 8 + x], b[q * 8 + x]); } break; } // words permuted
		case 3: for (size_t k = 0; k < b.size() / 16 + 1 && !b.empty(); k++) b[r.below(b.size())] ^= 1 << r.below(8); break;
		default: break; // identical
		}
		v.push_back(b);
	}
	return v;
}
static std::vector<Call> make_pool(Gen &g, Ctx &c, unsigned n, size_t max) {
	std::vector<Call> pool; auto data = related_data(g, n, max);
	for (unsigned i = 0; i < n; i++) {
		Call k; k.im = g.below(2); k.comp = g.chance(1, 2); k.entry = g.below(4);
		k.ia = g.chance(1, 5) ? g.below(8) : 0; k.oa = g.chance(1, 5) ? g.below(8) : 0;
		unsigned fate = g.weighted({4, 2, 2}); // fine / too little room / malformed or odd length
		if (k.comp) {
			k.in = data[i]; if (IMPLS[k.im].opt && fate != 2) k.in.resize(k.in.size() / 8 * 8);
			k.cap = ample(k.in.size()); if (fate == 1) k.cap = g.below(k.in.size() + 1);
		} else {
			gen::Stream s; Bytes src = data[i]; src.resize(src.size() / 8 * 8);
			if (g.chance(1, 2)) { s = gen::stream(g, 4000, !IMPLS[k.im].opt && g.chance(1, 3)); k.in = s.encode(true); k.cap = s.out.size(); }
			else { // literal stream of the data
				std::vector<ref::Token> t; for (size_t q = 0; q < src.size(); q += 8) { ref::Token x; x.op = 0; x.v = {ref::rd(&src[q], 8)}; t.push_back(x); }
				k.in = ref::encode(t, ref::crc32_fast(src.data(), src.size())); k.cap = src.size();
			}
			if (fate == 1) k.cap = g.below(k.cap + 1);
			if (fate == 2 && !k.in.empty()) { Rng r(g.seed()); for (unsigned q = 0; q < 1 + r.below(3); q++) k.in[r.below(k.in.size())] ^= 1 << r.below(8); }
			k.cap += g.pick({0, 0, 0, 8, 100});
		}
		pool.push_back(std::move(k));
	}
	return pool;
}
static uint64_t pool_hash(const std::vector<Call> &p) { uint64_t h = 1; for (auto &k : p) h = pbt::hash_bytes(k.in.data(), k.in.size(), h ^ (k.cap * 64 + k.im * 32 + k.comp * 16 + k.entry)); return h; }

static void c11(Gen &g, Ctx &c) {
	zyg.start();
	unsigned np = 1 + g.below(5);
	auto pool = make_pool(g, c, np, 6000);
	std::vector<Res> want;
	for (auto &k : pool) want.push_back(zyg.run(c, k));
	unsigned mode = g.weighted({5, 3}); // sequential history / threads
	if (mode == 0) {
		unsigned len = 2 + g.below(10);
		std::string hist;
		for (unsigned i = 0; i < len; i++) {
			unsigned q = g.below(np); const Call &k = pool[q];
			unsigned f = g.below(5); uint64_t fs = g.seed();
			unsigned pre = g.pick({0, 0xff, 0x5a, 0x80}); bool freshbuf = g.chance(3, 4);
			RoInput in(k.in, k.ia);
			Buf out(k.cap, k.oa, pre); if (!freshbuf) { Rng r(fs ^ 5); for (size_t x = 0; x < out.n; x++) out.p[x] = r.next(); }
			mem::set_fill(f == 0 ? mem::NONE : f == 1 ? mem::BYTE : f == 2 ? mem::SMALL16 : mem::RANDOM, f == 1 ? (fs & 1 ? 0 : 0xff) : fs);
			Res r = perform(k, in.p, out.p);
			mem::set_fill(mem::NONE, 0);
			hist += pbt::fmt("%u ", q);
			if (!(r == want[q])) c.fail("call %u of the history [%s] (%s; heap fill %u) %s, compared with the same call made alone in a fresh process", i, hist.c_str(), k.str().c_str(), f, diff(r, want[q]).c_str());
			if (!out.intact()) c.fail("call %u (%s) wrote outside its buffer", i, k.str().c_str());
			if (memcmp(in.p, k.in.data(), k.in.size())) c.fail("input modified"); // cannot happen: read-only pages
		}
		c.label("sequential history", 1); c.label("calls", len);
	} else {
		unsigned nt = 2 + g.below(3), per = 1 + g.below(4);
		std::vector<std::vector<unsigned>> plan(nt); for (auto &p : plan) for (unsigned i = 0; i < per; i++) p.push_back(g.below(np));
		std::vector<std::unique_ptr<RoInput>> ins; for (auto &k : pool) ins.emplace_back(new RoInput(k.in, k.ia));
		uint64_t fs = g.seed(); unsigned f = g.below(3);
		std::vector<std::string> err(nt); std::atomic<unsigned> ready{0};
		mem::set_fill(f == 0 ? mem::NONE : f == 1 ? mem::SMALL16 : mem::RANDOM, fs);
		std::vector<std::thread> th;
		for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
			ready++; while (ready < nt) ;
			for (unsigned rep = 0; rep < 3 && err[t].empty(); rep++) for (unsigned q : plan[t]) {
				Buf out(pool[q].cap, pool[q].oa, t);
				Res r = perform(pool[q], ins[q]->p, out.p);
				if (!(r == want[q])) { err[t] = pbt::fmt("thread %u of %u: %s %s, compared with the same call made alone", t, nt, pool[q].str().c_str(), diff(r, want[q]).c_str()); break; }
				if (!out.intact()) { err[t] = "wrote outside its buffer"; break; }
			}
		});
		for (auto &x : th) x.join();
		mem::set_fill(mem::NONE, 0);
		for (auto &e : err) if (!e.empty()) c.fail("%s", e.c_str());
		c.label("concurrent", 1); c.label("calls", nt * per * 3);
	}
	unsigned ok = 0, bad = 0; for (auto &r : want) (r.ret == 0 ? ok : bad)++;
	c.label("pool: succeeding call", ok); c.label("pool: failing call", bad);
	if (ok && pool.size() >= 2) { c.nontrivial(pool_hash(pool) ^ mode); if (c.want_sample()) { std::string s = mode ? "threads: " : "history over: "; for (auto &k : pool) s += k.str() + "; "; c.sample(s.substr(0, 800)); } }
}

// C25, codec part: after a warm-up run of the very same calls, two more runs must both return all memory.
static void c25(Gen &g, Ctx &c) {
	static bool tested = false; if (!tested) { mem::self_test(); tested = true; }
	unsigned np = 1 + g.below(4);
	auto pool = make_pool(g, c, np, 20000);
	bool chunked = g.chance(1, 3);
	std::vector<std::unique_ptr<Buf>> in, out; for (auto &k : pool) { in.emplace_back(new Buf(k.in, k.ia)); out.emplace_back(new Buf(k.cap, k.oa)); }
	// chunked: all chunks of one direction and implementation in one call, strided
	size_t is = 0, os = 0; for (auto &k : pool) { is = std::max(is, (k.in.size() + 7) / 8 * 8); os = std::max(os, (k.cap + 7) / 8 * 8); }
	Buf cin(is * np), cout(os * np); for (unsigned i = 0; i < np; i++) if (!pool[i].in.empty()) memcpy(cin.p + i * is, pool[i].in.data(), pool[i].in.size());
	std::vector<size_t> il(np), ol(np); std::vector<int> rets(np);
	unsigned fails = 0, oks = 0; mem::Live leak[3]; size_t sizes[8] = {0};
	for (unsigned run = 0; run < 3; run++) {
		mem::track(true);
		if (chunked) {
			const Impl &im = IMPLS[pool[0].im];
			for (unsigned i = 0; i < np; i++) { il[i] = pool[i].in.size(); ol[i] = pool[i].cap; rets[i] = 0; }
			if (pool[0].comp) im.compc(np, rets.data(), cin.p, is, il.data(), cout.p, os, ol.data());
			else im.decompc(np, rets.data(), cin.p, is, il.data(), cout.p, os, ol.data());
			for (int r : rets) (r ? fails : oks)++;
		} else for (unsigned i = 0; i < np; i++) {
			size_t n = pool[i].cap;
			int r = pool[i].comp ? call_comp(IMPLS[pool[i].im], pool[i].entry, in[i]->p, pool[i].in.size(), out[i]->p, &n) : call_decomp(IMPLS[pool[i].im], pool[i].entry, in[i]->p, pool[i].in.size(), out[i]->p, &n);
			(r ? fails : oks)++;
		}
		leak[run] = mem::live(); bool ovf = mem::overflow;
		if (run == 2) mem::live_sizes(sizes, 8);
		mem::track(false);
		if (ovf) { c.label("accounting overflow"); return; }
	}
	if (leak[1].blocks && leak[2].blocks) {
		std::string s; for (auto &k : pool) s += k.str() + "; ";
		c.fail("%zu blocks (%zu bytes) not freed after %s (sizes %zu %zu %zu..): %s", leak[2].blocks, leak[2].bytes, chunked ? "a chunked call" : "the calls", sizes[0], sizes[1], sizes[2], s.substr(0, 900).c_str());
	}
	c.label("failing call", fails / 3); c.label("succeeding call", oks / 3); c.label(chunked ? "chunked" : "single calls");
	c.nontrivial(pool_hash(pool) ^ chunked);
	if (c.want_sample()) { std::string s; for (auto &k : pool) s += k.str() + "; "; c.sample(s.substr(0, 600)); }
}

static struct Init { Init() {
	pbt::add({"C11", c11, 9000, 400000, "at least two different calls, one of which succeeds", 0, nullptr, true, 60});
	pbt::add({"C25", c25, 9000, 400000, "every case (calls whose allocations are balanced)", 0, nullptr, false, 60});
} } init_;
