// C01-C12 (minus the OpenCL half of C02), C31: the software codecs.
#include "common.hpp"
#include "malform.hpp"
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
#include <set>

#ifdef HAVE_ASAN
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=16"; }
static const size_t BIG = 40000;
#else
static const size_t BIG = 3 << 20;
#endif
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }

static const Impl &pick_impl(Gen &g) { return IMPLS[g.below(2)]; }
static void cls_size(Ctx &c, size_t n) { c.label(n == 0 ? "size 0" : n < 8 ? "size 1-7" : n <= 512 ? "size 8-512" : n <= 2048 ? "size 513-2048" : n <= 65536 ? "size 2K-64K" : "size >64K"); }

// ---- C01 ------------------------------------------------------------------------------------------------------
static void c01(Gen &g, Ctx &c) {
	const Impl &im = pick_impl(g);
	unsigned ia = g.chance(1, 3) ? g.below(16) : 0, oa = g.chance(1, 3) ? g.below(16) : 0, da = g.chance(1, 3) ? g.below(16) : 0;
	Bytes d = gen::data(g, BIG, im.opt);
	cls_size(c, d.size()); c.label(im.name);
	bool tight = g.chance(1, 4);
	Buf in(d, ia), comp(tight ? ref::literal_bound(d.size()) : ample(d.size()), oa);
	size_t ol = comp.n;
	int r = im.comp(in.p, d.size(), comp.p, &ol);
	if (r) c.fail("%s_compress returned %d for %s (capacity %zu, align in %u out %u)", im.name, r, gen::describe_data(d).c_str(), comp.n, ia, oa);
	if (ol > comp.n || !comp.intact() || !in.eq(d)) c.fail("%s_compress: length %zu of capacity %zu / guard bytes or input modified", im.name, ol, comp.n);
	Buf comp2(comp.bytes(ol), g.chance(1, 3) ? oa : 0); // exactly the produced bytes
	Buf out(d.size() + (g.chance(1, 3) ? g.below(40) : 0), da, g.pick({0xA5, 0, 0xff}));
	size_t dl = out.n;
	r = im.decomp(comp2.p, ol, out.p, &dl);
	if (r) c.fail("%s_decompress returned %d for the %zu bytes %s_compress produced from %s", im.name, r, ol, im.name, gen::describe_data(d).c_str());
	if (dl != d.size()) c.fail("%s round trip length %zu instead of %zu", im.name, dl, d.size());
	if (!out.eq(d)) { size_t i = 0; while (out.p[i] == d[i]) i++; c.fail("%s round trip differs at byte %zu of %zu; input %s", im.name, i, d.size(), gen::describe_data(d).c_str()); }
	if (!out.intact()) c.fail("%s_decompress wrote outside its buffer", im.name);
	if (d.size() >= 8 && ol < ref::literal_bound(d.size())) {
		c.nontrivial(pbt::hash_bytes(d.data(), d.size(), ia * 256 + oa * 16 + da + im.opt * 4096));
		if (c.want_sample()) c.sample(pbt::fmt("%s align %u/%u/%u %s -> %zu bytes", im.name, ia, oa, da, gen::describe_data(d).c_str(), ol));
	}
}

// Data beyond 4 GiB. The same few pages stand in for all of it: data and output are one short file mapped again and again,
// with a period that does not divide 2^32, so that a position that wraps around does not land on equal bytes.
#ifndef HAVE_ASAN
// n bytes of address space that show the same p bytes over and over
static uint8_t *repeated(size_t n, size_t p, size_t *len) {
	int fd = memfd_create("beyond", 0); if (fd < 0 || ftruncate(fd, p)) return nullptr;
	size_t k = *len = (n + p - 1) / p * p; uint8_t *m = (uint8_t *)mmap(nullptr, k, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return nullptr;
	for (size_t i = 0; i < k; i += p) if (mmap(m + i, p, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return nullptr;
	close(fd); return m;
}
#endif
static void beyond(Ctx &c, const Impl &enc, const Impl &dec, const char *what) {
#ifndef HAVE_ASAN
	const size_t P = (64 << 20) + 3 * 4096, N = ((size_t)1 << 32) + 300008;
	size_t len; uint8_t *in = repeated(N, P, &len), *out = repeated(N, P, &len); if (!in || !out) { c.label("no room for data beyond 4 GiB"); return; }
	Rng r(99); // half a per cent of it varied, the rest short cycles
	for (size_t i = 0; i < P; i += 4096) { uint64_t w[3] = {r.next(), r.next() & 0xffff, 0}; bool rnd = i % (1 << 20) == 0 || i % (1 << 20) == (uint64_t)(i >> 20) * 4096; for (size_t k = 0; k < 4096; k += 8) { uint64_t v = rnd ? r.next() >> r.below(40) : w[(i >> 12) % 5 == 4 ? (k >> 3) % 3 : (i >> 12) % 3]; memcpy(in + i + k, &v, 8); } }
	size_t cap = 1 << 30; uint8_t *z = (uint8_t *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) { c.label("no room for data beyond 4 GiB"); return; }
	size_t ol = cap, dl = N; int ret = enc.comp(in, N, z, &ol);
	if (ret || ol > cap) c.fail("%s_compress of %zu bytes (a period of %zu bytes, repeated) returned %d, length %zu", enc.name, N, P, ret, ol);
	ret = dec.decomp(z, ol, out, &dl);
	if (ret || dl != N) c.fail("%s: %s_decompress of the %zu bytes that %s_compress made of %zu bytes returned %d, length %zu", what, dec.name, ol, enc.name, N, ret, dl);
	for (size_t i = 0; i < P; i++) if (in[i] != out[i]) c.fail("%s of %zu bytes (a period of %zu bytes, repeated): %s -> %s differ at byte %zu of the period", what, N, P, enc.name, dec.name, i);
	munmap(z, cap); munmap(in, len); munmap(out, len);
	c.label("beyond 4 GiB"); c.nontrivial(pbt::mix(enc.opt, dec.opt + 2)); if (c.want_sample()) c.sample(pbt::fmt("%zu bytes, %s -> %zu bytes -> %s", N, enc.name, ol, dec.name));
#else
	(void)c; (void)enc; (void)dec; (void)what;
#endif
}
static void c01_fixed(uint64_t i, Ctx &c) { if (i == 0) beyond(c, IMPLS[1], IMPLS[1], "round trip"); else if (c.thorough) beyond(c, IMPLS[0], IMPLS[0], "round trip"); }
static void c02_fixed(uint64_t i, Ctx &c) { if (i == 0) beyond(c, IMPLS[1], IMPLS[0], "cross decoding"); else if (c.thorough) beyond(c, IMPLS[0], IMPLS[1], "cross decoding"); }

// a result of more than 4 GiB, from data that does not compress (what is written is not kept)
static void beyond_output(Ctx &c, const Impl &enc) {
#ifndef HAVE_ASAN
	const size_t P = (16 << 20) + 5 * 4096, N = ((size_t)1 << 32) + 80000, cap = ref::literal_bound(N);
	size_t li, lo; uint8_t *in = repeated(N, P, &li), *out = repeated(cap, P, &lo); if (!in || !out) { c.label("no room for data beyond 4 GiB"); return; }
	Rng r(98); for (size_t i = 0; i < P; i += 8) { uint64_t v = r.next(); memcpy(in + i, &v, 8); }
	size_t ol = cap; int ret = enc.comp(in, N, out, &ol);
	if (ret || ol <= N || ol > cap) c.fail("%s_compress of %zu bytes that do not compress, capacity %zu: returned %d, length %zu", enc.name, N, cap, ret, ol);
	munmap(in, li); munmap(out, lo); c.label("output beyond 4 GiB"); c.nontrivial(enc.opt);
#else
	(void)c; (void)enc;
#endif
}
static void c07_fixed(uint64_t i, Ctx &c) { if (i == 0) beyond_output(c, IMPLS[1]); else if (c.thorough) beyond_output(c, IMPLS[0]); }

// ---- C02 (software half) ----------------------------------------------------------------------------------------
static void c02(Gen &g, Ctx &c) {
	Bytes d = gen::data(g, 20000, true);
	cls_size(c, d.size());
	unsigned ea = g.chance(1, 2) ? g.below(8) : 0, eo = g.chance(1, 2) ? g.below(8) : 0;
	unsigned entry = g.below(4);
	unsigned da = g.chance(1, 2) ? g.below(8) : 0, dout = g.chance(1, 2) ? g.below(8) : 0;
	size_t csize = 0;
	for (const Impl &e : IMPLS) {
		Buf in(d, ea), comp(ample(d.size()), eo); size_t ol = comp.n;
		int r = call_comp(e, entry, in.p, d.size(), comp.p, &ol);
		if (r) c.fail("%s compress (entry %u, align %u/%u) returned %d for %s", e.name, entry, ea, eo, r, gen::describe_data(d).c_str());
		csize = ol;
		for (const Impl &x : IMPLS) {
			Buf ci(comp.bytes(ol), da), out(d.size(), dout); size_t dl = out.n;
			r = call_decomp(x, entry, ci.p, ol, out.p, &dl);
			if (r || dl != d.size() || !out.eq(d))
				c.fail("%s decompress (entry %u, align %u/%u) of %s output: ret %d, length %zu of %zu, %s; input %s", x.name, entry, da, dout, e.name, r, dl, d.size(), out.eq(d) ? "data equal" : "data differ", gen::describe_data(d).c_str());
		}
	}
	c.label(ea || eo ? "encoder unaligned" : "encoder aligned"); c.label(da || dout ? "decoder unaligned" : "decoder aligned");
	if (d.size() >= 8 && csize < ref::literal_bound(d.size())) {
		c.nontrivial(pbt::hash_bytes(d.data(), d.size(), entry * 4096 + ea * 512 + eo * 64 + da * 8 + dout));
		if (c.want_sample()) c.sample(pbt::fmt("entry %u enc align %u/%u dec align %u/%u %s", entry, ea, eo, da, dout, gen::describe_data(d).c_str()));
	}
}

// ---- C03 ------------------------------------------------------------------------------------------------------
static void c03(Gen &g, Ctx &c) {
	const Impl &im = pick_impl(g);
	unsigned ia = g.chance(1, 3) ? g.below(16) : 0, oa = g.chance(1, 3) ? g.below(16) : 0;
	Bytes d = gen::data(g, BIG, im.opt);
	Buf in(d, ia), comp(ample(d.size()), oa); size_t ol = comp.n;
	int r = im.comp(in.p, d.size(), comp.p, &ol);
	if (r) c.fail("%s_compress returned %d", im.name, r);
	ref::Result q = ref::decode(comp.p, ol, d.size() + 1024, true);
	if (q.st != ref::OK) c.fail("%s output is not a well-formed stream: %s at bit %zu of %zu bytes; input %s; output %s", im.name, ref::status_name(q.st), q.errbit, ol, gen::describe_data(d).c_str(), pbt::hex(comp.p, ol).c_str());
	if (q.out != d) c.fail("%s output decodes to different data under the format definition; input %s", im.name, gen::describe_data(d).c_str());
	size_t want = (q.endbit + 63) / 64 * 8;
	if (ol != want) c.fail("%s output is %zu bytes, stream ends at bit %zu (expected %zu bytes)", im.name, ol, q.endbit, want);
	for (size_t b = q.endbit; b < ol * 8; b++) if ((comp.p[b / 8] >> (7 - b % 8)) & 1) c.fail("%s output has a non-zero padding bit at %zu (end %zu); input %s", im.name, b, q.endbit, gen::describe_data(d).c_str());
	if (q.nshort != (d.size() % 8 ? 1u : 0u) || (q.nshort && (!q.short_last_only || q.tokens[q.tokens.size() - 2].v.size() != d.size() % 8)))
		c.fail("%s output has %u short-data templates for length %zu", im.name, q.nshort, d.size());
	uint32_t mask = 0; for (auto &t : q.tokens) mask |= 1u << t.op;
	for (unsigned o = 0; o < 32; o++) if (mask >> o & 1) c.label(pbt::fmt("op 0x%02x", o).c_str());
	cls_size(c, d.size());
	if (__builtin_popcount(mask) >= 3) {
		c.nontrivial(pbt::hash_bytes(comp.p, ol, im.opt));
		if (c.want_sample()) c.sample(pbt::fmt("%s %s -> ", im.name, gen::describe_data(d).c_str()) + gen::describe(q.tokens));
	}
}

// ---- C04 ------------------------------------------------------------------------------------------------------
static void c04(Gen &g, Ctx &c) {
	gen::Stream s = gen::stream(g, 30000, g.chance(1, 4));
	size_t trail = g.chance(1, 3) ? g.below(24) : 0;
	uint64_t ts = g.seed(); unsigned ia = g.chance(1, 4) ? g.below(8) : 0, oa = g.chance(1, 4) ? g.below(8) : 0;
	unsigned extra = g.chance(1, 3) ? g.below(80) : 0;
	Bytes enc = s.encode(true), encu = s.encode(false);
	{ // the generator and the reference decoder must agree (self-check of the oracle)
		ref::Result q = ref::decode(enc.data(), enc.size(), s.out.size());
		if (q.st != ref::OK || q.out != s.out) { fprintf(stderr, "generator/reference disagreement\n"); abort(); }
	}
	for (const Impl &im : IMPLS) {
		if (im.opt && s.has_short) continue;
		Bytes e = im.opt || g.chance(1, 2) ? enc : encu;
		Rng r(ts); for (size_t i = 0; i < (im.opt ? trail / 8 * 8 : trail); i++) e.push_back(r.next());
		Buf in(e, ia), out(s.out.size() + extra, oa); size_t dl = out.n;
		int ret = im.decomp(in.p, e.size(), out.p, &dl);
		if (ret || dl != s.out.size() || !out.eq(s.out)) {
			size_t i = 0; while (i < s.out.size() && out.p[i] == s.out[i]) i++;
			c.fail("%s_decompress of a well-formed stream: ret %d, length %zu (expected %zu), first difference at %zu; tokens %s", im.name, ret, dl, s.out.size(), i, gen::describe(s.tokens, 40).c_str());
		}
		if (!out.intact() || !in.eq(e)) c.fail("%s_decompress touched guard bytes or its input", im.name);
	}
	for (auto &t : s.tokens) { if (t.op < 32) c.label(pbt::fmt("op 0x%02x", t.op).c_str()); }
	if (s.out.size() > 512) c.label("2-byte ring wrapped");
	if (s.out.size() > 2048) c.label("4/8-byte ring wrapped");
	if (gen::distinct_ops(s) >= 3) {
		c.nontrivial(pbt::hash_bytes(enc.data(), enc.size()));
		if (c.want_sample()) c.sample(pbt::fmt("out %zu bytes, trailing %zu: ", s.out.size(), trail) + gen::describe(s.tokens));
	}
}

// ---- C05 ------------------------------------------------------------------------------------------------------
static void c05(Gen &g, Ctx &c) {
	if (g.chance(1, 4)) { // compression of arbitrary data into arbitrary capacity
		const Impl &im = pick_impl(g);
		Bytes d = gen::data(g, 6000, false);
		unsigned ia = g.chance(1, 2) ? g.below(16) : 0, oa = g.chance(1, 2) ? g.below(16) : 0;
		size_t cap;
		switch (g.below(3)) { case 0: cap = g.below(64); break; case 1: cap = g.below(ample(d.size())); break; default: cap = ample(d.size()); }
		Buf in(d, ia), out(cap, oa); size_t ol = cap;
		int r = im.comp(in.p, d.size(), out.p, &ol);
		if (r > 0 || (r == 0 && ol > cap)) c.fail("%s_compress ret %d olen %zu capacity %zu", im.name, r, ol, cap);
		if (!in.eq(d) || !in.intact() || !out.intact()) c.fail("%s_compress changed bytes outside its output", im.name);
		c.label(r ? "compress: error" : "compress: ok");
		if (d.size() % 8 || r || ia || oa) c.nontrivial(pbt::hash_bytes(d.data(), d.size(), cap * 2 + im.opt));
		return;
	}
	Bytes b; const char *lab = arbitrary_stream(g, b);
	ref::Result q = ref::decode(b.data(), b.size(), 1 << 20);
	size_t cap;
	switch (g.weighted({2, 3, 2, 1})) {
	case 0: cap = g.below(q.out.size() + 20); break;
	case 1: cap = q.out.size(); break;
	case 2: cap = q.out.size() + g.below(100); break;
	default: cap = g.below(40);
	}
	unsigned ia = g.chance(1, 3) ? g.below(16) : 0, oa = g.chance(1, 3) ? g.below(16) : 0;
	for (const Impl &im : IMPLS) {
		Buf in(b, ia), out(cap, oa); size_t ol = cap;
		int r = im.decomp(in.p, b.size(), out.p, &ol);
		if (r > 0 || (r == 0 && ol > cap)) c.fail("%s_decompress ret %d olen %zu capacity %zu (%s)", im.name, r, ol, cap, lab);
		if (!in.eq(b) || !in.intact() || !out.intact()) c.fail("%s_decompress changed bytes outside its output (%s)", im.name, lab);
		c.label(r == 0 ? "decompress: ok" : r == -ENOSPC ? "decompress: ENOSPC" : "decompress: other error");
	}
	c.label(lab); c.label((std::string("reference: ") + ref::status_name(q.st)).c_str());
	if (q.out.size() >= 8 && q.st != ref::OK) {
		c.nontrivial(pbt::hash_bytes(b.data(), b.size(), cap));
		if (c.want_sample()) c.sample(pbt::fmt("%s, reference %s at bit %zu, capacity %zu: ", lab, ref::status_name(q.st), q.errbit, cap) + pbt::hex(b.data(), b.size()));
	}
}

// ---- C06 ------------------------------------------------------------------------------------------------------
static void c06(Gen &g, Ctx &c) {
	bool fromenc = g.chance(1, 3);
	Bytes enc, want; bool has_short = false; std::string desc;
	if (fromenc) { Bytes d = gen::data(g, 3000, g.chance(1, 2)); enc = compress_ok(c, IMPLS[0], d); want = d; has_short = d.size() % 8; desc = "encoder output"; }
	else { gen::Stream s = gen::stream(g, 6000, g.chance(1, 4), 300); enc = s.encode(); want = s.out; has_short = s.has_short; desc = gen::describe(s.tokens); }
	size_t N = want.size();
	std::set<size_t> caps;
	if (N <= 64) for (size_t k = 0; k <= N + 9; k++) caps.insert(k);
	else {
		for (size_t k : {(size_t)0, (size_t)7, (size_t)8, N - 1, N - 2, N - 3, N - 4, N - 5, N - 6, N - 7, N - 8, N - 9, N, N + 1, N + 7, N + 8}) caps.insert(k);
		for (int i = 0; i < 10; i++) caps.insert(g.below(N));
		caps.insert(N + g.below(1000));
	}
	unsigned ia = g.chance(1, 4) ? g.below(8) : 0, oa = g.chance(1, 4) ? g.below(8) : 0;
	for (const Impl &im : IMPLS) {
		if (im.opt && has_short) continue;
		Buf in(enc, ia);
		for (size_t cap : caps) {
			Buf out(cap, oa); size_t ol = cap;
			int r = im.decomp(in.p, enc.size(), out.p, &ol);
			if (!out.intact()) c.fail("%s_decompress wrote beyond capacity %zu (needs %zu): %s", im.name, cap, N, desc.c_str());
			if (cap >= N) { if (r || ol != N || !out.eq(want)) c.fail("%s_decompress with capacity %zu >= %zu: ret %d olen %zu: %s", im.name, cap, N, r, ol, desc.c_str()); }
			else if (r != -ENOSPC || ol != 0) c.fail("%s_decompress with capacity %zu < %zu: ret %d olen %zu (expected -ENOSPC, 0): %s", im.name, cap, N, r, ol, desc.c_str());
			c.label(cap >= N ? "capacity suffices" : "capacity too small");
		}
	}
	if (N >= 16) { c.nontrivial(pbt::hash_bytes(enc.data(), enc.size())); if (c.want_sample()) c.sample(pbt::fmt("N=%zu, %zu capacities: ", N, caps.size()) + desc); }
}

// ---- C07 ------------------------------------------------------------------------------------------------------
static void c07(Gen &g, Ctx &c) {
	const Impl &im = pick_impl(g);
	Bytes d = gen::data(g, 2500, im.opt);
	unsigned ia = g.chance(1, 4) ? g.below(8) : 0, oa = g.chance(1, 4) ? g.below(8) : 0;
	Buf in(d, ia), full(ample(d.size()), oa); size_t M = full.n;
	int r = im.comp(in.p, d.size(), full.p, &M);
	if (r) c.fail("%s_compress returned %d with ample space", im.name, r);
	std::set<size_t> caps;
	if (M <= 72) for (size_t k = 0; k <= M + 17; k++) caps.insert(k);
	else {
		for (size_t k = M - 20; k <= M + 9; k++) caps.insert(k);
		for (int i = 0; i < 8; i++) caps.insert(g.below(M));
		caps.insert(0); caps.insert(M + g.below(200));
	}
	for (size_t cap : caps) {
		Buf out(cap, oa, g.pick({0xA5, 0xFF, 0})); size_t ol = cap;
		r = im.comp(in.p, d.size(), out.p, &ol);
		if (!out.intact()) c.fail("%s_compress wrote beyond capacity %zu (needs %zu)", im.name, cap, M);
		if (cap >= M) { if (r || ol != M || memcmp(out.p, full.p, M)) c.fail("%s_compress with capacity %zu >= %zu: ret %d olen %zu, output %s; input %s", im.name, cap, M, r, ol, ol == M && !memcmp(out.p, full.p, M) ? "same" : "differs", gen::describe_data(d).c_str()); }
		else if (r != -ENOSPC || ol != 0) c.fail("%s_compress with capacity %zu < %zu: ret %d olen %zu (expected -ENOSPC, 0); input %s", im.name, cap, M, r, ol, gen::describe_data(d).c_str());
		c.label(cap >= M ? "capacity suffices" : "capacity too small");
	}
	c.label(im.name);
	if (d.size() >= 8) { c.nontrivial(pbt::hash_bytes(d.data(), d.size(), im.opt + ia * 2 + oa * 16)); if (c.want_sample()) c.sample(pbt::fmt("%s M=%zu, %zu capacities, %s", im.name, M, caps.size(), gen::describe_data(d).c_str())); }
}

// ---- C08 ------------------------------------------------------------------------------------------------------
static void c08(Gen &g, Ctx &c) {
	gen::Stream s;
	if (g.chance(1, 4)) { // very short outputs: nothing, or only a short tail
		unsigned n = g.below(8); Rng r(g.seed());
		if (n) { ref::Token t; t.op = ref::OP_SHORT; for (unsigned i = 0; i < n; i++) t.v.push_back(r.next() & 255); gen::apply(s, t); }
		c.label("output 0-7 bytes");
	} else s = gen::stream(g, 20000, g.chance(1, 4), 500);
	if (g.chance(1, 24)) { // long outputs, mostly runs
		size_t want = g.pick({(size_t)65528, (size_t)65536, (size_t)65544, (size_t)131080, (size_t)1 << 20}); size_t tail = 8 * g.below(4); Rng r(g.seed());
		bool zeros = g.chance(1, 2) || s.out.size() < 8 || (!s.tokens.empty() && s.tokens.back().op == ref::OP_SHORT);
		if (!s.tokens.empty() && s.tokens.back().op == ref::OP_SHORT) s = gen::Stream();
		if (zeros) { ref::Token z; z.op = ref::OP_ZEROS; gen::apply(s, z); }
		while (s.out.size() + tail < want) { ref::Token z; z.op = ref::OP_REPEAT; size_t k = std::min<size_t>(64, (want - tail - s.out.size() + 7) / 8); z.v.push_back(k - 1); gen::apply(s, z); }
		for (; tail; tail -= 8) { ref::Token z; gen::make_token(r, s, 0, z, 0, 0); gen::apply(s, z); }
		c.label("output over 64 KiB");
	}
	uint32_t crc = s.crc();
	std::vector<ref::Token> t = s.tokens;
	const char *lab;
	Bytes enc;
	switch (g.weighted({4, 4, 2, 3})) {
	case 0: lab = "checksum bits flipped"; { unsigned n = g.pick({1, 1, 2, 3, 8}); for (unsigned i = 0; i < n; i++) crc ^= 1u << g.below(32); if (g.chance(1, 8)) crc = g.pick({0u, 0xffffffffu, (unsigned)~s.crc(), (unsigned)__builtin_bswap32(s.crc())}); enc = ref::encode(t, crc); } break;
	case 1: { // literal/short bytes changed
		lab = "payload bits flipped"; std::vector<std::pair<size_t, size_t>> pos;
		for (size_t i = 0; i < t.size(); i++) { if (t[i].op == ref::OP_SHORT) for (size_t k = 0; k < t[i].v.size(); k++) pos.push_back({i, k}); else if (t[i].op < 26) { auto &ps = ref::parts(t[i].op); for (size_t k = 0; k < ps.size(); k++) if (!ps[k].index) pos.push_back({i, k}); } }
		if (pos.empty()) { crc ^= 1; enc = ref::encode(t, crc); break; }
		unsigned n = 1 + g.below(3);
		for (unsigned i = 0; i < n; i++) { auto p = g.chance(1, 3) ? pos.back() : pos[g.below(pos.size())]; unsigned bits = t[p.first].op == ref::OP_SHORT ? 8 : ref::parts(t[p.first].op)[p.second].bits; t[p.first].v[p.second] ^= 1ULL << g.below(bits); }
		enc = ref::encode(t, crc); break;
	}
	case 2: { lab = "tokens dropped, repeated or exchanged"; if (t.size() >= 2) { size_t i = g.below(t.size()), j = g.below(t.size()); switch (g.below(3)) { case 0: std::swap(t[i], t[j]); break; case 1: t.erase(t.begin() + i); break; default: t.insert(t.begin() + i, t[j]); } } else crc ^= 1u << g.below(32); enc = ref::encode(t, crc); break; }
	default: lab = "arbitrary bits flipped"; enc = ref::encode(t, crc); flip_bits(g, enc, 1 + g.below(3));
	}
	ref::Result q = ref::decode(enc.data(), enc.size(), 3 << 20);
	if (q.st == ref::NOSPACE) c.skip();
	unsigned ia = g.chance(1, 5) ? g.below(8) : 0, oa = g.chance(1, 5) ? g.below(8) : 0;
	for (const Impl &im : IMPLS) {
		if (im.opt && q.nshort) continue;
		Buf in(enc, ia), out(q.out.size() + g.pick({0, 0, 8, 100}), oa); size_t ol = out.n;
		int r = im.decomp(in.p, enc.size(), out.p, &ol);
		if (q.st == ref::BAD_CRC && (r != -EINVAL || ol != 0)) c.fail("%s_decompress: stored checksum %08x, data has %08x (%zu bytes), but ret %d olen %zu (%s): %s", im.name, q.crc, ref::crc32_fast(q.out.data(), q.out.size()), q.out.size(), r, ol, lab, gen::describe(t).c_str());
		if (q.st == ref::OK && (r != 0 || ol != q.out.size() || !out.eq(q.out))) c.fail("%s_decompress rejects or misdecodes a stream with matching checksum: ret %d olen %zu (%s)", im.name, r, ol, lab);
		if (r == 0 && q.st != ref::OK) c.fail("%s_decompress accepted a stream that is %s (%s)", im.name, ref::status_name(q.st), lab);
	}
	c.label(lab); c.label((std::string("reference: ") + ref::status_name(q.st)).c_str());
	if (q.st == ref::BAD_CRC) { c.nontrivial(pbt::hash_bytes(enc.data(), enc.size())); if (c.want_sample()) c.sample(pbt::fmt("%s, output %zu bytes: ", lab, q.out.size()) + gen::describe(t)); }
}

// ---- C09 ------------------------------------------------------------------------------------------------------
static void c09(Gen &g, Ctx &c) {
	if (g.chance(1, 12)) { // optimised compressor and odd lengths
		Bytes d = gen::data(g, 600, false); if (d.size() % 8 == 0) d.resize(d.size() + 1 + g.below(7), 7);
		unsigned ia = g.chance(1, 3) ? g.below(8) : 0, oa = g.chance(1, 3) ? g.below(8) : 0;
		Buf in(d, ia), out(g.chance(1, 4) ? g.below(32) : ample(d.size()), oa); size_t ol = out.n;
		int r = optsw842_compress(in.p, d.size(), out.p, &ol);
		if (r != -EINVAL || ol != 0) c.fail("optsw842_compress of %zu bytes (not a multiple of 8): ret %d olen %zu", d.size(), r, ol);
		c.label("odd length for optsw compressor"); c.nontrivial(pbt::hash_bytes(d.data(), d.size()));
		return;
	}
	Bytes b; const char *lab = arbitrary_stream(g, b);
	unsigned ia = g.chance(1, 5) ? g.below(8) : 0, oa = g.chance(1, 5) ? g.below(8) : 0;
	ref::Result q[2]; bool nt = false;
	for (int k = 0; k < 2; k++) {
		const Impl &im = IMPLS[k];
		bool fallback = im.opt && (ia || oa);
		size_t eff = im.opt && !fallback ? b.size() / 8 * 8 : b.size();
		q[k] = ref::decode(b.data(), eff, 1 << 20, false, true, !im.opt || fallback);
		if (q[k].st == ref::NOSPACE) c.skip();
		Buf in(b, ia), out(q[k].out.size() + g.pick({0, 8, 600, 600, 600}), oa); size_t ol = out.n;
		// a bad element after the capacity ran out may be reported either way; both are failures
		int r = im.decomp(in.p, b.size(), out.p, &ol);
		if (im.opt && !fallback && ref::decode(b.data(), b.size(), 1 << 20).st == ref::OK && b.size() % 8) continue; // not word-aligned: not promised
		if (q[k].st == ref::OK) { if (r || ol != q[k].out.size() || !out.eq(q[k].out)) c.fail("%s_decompress: valid stream, ret %d olen %zu expected %zu (%s) %s", im.name, r, ol, q[k].out.size(), lab, pbt::hex(b.data(), b.size(), 200).c_str()); }
		else {
			if (r >= 0 || ol != 0) c.fail("%s_decompress accepted a malformed stream (%s at bit %zu, %s): ret %d olen %zu; stream %s", im.name, ref::status_name(q[k].st), q[k].errbit, lab, r, ol, pbt::hex(b.data(), b.size(), 200).c_str());
			nt = true;
		}
		c.label(pbt::fmt("%s: %s", im.name, ref::status_name(q[k].st)).c_str());
	}
	c.label(lab);
	if (nt) { c.nontrivial(pbt::hash_bytes(b.data(), b.size(), ia * 8 + oa)); if (c.want_sample()) c.sample(pbt::fmt("%s -> %s at bit %zu after %zu bytes: ", lab, ref::status_name(q[0].st), q[0].errbit, q[0].out.size()) + pbt::hex(b.data(), b.size())); }
}

// ---- C10 ------------------------------------------------------------------------------------------------------
struct Region { uint8_t *p; size_t n; };
static Region region(int which) { // sparse mappings, one pair per process
	static Region r[2] = {{nullptr, 0}, {nullptr, 0}};
	if (!r[which].p) {
		size_t n = 40ULL << 30;
		void *m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); abort(); }
		r[which] = {(uint8_t *)m, n};
	}
	return r[which];
}
static void c10(Gen &g, Ctx &c) {
	const Impl &im = pick_impl(g); bool comp = g.chance(1, 2); bool viatable = g.chance(1, 3);
	bool huge = g.chance(1, 8);
	size_t n = huge ? 1 + g.below(6) : g.weighted({1, 8, 2}) == 0 ? 0 : g.chance(1, 8) ? 40 + g.below(260) : 1 + g.below(12);
	std::vector<Bytes> src(n); std::vector<size_t> ilens(n), caps(n); std::vector<int> skip(n);
	size_t maxin = 1, maxcap = 1;
	size_t lim = n > 40 ? 200 : 3000;
	bool goodonly = g.chance(1, 3); // overall result 0 expected (ENOSPC allowed)
	for (size_t i = 0; i < n; i++) {
		Bytes d; size_t need;
		skip[i] = g.chance(1, 6);
		if (comp) {
			d = gen::data(g, lim, im.opt && (goodonly || g.chance(5, 6))); need = ref::literal_bound(d.size());
		} else {
			bool bad = !goodonly && g.chance(1, 3);
			if (bad) arbitrary_stream(g, d);
			else { Bytes u = gen::data(g, lim, true); d = compress_ok(c, IMPLS[g.below(2)], u); }
			ref::Result q = ref::decode(d.data(), d.size(), 8192); need = q.out.size();
		}
		size_t cap;
		switch (g.weighted({5, 3, 2})) { case 0: cap = need + 8; break; case 1: cap = need; break; default: cap = need ? g.below(need) : 0; }
		src[i] = d; ilens[i] = d.size(); caps[i] = cap;
		if (ilens[i] > maxin) maxin = ilens[i]; if (cap > maxcap) maxcap = cap;
	}
	size_t istride, ostride;
	unsigned al = g.pick({0, 0, 0, 1, 4});
	if (huge) {
		Region ri = region(0);
		size_t base = g.pick<size_t>({1ULL << 30, (1ULL << 31) - 8, 1ULL << 31, 3ULL << 30, (1ULL << 32) - 4096, 1ULL << 32, (1ULL << 32) + 64, 5ULL << 30});
		if (base * n > ri.n - (1 << 20)) n = (ri.n - (1 << 20)) / base;
		istride = base; ostride = g.chance(1, 2) ? base : (maxcap + 15) / 8 * 8; if (g.chance(1, 4)) { ostride = base; istride = (maxin + 15) / 8 * 8; }
	} else {
		istride = maxin + g.below(32); ostride = maxcap + g.below(32);
		if (g.chance(2, 3)) { istride = (istride + 7) / 8 * 8; ostride = (ostride + 7) / 8 * 8; }
	}
	// expected: single calls in sequence
	std::vector<int> erets(n, 777), rets(n, 777); std::vector<size_t> eol = caps, ol = caps; std::vector<Bytes> eout(n);
	int first = 0; unsigned nskip = 0, nerr = 0, nnospc = 0;
	for (size_t i = 0; i < n; i++) {
		eout[i].assign(caps[i], 0);
		if (skip[i]) { nskip++; continue; }
		unsigned iali = huge ? (uintptr_t)(istride * i) & 7 : (al + istride * i) & 7, oali = huge ? (uintptr_t)(ostride * i) & 7 : (al + ostride * i) & 7;
		Buf in(src[i], iali), out(caps[i], oali, 0);
		erets[i] = comp ? im.comp(in.p, ilens[i], out.p, &eol[i]) : im.decomp(in.p, ilens[i], out.p, &eol[i]);
		eout[i] = out.bytes(caps[i]);
		if (erets[i] != 0 && erets[i] != -ENOSPC && first == 0) first = erets[i];
		if (erets[i] == -ENOSPC) nnospc++; else if (erets[i]) nerr++;
	}
	uint8_t *ib, *ob; std::unique_ptr<Buf> bi, bo;
	if (huge) { ib = region(0).p; ob = region(1).p; }
	else { bi.reset(new Buf(n ? istride * (n - 1) + maxin : 0, al)); bo.reset(new Buf(n ? ostride * (n - 1) + maxcap : 0, al, 0)); ib = bi->p; ob = bo->p; }
	for (size_t i = 0; i < n; i++) if (!src[i].empty()) memcpy(ib + istride * i, src[i].data(), src[i].size());
	if (!huge) memset(ob, 0x11, bo->n);
	for (size_t i = 0; i < n; i++) memset(ob + ostride * i, 0, caps[i]);
	std::vector<size_t> il = ilens;
	for (size_t i = 0; i < n; i++) if (skip[i]) il[i] = SIZE_MAX;
	auto f = comp ? (viatable ? im.table()->compress_chunked : im.compc) : (viatable ? im.table()->decompress_chunked : im.decompc);
	int ret = f(n, rets.data(), ib, istride, il.data(), ob, ostride, ol.data());
	const char *op = comp ? "compress_chunked" : "decompress_chunked";
	for (size_t i = 0; i < n; i++) {
		if (rets[i] != erets[i]) c.fail("%s %s: chunk %zu of %zu: result %d, single call gives %d (stride %zu/%zu)%s", im.name, op, i, n, rets[i], erets[i], istride, ostride, skip[i] ? " [skipped chunk]" : "");
		if (ol[i] != eol[i]) c.fail("%s %s: chunk %zu of %zu: length %zu, single call gives %zu%s", im.name, op, i, n, ol[i], eol[i], skip[i] ? " [skipped chunk]" : "");
		// the whole capacity is only compared when the call succeeded: what a failed call leaves is unspecified
		size_t cmp = skip[i] ? caps[i] : erets[i] == 0 ? eol[i] : 0;
		if (cmp && memcmp(ob + ostride * i, eout[i].data(), cmp)) c.fail("%s %s: chunk %zu of %zu: output differs from the single call (stride %zu/%zu)%s", im.name, op, i, n, istride, ostride, skip[i] ? " [skipped chunk]" : "");
	}
	if (ret != first) c.fail("%s %s of %zu chunks returned %d, expected %d (first error other than lack of space)", im.name, op, n, ret, first);
	if (!huge && (!bi->intact() || !bo->intact())) c.fail("%s %s: guard bytes modified", im.name, op);
	if (!huge) for (size_t i = 0; i + 1 < n; i++) for (size_t k = caps[i]; k < ostride; k++) if (ob[ostride * i + k] != 0x11) c.fail("%s %s: byte between chunks %zu and %zu modified", im.name, op, i, i + 1);
	if (huge) for (size_t i = 0; i < n; i++) { // give the pages back
		for (int w = 0; w < 2; w++) { uint8_t *q = (w ? ob + ostride * i : ib + istride * i); uintptr_t a = (uintptr_t)q & ~4095ULL; madvise((void *)a, 65536, MADV_DONTNEED); }
	}
	c.label(comp ? "compress" : "decompress"); c.label(huge ? "beyond 4 GiB" : "small strides");
	if (first) c.label("overall error expected"); if (nnospc) c.label("some chunk without space"); if (nskip) c.label("some chunk skipped");
	if (n >= 2 && nskip + nerr + nnospc < n) {
		uint64_t h = istride * 31 + ostride; for (auto &s : src) h = pbt::hash_bytes(s.data(), s.size(), h);
		c.nontrivial(h);
		if (c.want_sample()) c.sample(pbt::fmt("%s %s: %zu chunks, strides %zu/%zu, %u skipped, %u errors, %u without space, overall %d", im.name, op, n, istride, ostride, nskip, nerr, nnospc, ret));
	}
}

// ---- C12 ------------------------------------------------------------------------------------------------------
static void c12(Gen &g, Ctx &c) {
	const Impl &im = pick_impl(g);
	Bytes d = gen::data(g, BIG / 4, im.opt);
	Bytes e = compress_ok(c, im, d);
	ref::Cost k = ref::greedy(d.data(), d.size());
	size_t best = ref::total_bytes(k.bits), lit = ref::literal_bound(d.size());
	if (e.size() > lit) c.fail("%s output %zu bytes exceeds the all-literal size %zu; input %s", im.name, e.size(), lit, gen::describe_data(d).c_str());
	if (!im.opt && e.size() != best) c.fail("sw output is %zu bytes, greedy encoding has %zu (%llu words: %llu repeats in %llu tokens, %llu zero, %llu I8, %llu mixed, %llu literal); input %s", e.size(), best, (unsigned long long)k.words, (unsigned long long)k.repeats, (unsigned long long)k.reptokens, (unsigned long long)k.zeros, (unsigned long long)k.i8, (unsigned long long)k.mixed, (unsigned long long)k.lit, gen::describe_data(d).c_str());
	if (im.opt) {
		if (e.size() < best) c.fail("optsw output of %zu bytes is smaller than the best greedy encoding %zu", e.size(), best);
		size_t ub = ref::total_bytes(k.reptokens * 11 + k.zeros * 5 + (k.words - k.repeats - k.zeros) * 69);
		if (e.size() > ub) c.fail("optsw output of %zu bytes exceeds %zu (repeats %llu in %llu tokens, zeros %llu, others literal); input %s", e.size(), ub, (unsigned long long)k.repeats, (unsigned long long)k.reptokens, (unsigned long long)k.zeros, gen::describe_data(d).c_str());
		ref::Result q = ref::decode(e.data(), e.size(), d.size() + 1024, true);
		uint64_t reps = 0, zeros = 0; for (auto &t : q.tokens) { if (t.op == ref::OP_REPEAT) reps++; else if (t.op == ref::OP_ZEROS) zeros++; }
		if (q.st == ref::OK && (reps != k.reptokens || zeros != k.zeros)) c.fail("optsw encodes runs/zero words with %llu repeat and %llu zero templates instead of %llu and %llu; input %s", (unsigned long long)reps, (unsigned long long)zeros, (unsigned long long)k.reptokens, (unsigned long long)k.zeros, gen::describe_data(d).c_str());
	}
	c.label(im.name); cls_size(c, d.size());
	if (k.repeats) c.label("has repeats"); if (k.reptokens && k.repeats > 64) c.label("has run over 64"); if (k.zeros) c.label("has zero words"); if (k.i8) c.label("has 8-byte matches"); if (k.mixed) c.label("has partial matches");
	if (k.words && k.lit < k.words) {
		c.nontrivial(pbt::hash_bytes(d.data(), d.size(), im.opt));
		if (c.want_sample()) c.sample(pbt::fmt("%s %zu -> %zu bytes (greedy %zu, literal %zu), %llu repeats, %llu zeros, %llu I8, %llu mixed, %llu literal", im.name, d.size(), e.size(), best, lit, (unsigned long long)k.repeats, (unsigned long long)k.zeros, (unsigned long long)k.i8, (unsigned long long)k.mixed, (unsigned long long)k.lit));
	}
}

// ---- C31 (through the codec interface) ---------------------------------------------------------------------------
static void crc_case(Ctx &c, const Bytes &d, unsigned ia, unsigned oa) {
	uint32_t want = ref::crc32(d.data(), d.size());
	if (want != ref::crc32_fast(d.data(), d.size())) { fprintf(stderr, "reference CRC tables wrong\n"); abort(); }
	for (const Impl &im : IMPLS) {
		if (im.opt && d.size() % 8) continue;
		Buf in(d, ia), out(ample(d.size()), oa); size_t ol = out.n;
		int r = im.comp(in.p, d.size(), out.p, &ol);
		if (r) c.fail("%s_compress returned %d", im.name, r);
		ref::Result q = ref::decode(out.p, ol, d.size() + 8, false, false);
		if (q.st != ref::OK) c.fail("%s output not parseable", im.name);
		if (q.crc != want) c.fail("%s stores checksum %08x for %s at alignment %u; CRC-32 is %08x", im.name, q.crc, gen::describe_data(d).c_str(), ia, want);
		// decoder: a literal stream with the right checksum is accepted, with a wrong one rejected
		std::vector<ref::Token> t;
		for (size_t i = 0; i + 8 <= d.size(); i += 8) { ref::Token k; k.op = 0; k.v.push_back(ref::rd(&d[i], 8)); t.push_back(k); }
		if (d.size() % 8) { ref::Token k; k.op = ref::OP_SHORT; for (size_t i = d.size() / 8 * 8; i < d.size(); i++) k.v.push_back(d[i]); t.push_back(k); }
		Buf good(ref::encode(t, want), ia), bad(ref::encode(t, want ^ (1u << (d.size() * 7 + ia) % 32)), ia), o2(d.size(), oa);
		size_t dl = o2.n;
		r = im.decomp(good.p, good.n, o2.p, &dl);
		if (r || dl != d.size()) c.fail("%s_decompress rejects the right CRC-32 %08x for %s at output alignment %u (ret %d)", im.name, want, gen::describe_data(d).c_str(), oa, r);
		dl = o2.n; r = im.decomp(bad.p, bad.n, o2.p, &dl);
		if (r == 0) c.fail("%s_decompress accepts a wrong CRC-32 for %s at output alignment %u", im.name, gen::describe_data(d).c_str(), oa);
	}
}
// fixed: every length 0..255 at every alignment (data chosen so that each table entry is hit over the run)
static void c31_fixed(uint64_t i, Ctx &c) {
	for (unsigned a = 0; a < 8; a++) {
		Bytes d(i); Rng r(i * 8 + a + 1); for (auto &x : d) x = r.next();
		crc_case(c, d, a, (a * 3) % 8);
		// single non-zero byte at each position modulo 8: isolates one slicing table
		for (unsigned k = 0; k < 8 && k < i; k++) { Bytes e(i); e[i - 1 - k] = (uint8_t)(i + a * 31 + k * 5 + 1); crc_case(c, e, a, a); }
	}
	c.label("length enumerated"); c.nontrivial(i + 1);
}
static void c31(Gen &g, Ctx &c) {
	Bytes d = g.chance(1, 2) ? gen::data(g, 8000, false) : Bytes();
	if (d.empty()) { size_t n = g.chance(3, 4) ? g.below(4097) : g.logsize(0, BIG); d.resize(n); Rng r(g.seed()); for (auto &x : d) x = r.next(); }
	unsigned ia = g.below(8), oa = g.below(8);
	crc_case(c, d, ia, oa);
	cls_size(c, d.size()); c.label(ia & 3 ? "start not 4-aligned" : "start 4-aligned");
	if (d.size() >= 8) { c.nontrivial(pbt::hash_bytes(d.data(), d.size(), ia * 8 + oa)); if (c.want_sample()) c.sample(pbt::fmt("align %u/%u %s crc %08x", ia, oa, gen::describe_data(d).c_str(), ref::crc32_fast(d.data(), d.size()))); }
}

// ---- C33: the same guarantees with a build switch changed --------------------------------------------------------
extern "C" { extern const char *build_variant __attribute__((weak)); }
static void strict_length(Gen &g, Ctx &c) {
	Bytes d = gen::data(g, 4096, false); if (d.size() % 8 == 0) d.resize(d.size() + 1 + g.below(7), (uint8_t)g.below(256));
	Buf in(d), comp(ample(d.size())); size_t ol = comp.n; int r = sw842_compress(in.p, d.size(), comp.p, &ol);
	if (r != -EINVAL || ol != 0) c.fail("sw842_compress restricted to whole words returned %d, length %zu for %zu bytes", r, ol, d.size());
	c.label("strict: not a whole number of words"); c.nontrivial(pbt::hash_bytes(d.data(), d.size()));
}
static void only_opt(Gen &g, Ctx &c, bool wellformed) {
	Bytes d = gen::data(g, 20000, true); Buf in(d), comp(ample(d.size())), out(d.size()); size_t ol = comp.n, dl = out.n;
	int r = optsw842_compress(in.p, d.size(), comp.p, &ol); if (r || ol > comp.n || !comp.intact()) c.fail("optsw842_compress returned %d, length %zu for %s", r, ol, gen::describe_data(d).c_str());
	Buf z(comp.bytes(ol)); r = optsw842_decompress(z.p, ol, out.p, &dl);
	if (r || dl != d.size() || !out.eq(d) || !out.intact()) c.fail("optsw842_decompress returned %d, length %zu for the %zu bytes optsw842_compress made of %s", r, dl, ol, gen::describe_data(d).c_str());
	if (wellformed) {
		ref::Result q = ref::decode(z.p, ol, d.size(), true); if (q.st != ref::OK || q.out != d) c.fail("optsw output: %s under the format definition, for %s", ref::status_name(q.st), gen::describe_data(d).c_str());
		for (auto &t : q.tokens) if (t.op == ref::OP_REPEAT || t.op == ref::OP_ZEROS) c.fail("the simplified encoding contains template 0x%x, for %s", t.op, gen::describe_data(d).c_str());
		Buf o2(d.size()); dl = o2.n; r = sw842_decompress(z.p, ol, o2.p, &dl); if (r || dl != d.size() || !o2.eq(d)) c.fail("sw842_decompress returned %d for the simplified encoding of %s", r, gen::describe_data(d).c_str());
	}
	if (d.size() >= 8) { c.nontrivial(pbt::hash_bytes(d.data(), d.size())); if (c.want_sample()) c.sample(gen::describe_data(d)); }
}
static void c33(Gen &g, Ctx &c) {
	std::string v = &build_variant ? build_variant : ""; c.label(v.c_str());
	if (v == "v-debug") { static bool q = false; if (!q) { q = true; if (!freopen("/dev/null", "w", stdout)) abort(); } }
	if (v == "v-simple") return only_opt(g, c, true);
	if (v == "v-nocrc") return only_opt(g, c, false);
	if (v == "v-trusting") { switch (g.below(3)) { case 0: return c02(g, c); case 1: return c03(g, c); default: return c12(g, c); } }
	if (v == "v-strict") { switch (g.below(4)) { case 0: return strict_length(g, c); case 1: return c02(g, c); case 2: return c04(g, c); default: return c09(g, c); } }
	switch (g.below(9)) { case 0: return c01(g, c); case 1: return c02(g, c); case 2: return c03(g, c); case 3: return c04(g, c); case 4: return c06(g, c); case 5: return c08(g, c); case 6: return c09(g, c); case 7: return g.chance(1, 4) ? c07(g, c) : c12(g, c); default: return c10(g, c); }
}

static struct Init { Init() {
	using pbt::add;
	add({"C01", c01, 9000, 400000, "input of at least 8 bytes whose compressed form is shorter than the all-literal form", 2, c01_fixed, false, 60});
	add({"C02", c02, 9000, 400000, "input of at least 8 bytes whose compressed form is shorter than the all-literal form", 2, c02_fixed, false, 60});
	add({"C03", c03, 9000, 400000, "output with at least 3 different template codes (end marker included)", 0, nullptr, false, 60});
	add({"C04", c04, 40000, 2000000, "stream with at least 3 different template codes", 0, nullptr, false, 60});
	add({"C05", c05, 60000, 3000000, "malformed stream after at least 8 decodable bytes, or a compression that fails / is unaligned / of odd length", 0, nullptr, false, 30});
	add({"C06", c06, 9000, 400000, "stream expanding to at least 16 bytes", 0, nullptr, false, 60});
	add({"C07", c07, 4000, 200000, "input of at least 8 bytes", 2, c07_fixed, false, 60});
	add({"C08", c08, 40000, 2000000, "structurally valid stream whose checksum does not match its data", 0, nullptr, false, 60});
	add({"C09", c09, 40000, 2000000, "stream the reference decoder rejects, or an odd length for the optimised compressor", 0, nullptr, false, 60});
	add({"C10", c10, 6000, 300000, "at least two chunks of which at least one succeeds", 0, nullptr, false, 60});
	add({"C33", c33, 4000, 200000, "the non-trivial cases of the underlying property, with a build switch changed", 0, nullptr, false, 60});
	add({"C12", c12, 9000, 400000, "input with at least one word not stored as a literal in the greedy encoding", 0, nullptr, false, 60});
	add({"C31", c31, 4000, 200000, "data of at least 8 bytes", 256, c31_fixed, false, 60});
} } init_;
