// C30: the CUDA kernel's source run on the host: grid of threads one after another, inline PTX interpreted (ptx.hpp).
// CUDA_TU is the kernel file with each asm statement rewritten into a call of the interpreter (run.py, build_cuda).
#include "common.hpp"
#include "ptx.hpp"
#include <set>
struct dim { unsigned x = 1, y = 1, z = 1; };
static dim gridDim, blockDim, blockIdx, threadIdx;
#define __global__
#define __device__
#define __host__
#define __constant__
#define __forceinline__ inline
#define __restrict__
#define LIB842_HAVE_CUDA
#include CUDA_TU
#undef __restrict__
#undef OP_REPEAT
#undef OP_ZEROS
#undef OP_SHORT_DATA
#undef OP_END
static Ctx *C;
extern "C" void ptx::ptx_bad(const char *what, const char *line) { if (C) C->fail("inline assembly: %s in '%s'", what, line); abort(); }

#ifdef LIB842_CUDA_STRICT
static const bool STRICT = true;
#else
static const bool STRICT = false;
#endif
// the simplified format of the non-strict build: absolute indices, no repeats, no zero words
static unsigned ibits(unsigned size) { unsigned l = 0; while ((2u << l) <= LIB842_CUDA_CHUNK_SIZE) l++; return size == 2 ? l - 1 : size == 4 ? l - 2 : l - 3; }
static Bytes plain_stream(Gen &g, Bytes &data, std::string &desc, unsigned &nidx) {
	Rng r(g.seed()); size_t words = g.logsize(0, LIB842_CUDA_CHUNK_SIZE / 8); unsigned ip = g.pick({1u, 5u, 9u});
	if (g.chance(1, 4)) words = LIB842_CUDA_CHUNK_SIZE / 8;
	ref::BitWriter w; nidx = 0;
	for (size_t i = 0; i < words; i++) {
		unsigned op = r.below(10) < ip && i ? (unsigned)r.below(26) : 0;
		w.put(op, 5); size_t before = data.size();
		for (auto &p : ref::parts(op)) {
			if (p.index) { uint64_t n = before / p.size, k = r.chance(1, 3) ? n - 1 : r.below(n); nidx++; w.put(k, ibits(p.size)); for (unsigned j = 0; j < p.size; j++) { uint8_t x = data[k * p.size + j]; data.push_back(x); } }
			else { uint64_t v = r.next(); if (p.bits < 64) v &= (1ull << p.bits) - 1; w.put(v, p.bits); gen::put_be(data, v, p.size); }
		}
	}
	w.put(ref::OP_END, 5); w.put(ref::crc32_fast(data.data(), data.size()), 32); w.pad8();
	desc = pbt::fmt("%zu words, %u index parts", words, nidx);
	return w.b;
}
static void c30(Gen &g, Ctx &c) {
	C = &c;
	const size_t CH = LIB842_CUDA_CHUNK_SIZE;
	unsigned nb = (unsigned)g.range(1, g.chance(1, 3) ? 9 : 2), nt = (unsigned)g.range(1, 5);
	if (g.chance(1, 40)) { nb = (unsigned)g.range(2, 40); nt = g.pick({16u, 32u, 64u}); } // more threads than fit in a byte
	const unsigned n = nb * nt; const bool many = n > 64;
	std::vector<Bytes> datas, streams; std::string desc; unsigned interesting = 0, ops = 0; uint64_t h = 0;
	for (unsigned i = 0; i < n; i++) {
		if (STRICT) {
			gen::Stream s, t = gen::stream(g, many ? 64 : CH + 448, false);
			bool fill = !many && g.chance(1, 2); Rng r(g.seed());
			for (auto &k : t.tokens) { size_t add = k.op == ref::OP_REPEAT ? 8 * (k.v[0] + 1) : 8; if (s.out.size() + add > CH) break; gen::apply(s, k); }
			while (fill && s.out.size() < CH) { ref::Token k; unsigned op = (unsigned)r.below(27); if (!gen::make_token(r, s, op == 26 ? (unsigned)ref::OP_ZEROS : op, k, (unsigned)r.below(4), 0)) continue; gen::apply(s, k); }
			Bytes e = s.encode(); if (e.size() > 2 * CH) c.skip();
			datas.push_back(s.out); streams.push_back(e);
			if (i < 3) desc += "[" + gen::describe(s.tokens, 6) + "] ";
			unsigned d = gen::distinct_ops(s); ops += d; if (d > 1) interesting++;
			if (s.out.size() > 512) c.label("over-512-bytes"); if (s.out.size() == CH) c.label("full-chunk");
		} else {
			Bytes d; std::string x; unsigned ni; Bytes e = plain_stream(g, d, x, ni); if (e.size() > 2 * CH) c.skip();
			datas.push_back(d); streams.push_back(e); if (i < 3) desc += "[" + x + "] "; if (ni) interesting++;
			if (d.size() == CH) c.label("full-chunk");
		}
		h = pbt::mix(h, pbt::hash_bytes(streams.back().data(), streams.back().size()));
	}
	// slots of twice the chunk size; the last one only as long as its stream, so that anything beyond is caught
	size_t inlen = (size_t)(n - 1) * 2 * CH + streams[n - 1].size(), outlen = (size_t)(n - 1) * CH + datas[n - 1].size();
	Buf in(inlen), out(outlen); Rng r(g.seed());
	for (size_t i = 0; i + 8 <= in.n; i += 8) { uint64_t v = r.next(); memcpy(in.p + i, &v, 8); }
	for (unsigned i = 0; i < n; i++) memcpy(in.p + (size_t)i * 2 * CH, streams[i].data(), streams[i].size());
	gridDim = dim(); blockDim = dim(); gridDim.x = nb; blockDim.x = nt; blockIdx = threadIdx = dim(); blockIdx.x = blockIdx.y = blockIdx.z = 0; threadIdx = blockIdx;
	std::vector<unsigned> order(n); for (unsigned i = 0; i < n; i++) order[i] = i;
	for (unsigned i = n; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); // no order among threads is promised
	for (unsigned k : order) { blockIdx.x = k / nt; threadIdx.x = k % nt; cuda842_decompress((const uint64_t *)in.p, (uint64_t *)out.p); }
	if (!out.intact() || !in.intact()) c.fail("grid %ux%u: memory around the buffers changed; %s", nb, nt, desc.c_str());
	for (unsigned i = 0; i < n; i++) {
		const Bytes &d = datas[i]; const uint8_t *o = out.p + (size_t)i * CH;
		for (size_t k = 0; k < d.size(); k++) if (o[k] != d[k]) c.fail("grid %ux%u: chunk %u differs at byte %zu of %zu; streams %s", nb, nt, i, k, d.size(), desc.c_str());
	}
	c.label(STRICT ? "strict" : "simplified-format"); c.label("chunks", n); if (nb > 1) c.label("several-blocks"); if (many) c.label("more-than-64-threads"); c.label("templates-per-chunk-sum", ops);
	if (interesting) { c.nontrivial(h); if (c.want_sample()) c.sample(pbt::fmt("grid %ux%u, chunk size %zu: ", nb, nt, CH) + desc); }
}
static struct Reg { Reg() {
	pbt::add({"C30", c30, 6000, 300000, "a chunk whose stream uses at least two template codes (or, simplified format, an index)", 0, nullptr, false, 60});
} } reg;
