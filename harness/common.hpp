// Helpers shared by the codec harnesses
#pragma once
#include "pbt.hpp"
#include "ref842.hpp"
#include "gen842.hpp"
#include <lib842/sw.h>
#include <lib842/common.h>
#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define HAVE_ASAN 1
#endif

using pbt::Gen; using pbt::Ctx; using pbt::Rng; using ref::Bytes;

// Heap buffer of exactly n usable bytes at a chosen alignment; front canary always, back canary without ASan
// (with ASan the allocation ends exactly at the last byte).
struct Buf {
	uint8_t *base, *p; size_t n, front, back;
	Buf(size_t n_, unsigned align = 0, int fill = 0xA5) : n(n_) {
#ifdef HAVE_ASAN
		back = 0; front = align & 15; // no slack in front either, unless a misalignment is wanted
#else
		back = 64; front = 16 + (align & 15);
#endif
		base = (uint8_t *)malloc(front + n + back);
		p = base + front;
		memset(base, 0xC7, front); if (n) memset(p, fill, n); memset(p + n, 0xC9, back);
	}
	Buf(const Bytes &b, unsigned align = 0) : Buf(b.size(), align) { if (n) memcpy(p, b.data(), n); }
	Buf(const Buf &) = delete;
	~Buf() { free(base); }
	bool intact() const {
		for (size_t i = 0; i < front; i++) if (base[i] != 0xC7) return false;
		for (size_t i = 0; i < back; i++) if (p[n + i] != 0xC9) return false;
		return true;
	}
	bool eq(const Bytes &b) const { return b.size() <= n && (b.empty() || memcmp(p, b.data(), b.size()) == 0); }
	Bytes bytes(size_t k) const { return Bytes(p, p + k); }
};

struct Impl {
	const char *name; bool opt;
	lib842_compress_func comp; lib842_decompress_func decomp;
	lib842_compress_chunked_func compc; lib842_decompress_chunked_func decompc;
	const lib842_implementation *(*table)();
};
static const Impl IMPLS[2] = {
	{"sw", false, sw842_compress, sw842_decompress, sw842_compress_chunked, sw842_decompress_chunked, get_sw842_implementation},
	{"optsw", true, optsw842_compress, optsw842_decompress, optsw842_compress_chunked, optsw842_decompress_chunked, get_optsw842_implementation},
};
// entry points: 0 plain, 1 table, 2 chunked with one chunk, 3 chunked through the table
inline int call_comp(const Impl &im, unsigned entry, const uint8_t *in, size_t n, uint8_t *out, size_t *olen) {
	int ret = 12345;
	switch (entry) {
	case 0: return im.comp(in, n, out, olen);
	case 1: return im.table()->compress(in, n, out, olen);
	case 2: im.compc(1, &ret, in, n, &n, out, *olen, olen); return ret;
	default: im.table()->compress_chunked(1, &ret, in, n, &n, out, *olen, olen); return ret;
	}
}
inline int call_decomp(const Impl &im, unsigned entry, const uint8_t *in, size_t n, uint8_t *out, size_t *olen) {
	int ret = 12345;
	switch (entry) {
	case 0: return im.decomp(in, n, out, olen);
	case 1: return im.table()->decompress(in, n, out, olen);
	case 2: im.decompc(1, &ret, in, n, &n, out, *olen, olen); return ret;
	default: im.table()->decompress_chunked(1, &ret, in, n, &n, out, *olen, olen); return ret;
	}
}
// Longest possible compressed form of n bytes ("twice the input plus a small constant" is always enough)
inline size_t ample(size_t n) { return 2 * n + 64; }
inline Bytes compress_ok(Ctx &c, const Impl &im, const Bytes &d) {
	Buf in(d), out(ample(d.size())); size_t ol = out.n;
	int r = im.comp(in.p, d.size(), out.p, &ol);
	if (r != 0) c.fail("%s_compress of %s returned %d with %zu bytes of space", im.name, gen::describe_data(d).c_str(), r, out.n);
	if (ol > out.n) c.fail("%s_compress reports %zu bytes in a buffer of %zu", im.name, ol, out.n);
	return out.bytes(ol);
}
