// Stands between a sample program and the codec (linked with --wrap): behaves like the codec, except for one planned fault.
// PBT_FAULT="<kind> <call>": kind 1 compression of that call fails, 2 it compresses other data, 3 it does not fit,
// 4 decompression fails leaving the data right, 5 decompresses other data, 6 reports a length that is 8 bytes short.
// Kind 7 is no fault: nothing is compressible, and compression takes no time (it reports all the room it has, or that the data does not fit).
// PBT_FIRED names a file that is created when the fault happened.
#define _GNU_SOURCE
#include <lib842/sw.h>
#include <errno.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static _Atomic unsigned long ncomp, ndecomp;
static int kind = -1; static unsigned long at;
__attribute__((constructor)) static void init(void) { const char *e = getenv("PBT_FAULT"); kind = 0; if (e) sscanf(e, "%d %lu", &kind, &at); }
static void fired(void) { const char *f = getenv("PBT_FIRED"); FILE *h = f ? fopen(f, "w") : NULL; if (h) fclose(h); }

typedef int (*fn)(const uint8_t *, size_t, uint8_t *, size_t *);
static int comp(fn real, const uint8_t *in, size_t n, uint8_t *out, size_t *olen) {
	if (kind == 7) { if (*olen >= 2 * n) return 0; *olen = 0; return -ENOSPC; }
	unsigned long k = kind >= 1 && kind <= 3 ? ncomp++ : 0;
	if (!(kind >= 1 && kind <= 3) || k != at) return real(in, n, out, olen);
	if (kind == 1) { fired(); return -EINVAL; }
	if (kind == 3) { fired(); return -ENOSPC; }
	uint8_t *d = (uint8_t *)aligned_alloc(64, (n + 63) / 64 * 64); if (!d) return -ENOMEM;
	memcpy(d, in, n); if (n) d[n / 2] ^= 0x10;
	int r = real(d, n, out, olen);
	free(d);
	if (r == 0 && n && *olen <= (getenv("PBT_STORED") ? 65512 : SIZE_MAX)) fired(); // else it is stored as it is
	return r;
}
static int decomp(fn real, const uint8_t *in, size_t n, uint8_t *out, size_t *olen) {
	unsigned long k = kind >= 4 && kind <= 6 ? ndecomp++ : 0;
	int r = real(in, n, out, olen);
	if (kind < 4 || kind > 6 || k != at || r || (kind > 4 && !*olen)) return r;
	fired();
	if (kind == 4) return -EINVAL;
	if (kind == 5) { if (*olen) out[*olen - 1] ^= 1; return 0; }
	*olen -= *olen < 8 ? *olen : 8; return 0;
}
// the chunked calls as the header documents them: each chunk in turn, SIZE_MAX skips one, the first error other than -ENOSPC is returned
static int each(fn f, size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) {
	int ret = 0;
	for (size_t i = 0; i < n; i++) {
		if (il[i] == SIZE_MAX) continue;
		rets[i] = f(in + i * is, il[i], out + i * os, &ol[i]);
		if (!ret && rets[i] && rets[i] != -ENOSPC) ret = rets[i];
	}
	return ret;
}
#define DEF(p) \
int __real_##p##842_compress(const uint8_t *, size_t, uint8_t *, size_t *); int __real_##p##842_decompress(const uint8_t *, size_t, uint8_t *, size_t *); \
const struct lib842_implementation *__real_get_##p##842_implementation(void); \
int __wrap_##p##842_compress(const uint8_t *i, size_t n, uint8_t *o, size_t *l) { return comp(__real_##p##842_compress, i, n, o, l); } \
int __wrap_##p##842_decompress(const uint8_t *i, size_t n, uint8_t *o, size_t *l) { return decomp(__real_##p##842_decompress, i, n, o, l); } \
static int p##_cc(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) { return each(__wrap_##p##842_compress, n, rets, in, is, il, out, os, ol); } \
static int p##_dc(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) { return each(__wrap_##p##842_decompress, n, rets, in, is, il, out, os, ol); } \
const struct lib842_implementation *__wrap_get_##p##842_implementation(void) { \
	static const struct lib842_implementation *t; static struct lib842_implementation mine; static _Atomic int state; \
	if (kind <= 0) return __real_get_##p##842_implementation(); \
	int z = 0; if (atomic_compare_exchange_strong(&state, &z, 1)) { mine = *__real_get_##p##842_implementation(); mine.compress = __wrap_##p##842_compress; mine.decompress = __wrap_##p##842_decompress; mine.compress_chunked = p##_cc; mine.decompress_chunked = p##_dc; t = &mine; state = 2; } \
	while (state != 2) ; return t; }
DEF(sw)
DEF(optsw)
