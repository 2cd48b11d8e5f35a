// C27: the AIX adapter against a simulated accelerator.
#include "common.hpp"
#include <lib842/aix.h>
#include <sys/vminfo.h>

struct Ev { bool comp; const void *in; size_t il; const void *out; size_t ol; int flags; const size_t *olp; };
static std::vector<Ev> evs; static std::vector<std::pair<int, size_t>> answers; static size_t next_answer;
static Ctx *C;
static int serve(bool comp, void *in, size_t ilen, void *out, size_t *olen, int flags) {
	evs.push_back({comp, in, ilen, out, *olen, flags, olen});
	if (next_answer >= answers.size()) C->fail("more accelerator calls (%zu) than chunks to process (%zu)", evs.size(), answers.size());
	*olen = answers[next_answer].second;
	return answers[next_answer++].first;
}
extern "C" int accel_compress(void *in, size_t il, void *out, size_t *ol, int f) { return serve(true, in, il, out, ol, f); }
extern "C" int accel_decompress(void *in, size_t il, void *out, size_t *ol, int f) { return serve(false, in, il, out, ol, f); }

static void c27(Gen &g, Ctx &c) {
	C = &c;
	bool comp = g.chance(1, 2), chunked = g.chance(2, 3), table = g.chance(1, 2);
	size_t n = chunked ? g.logsize(0, c.thorough ? 400 : 60) : 1;
	size_t is = g.logsize(0, 1 << 20), os = g.logsize(0, 1 << 20);
	const uint8_t *in = (const uint8_t *)(uintptr_t)(0x100000000ULL + g.logsize(0, 1 << 16)); // never dereferenced: the accelerator is simulated
	uint8_t *out = (uint8_t *)(uintptr_t)(0x7000000000ULL + g.logsize(0, 1 << 16));
	std::vector<size_t> il(n), ol(n), ol0; std::vector<int> rets(n, 4242); std::vector<std::pair<int, size_t>> want(n);
	bool oneerr = g.chance(1, 2); size_t nskip = 0, nerr = 0;
	evs.clear(); answers.clear(); next_answer = 0;
	for (size_t i = 0; i < n; i++) {
		il[i] = chunked && g.chance(1, 6) ? SIZE_MAX : g.logsize(0, SIZE_MAX - 1); ol[i] = g.logsize(0, SIZE_MAX - 1);
		int r = g.chance(1, oneerr ? 12 : 3) ? -g.pick({EINVAL, ENOSPC, ENOMEM, EIO, 1, 200}) : g.chance(1, 15) ? (int)g.range(1, 5) : 0;
		want[i] = {r, g.logsize(0, SIZE_MAX - 1)};
		if (il[i] != SIZE_MAX) { answers.push_back(want[i]); nerr += r != 0; } else nskip++;
	}
	ol0 = ol;
	auto il0 = il;
	const lib842_implementation *T = get_aix842_implementation();
	int ret;
	if (chunked) {
		auto f = table ? (comp ? T->compress_chunked : T->decompress_chunked) : (comp ? aix842_compress_chunked : aix842_decompress_chunked);
		ret = f(n, rets.data(), in, is, il.data(), out, os, ol.data());
	} else {
		auto f = table ? (comp ? T->compress : T->decompress) : (comp ? aix842_compress : aix842_decompress);
		ret = f(in, il[0], out, &ol[0]);
	}
	const char *what = comp ? (chunked ? "aix842_compress_chunked" : "aix842_compress") : (chunked ? "aix842_decompress_chunked" : "aix842_decompress");
	if (il != il0) c.fail("%s%s changed the caller's input lengths", what, table ? " (table)" : "");
	if (evs.size() != answers.size()) c.fail("%s%s of %zu chunks (%zu skipped) made %zu accelerator calls", what, table ? " (table)" : "", n, nskip, evs.size());
	size_t k = 0; int first = 0;
	for (size_t i = 0; i < n; i++) {
		if (il[i] == SIZE_MAX) {
			if (rets[i] != 4242 || ol[i] != ol0[i]) c.fail("%s: result or length of skipped chunk %zu changed", what, i);
			continue;
		}
		const Ev &e = evs[k++];
		if (e.comp != comp) c.fail("%s%s called accel_%s", what, table ? " (table)" : "", e.comp ? "compress" : "decompress");
		if (e.in != in + i * is || e.out != out + i * os) c.fail("%s chunk %zu: accelerator got buffers %p/%p, expected %p/%p", what, i, e.in, e.out, in + i * is, out + i * os);
		if (e.il != il[i] || e.ol != ol0[i]) c.fail("%s chunk %zu: accelerator got lengths %zu/%zu, expected %zu/%zu", what, i, e.il, e.ol, il[i], ol0[i]);
		if (e.flags != 0) c.fail("%s chunk %zu: flags %d", what, i, e.flags);
		if (chunked && rets[i] != want[i].first) c.fail("%s chunk %zu: result %d, accelerator said %d", what, i, rets[i], want[i].first);
		if (ol[i] != want[i].second) c.fail("%s chunk %zu: length %zu, accelerator said %zu", what, i, ol[i], want[i].second);
		if (!first && want[i].first != 0 && want[i].first != -ENOSPC) first = want[i].first;
	}
	if (ret != (chunked ? first : want[0].first)) c.fail("%s returned %d, expected %d", what, ret, chunked ? first : want[0].first);
	if (T->required_alignment == 0 || T->preferred_alignment == 0) c.fail("table without alignments");
	c.label(what); if (table) c.label("through-table"); if (nskip) c.label("with-skipped-chunks"); if (nerr) c.label("with-accelerator-errors");
	if (n && (nerr || nskip || n > 1)) {
		uint64_t h = pbt::hash_bytes(il.data(), n * 8); h = pbt::mix(h, pbt::hash_bytes(ol0.data(), n * 8)); for (auto &w : want) h = pbt::mix(h, (uint64_t)w.first ^ w.second);
		c.nontrivial(pbt::mix(h, is * 3 + os));
		if (c.want_sample()) c.sample(pbt::fmt("%s%s chunks %zu skipped %zu accelerator errors %zu strides %zu/%zu -> %d", what, table ? " (table)" : "", n, nskip, nerr, is, os, ret));
	}
}
static struct Reg { Reg() {
	pbt::add({"C27", c27, 400000, 20000000, "at least two chunks, a skipped chunk or an accelerator error", 0, nullptr, false, 20});
} } reg;
