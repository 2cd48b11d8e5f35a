// C21-C24 and the OpenCL half of C02. Three builds: against the OpenCL runtime (host and device interface), and
// -DCL_NATIVE: the kernel compiled natively under AddressSanitizer and called work item by work item; and -DCL_SIM: host
// and device interface under AddressSanitizer against a simulated runtime (simcl.cpp), which also serves C36 and C37 (clfail.hpp).
#include "common.hpp"
#include "malform.hpp"
#include "clcfg.hpp"
#ifdef CL_SIM
#include "simcl.hpp"
#endif
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=16"; }
#endif
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }

typedef std::vector<uint64_t> Sizes;

// One decompression request
struct Job {
	const ClCfg *cfg; size_t n = 0;
	size_t in_off = 0, out_off = 0; // device interface only
	Bytes in, out;                  // whole buffers (out: contents before, then after); in-place: only `in`
	bool has_ilens = true, has_olens = true, has_rets = true, has_perm = false, profile = false, want_time = false;
	std::vector<size_t> ilens, olens, perm; std::vector<int> rets; long long time = 12345;
	std::vector<size_t> in_area; // native: bytes of each chunk's slot that may be read
	bool late_input = false;     // simulated runtime
};
static const int RET_UNSET = 123456;
static const size_t PADW = 4; // guard entries behind every array

#ifndef CL_NATIVE
#include <lib842/cl.h>
#include <dlfcn.h>
#include <sys/uio.h>
#include <sched.h>
#include <atomic>
#include <thread>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
using lib842::CLHostDecompressor; using lib842::CLDeviceDecompressor; using lib842::CLDecompressorInputFormat;

// ---- the program cache file is redirected into the scratch directory, with injectable faults --------------------
namespace cachefs {
enum Fault { NONE, READ_EACCES, READ_ENOENT, WRITE_EACCES, WRITE_EROFS, WRITE_FULL, IS_DIR };
static Fault fault = NONE; static uint64_t opens = 0, writes = 0;
static std::atomic<unsigned> chop{0}; static std::atomic<uint64_t> wfds{0}; // concurrent users: writes to the cache file arrive in pieces, with others in between
static std::string keep; // set: the directory of another process
static std::string dir() { return !keep.empty() ? keep : pbt::scratch + pbt::fmt("/c%u-%d", pbt::worker_id, (int)getpid()); }
static std::string file() { return dir() + "/cl842_cache.bin"; }
static bool ours(const char *p) { return p && strstr(p, "cl842_cache") && strncmp(p, pbt::scratch.c_str(), pbt::scratch.size()) != 0; }
static std::string map(const char *p) { const char *b = strrchr(p, '/'); b = b ? b + 1 : p; mkdir(dir().c_str(), 0755); return dir() + "/" + b; }
static FILE *opened(FILE *f, const char *m, bool ours_) { if (f && ours_ && chop && strpbrk(m, "wa+") && fileno(f) < 64) wfds |= 1ULL << fileno(f); return f; }
static int opened(int fd, bool w) { if (fd >= 0 && fd < 64 && w && chop) wfds |= 1ULL << fd; return fd; }
static bool chopped(int fd) { return chop && fd >= 0 && fd < 64 && (wfds >> fd & 1); }
static size_t piece(size_t n) { static thread_local Rng r(0x9e37 + (uintptr_t)&r); for (unsigned i = r.below(1 + chop); i; i--) sched_yield(); return n > 1 ? 1 + r.below(n) : n; }
// returns false with errno set when the fault applies
static bool open_hook(const char *&p, std::string &s, bool write) {
	if (!ours(p)) return true;
	opens++; if (write) writes++;
	s = map(p); p = s.c_str();
	if (!write && fault == READ_EACCES) { errno = EACCES; return false; }
	if (!write && fault == READ_ENOENT) { errno = ENOENT; return false; }
	if (write && fault == WRITE_EACCES) { errno = EACCES; return false; }
	if (write && fault == WRITE_EROFS) { errno = EROFS; return false; }
	if (write && fault == WRITE_FULL) p = "/dev/full";
	if (fault == IS_DIR) { p = "/"; if (write) { errno = EISDIR; return false; } }
	return true;
}
}
#define NEXT(f) static auto real = (decltype(&f))dlsym(RTLD_NEXT, #f)
extern "C" {
FILE *fopen(const char *p, const char *m) { NEXT(fopen); std::string s; bool w = strpbrk(m, "wa+"), o = cachefs::ours(p); if (!cachefs::open_hook(p, s, w)) return nullptr; return cachefs::opened(real(p, m), m, o); }
FILE *fopen64(const char *p, const char *m) { NEXT(fopen64); std::string s; bool w = strpbrk(m, "wa+"), o = cachefs::ours(p); if (!cachefs::open_hook(p, s, w)) return nullptr; return cachefs::opened(real(p, m), m, o); }
int open(const char *p, int fl, ...) { NEXT(open); va_list a; va_start(a, fl); mode_t md = fl & (O_CREAT | __O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); std::string s; bool o = cachefs::ours(p); if (!cachefs::open_hook(p, s, (fl & O_ACCMODE) != O_RDONLY)) return -1; return cachefs::opened(real(p, fl, md), o && (fl & O_ACCMODE) != O_RDONLY); }
int open64(const char *p, int fl, ...) { NEXT(open64); va_list a; va_start(a, fl); mode_t md = fl & (O_CREAT | __O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); std::string s; bool o = cachefs::ours(p); if (!cachefs::open_hook(p, s, (fl & O_ACCMODE) != O_RDONLY)) return -1; return cachefs::opened(real(p, fl, md), o && (fl & O_ACCMODE) != O_RDONLY); }
int openat(int d, const char *p, int fl, ...) { NEXT(openat); va_list a; va_start(a, fl); mode_t md = fl & (O_CREAT | __O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); std::string s; bool o = cachefs::ours(p); if (!cachefs::open_hook(p, s, (fl & O_ACCMODE) != O_RDONLY)) return -1; return cachefs::opened(real(d, p, fl, md), o && (fl & O_ACCMODE) != O_RDONLY); }
#ifdef CL_SIM
ssize_t write(int fd, const void *p, size_t n) { NEXT(write); return real(fd, p, cachefs::chopped(fd) ? cachefs::piece(n) : n); }
ssize_t writev(int fd, const struct iovec *v, int n) { NEXT(writev); if (!cachefs::chopped(fd) || n < 1) return real(fd, v, n); int i = 0; while (i + 1 < n && !v[i].iov_len) i++; return write(fd, v[i].iov_base, v[i].iov_len); }
#endif
int rename(const char *a, const char *b) __THROW { NEXT(rename); std::string s, t; if (cachefs::ours(a)) { s = cachefs::map(a); a = s.c_str(); } if (cachefs::ours(b)) { t = cachefs::map(b); b = t.c_str(); if (cachefs::fault == cachefs::WRITE_EACCES || cachefs::fault == cachefs::WRITE_EROFS) { errno = EACCES; return -1; } } return real(a, b); }
int unlink(const char *a) __THROW { NEXT(unlink); std::string s; if (cachefs::ours(a)) { s = cachefs::map(a); a = s.c_str(); } return real(a); }
int remove(const char *a) __THROW { NEXT(remove); std::string s; if (cachefs::ours(a)) { s = cachefs::map(a); a = s.c_str(); } return real(a); }
}

// ---- back ends --------------------------------------------------------------------------------------------------
static void cl_init() {
	static bool done = false; if (done) return; done = true;
#ifdef CL_SIM
	simcl::configure_default();
#else
	setenv("POCL_CACHE_DIR", (pbt::scratch + "/pocl").c_str(), 0);
	setenv("POCL_MAX_PTHREAD_COUNT", "2", 0);
	mkdir((pbt::scratch + "/pocl").c_str(), 0755);
#endif
	mkdir(cachefs::dir().c_str(), 0755);
}
static CLDecompressorInputFormat fmt_of(const ClCfg &c) {
	return c.fmt == 0 ? CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS : c.fmt == 1 ? CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS : CLDecompressorInputFormat::INPLACE_COMPRESSED_CHUNKS;
}
static std::string cl_err(const cl::Error &e) { return pbt::fmt("cl::Error %s (%d)", e.what(), e.err()); }

static CLHostDecompressor &host_for(const ClCfg &c, bool profile) {
	static std::map<std::pair<const ClCfg *, bool>, std::unique_ptr<CLHostDecompressor>> m;
	auto &p = m[{&c, profile}];
	if (!p) { cl_init(); p.reset(new CLHostDecompressor(c.cs, c.stride, fmt_of(c), false, profile)); }
	return *p;
}
struct Dev { cl::vector<cl::Device> devs; cl::Context ctx; cl::CommandQueue q; std::unique_ptr<CLDeviceDecompressor> d; };
static cl::vector<cl::Device> find_devs() {
	cl::vector<cl::Platform> ps; cl::Platform::get(&ps);
	for (auto &p : ps) { cl::vector<cl::Device> d; try { p.getDevices(CL_DEVICE_TYPE_CPU | CL_DEVICE_TYPE_GPU, &d); } catch (cl::Error &) { continue; } if (!d.empty()) return d; }
	fprintf(stderr, "no OpenCL device\n"); abort();
}
static Dev &dev_for(const ClCfg &c) {
	static std::map<const ClCfg *, std::unique_ptr<Dev>> m;
	static cl::vector<cl::Device> devs; static cl::Context ctx;
	auto &p = m[&c];
	if (!p) {
		cl_init();
		if (devs.empty()) { devs = find_devs(); ctx = cl::Context(devs); }
		p.reset(new Dev); p->devs = devs; p->ctx = ctx; p->q = cl::CommandQueue(ctx, devs[0]);
		auto lg = []() -> std::ostream & { return std::cerr; };
		p->d.reset(new CLDeviceDecompressor(ctx, devs, c.cs, c.stride, fmt_of(c), lg, lg));
	}
	return *p;
}
static void check_guard(Ctx &c, const std::vector<size_t> &v, size_t n, const char *what) {
	for (size_t i = n; i < v.size(); i++) if (v[i] != 0x5151515151515151ULL) c.fail("entry %zu of %zu of %s was written", i, n, what);
}
static void run_host(Ctx &c, Job &j) {
	CLHostDecompressor &h = host_for(*j.cfg, j.profile);
	bool inplace = j.cfg->fmt == 2;
	Buf in(j.in), out(inplace ? Bytes() : j.out);
	auto padded = [](std::vector<size_t> v) { v.resize(v.size() + PADW, 0x5151515151515151ULL); return v; };
	std::vector<size_t> il = padded(j.ilens), ol = padded(j.olens), pm = padded(j.perm); std::vector<int> rt = j.rets; rt.resize(j.n + PADW, RET_UNSET);
	long long t = j.time;
	try {
		h.decompress(in.p, in.n, j.has_ilens ? il.data() : nullptr, inplace ? in.p : out.p, inplace ? in.n : out.n, j.has_olens ? ol.data() : nullptr,
			     j.has_perm ? pm.data() : nullptr, j.has_rets ? rt.data() : nullptr, j.want_time ? &t : nullptr);
	} catch (const cl::Error &e) { c.fail("CLHostDecompressor::decompress of %zu chunks threw %s", j.n, cl_err(e).c_str()); }
	j.time = t;
	if (!in.intact() || !out.intact()) c.fail("bytes around the host buffers were changed");
	if (!inplace && !in.eq(j.in)) c.fail("the host input buffer was changed");
	if (j.has_ilens && !std::equal(j.ilens.begin(), j.ilens.end(), il.begin())) c.fail("the input sizes were changed");
	if (j.has_perm && !std::equal(j.perm.begin(), j.perm.end(), pm.begin())) c.fail("the shuffle map was changed");
	check_guard(c, il, j.ilens.size(), "inputChunkSizes"); check_guard(c, ol, j.olens.size(), "outputChunkSizes"); check_guard(c, pm, j.perm.size(), "chunkShuffleMap");
	for (size_t i = j.n; i < rt.size(); i++) if (rt[i] != RET_UNSET) c.fail("entry %zu of %zu of returnValues was written", i, j.n);
	if (inplace) j.in = in.bytes(in.n); else j.out = out.bytes(out.n);
	std::copy(ol.begin(), ol.begin() + j.olens.size(), j.olens.begin()); rt.resize(j.n); j.rets = rt;
}
static void run_dev(Ctx &c, Job &j) {
	Dev &d = dev_for(*j.cfg); bool inplace = j.cfg->fmt == 2;
	auto mk = [&](void *p, size_t n) { return cl::Buffer(d.ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, n, p); };
	auto rd = [&](cl::Buffer &b, void *p, size_t n) { d.q.enqueueReadBuffer(b, CL_TRUE, 0, n, p); };
	auto padded = [](const std::vector<size_t> &v) { std::vector<cl_ulong> r(v.begin(), v.end()); r.resize(v.size() + PADW, 0x5151515151515151ULL); return r; };
	std::vector<cl_ulong> il = padded(j.ilens), ol = padded(j.olens), pm = padded(j.perm); std::vector<cl_int> rt = j.rets; rt.resize(j.n + PADW, RET_UNSET);
	auto il0 = il, pm0 = pm;
	Bytes in = j.in, out = j.out; if (out.empty()) out.resize(8);
	// the decoder looks ahead (up to 64 bytes, which the host interface adds) unless it knows where the input ends
	if (!j.has_ilens || inplace) in.resize(in.size() + 64, 0x3d);
	try {
		cl::Buffer bi = mk(in.data(), in.size()), bo = inplace ? bi : mk(out.data(), out.size()), bil, bol, bpm, brt;
		if (j.has_ilens) bil = mk(il.data(), il.size() * 8);
		if (j.has_olens) bol = mk(ol.data(), ol.size() * 8);
		if (j.has_perm) bpm = mk(pm.data(), pm.size() * 8);
		if (j.has_rets) brt = mk(rt.data(), rt.size() * 4);
		cl::Event ev; cl::vector<cl::Event> waits; std::unique_ptr<cl::CommandQueue> q2;
#ifdef CL_SIM
		if (j.late_input) { // the input arrives through another queue, whose event is passed along
			q2.reset(new cl::CommandQueue(d.ctx, d.devs[0])); waits.resize(1);
			cl_uchar z = 0x96; d.q.enqueueFillBuffer(bi, z, 0, in.size()); d.q.finish();
			q2->enqueueWriteBuffer(bi, CL_FALSE, 0, in.size(), in.data(), nullptr, &waits[0]);
		}
#endif
		d.d->decompress(d.q, j.n, bi, j.in_off, bil, bo, inplace ? j.in_off : j.out_off, bol, bpm, brt, waits.empty() ? nullptr : &waits, &ev);
		ev.wait();
		rd(bi, in.data(), in.size()); if (!inplace) rd(bo, out.data(), out.size());
		if (j.has_ilens) rd(bil, il.data(), il.size() * 8);
		if (j.has_olens) rd(bol, ol.data(), ol.size() * 8);
		if (j.has_perm) rd(bpm, pm.data(), pm.size() * 8);
		if (j.has_rets) rd(brt, rt.data(), rt.size() * 4);
	} catch (const cl::Error &e) { c.fail("CLDeviceDecompressor::decompress of %zu chunks threw %s", j.n, cl_err(e).c_str()); }
	in.resize(j.in.size());
	if (!inplace && in != j.in) c.fail("the device input buffer was changed");
	if (il != il0) c.fail("the device input sizes were changed");
	if (pm != pm0) c.fail("the device shuffle map was changed");
	for (size_t i = j.olens.size(); i < ol.size(); i++) if (ol[i] != 0x5151515151515151ULL) c.fail("output size entry %zu beyond the %zu chunks was written", i, j.n);
	for (size_t i = j.n; i < rt.size(); i++) if (rt[i] != RET_UNSET) c.fail("return value entry %zu beyond the %zu chunks was written", i, j.n);
	j.in = in; if (!inplace && !j.out.empty()) j.out = out;
	for (size_t i = 0; i < j.olens.size(); i++) j.olens[i] = ol[i];
	rt.resize(j.n); j.rets = rt;
}
#else
// ---- native kernel under AddressSanitizer ---------------------------------------------------------------------
extern "C" {
typedef void (*kernel_fn)(const uint64_t *in, uint64_t inOffset, const uint64_t *ilen, uint64_t *out, uint64_t outOffset, uint64_t *olen, uint64_t numChunks, const uint64_t *shuffle, int *rets);
extern kernel_fn cl_kernels[]; // generated, one per entry of CLCFGS
}
static size_t cur_gid;
size_t get_global_id(unsigned) { return cur_gid; }
size_t get_local_id(unsigned) { return cur_gid % 256; }
size_t get_group_id(unsigned) { return cur_gid / 256; }
size_t get_local_size(unsigned) { return 256; }
size_t get_global_offset(unsigned) { return 0; }

static void run_native(Ctx &c, Job &j) {
	const ClCfg &f = *j.cfg; bool inplace = f.fmt == 2;
	// the host interface allocates 64 bytes more than the input for the lookahead
	size_t inlen = j.in.size() + 64;
	std::unique_ptr<uint64_t[]> in(new uint64_t[(inlen + 7) / 8]), out(inplace ? nullptr : new uint64_t[(j.out.size() + 7) / 8 + 1]);
	memset(in.get(), 0x3d, inlen); memcpy(in.get(), j.in.data(), j.in.size()); if (out) memcpy(out.get(), j.out.data(), j.out.size());
	auto exact = [](const std::vector<size_t> &v) { std::unique_ptr<uint64_t[]> r(new uint64_t[v.size()]); std::copy(v.begin(), v.end(), r.get()); return r; };
	auto il = exact(j.ilens), ol = exact(j.olens), pm = exact(j.perm); std::unique_ptr<int[]> rt(new int[j.n]); std::copy(j.rets.begin(), j.rets.end(), rt.get());
	uint8_t *ib = (uint8_t *)in.get(), *ob = (uint8_t *)(inplace ? in.get() : out.get());
	size_t obn = inplace ? inlen : j.out.size();
	size_t ioff = j.in_off, ooff = inplace ? j.in_off : j.out_off;
	auto poison = [&]() { ASAN_POISON_MEMORY_REGION(ib, (inlen + 7) / 8 * 8); if (!inplace) ASAN_POISON_MEMORY_REGION(ob, (j.out.size() + 7) / 8 * 8 + 8); };
	size_t groups = (j.n + 255) / 256 * 256;
	poison();
	for (cur_gid = 0; cur_gid < groups; cur_gid++) {
		if (cur_gid >= j.n && cur_gid > j.n + 2 && cur_gid + 1 < groups) continue;
		size_t k = cur_gid < j.n ? (j.has_perm ? j.perm[cur_gid] : cur_gid) : SIZE_MAX;
		size_t a = 0, an = 0, b = 0, bn = 0;
		if (k != SIZE_MAX) {
			a = ioff + k * f.stride;
			an = f.fmt ? f.cs : j.has_ilens ? j.in_area[k] / 8 * 8 : std::min(inlen - a, f.stride + 48);
			b = ooff + k * f.cs; bn = std::min(f.fmt == 0 && j.has_olens ? j.olens[k] / 8 * 8 : f.cs, obn - b);
			ASAN_UNPOISON_MEMORY_REGION(ib + a, an);
			if (!inplace) ASAN_UNPOISON_MEMORY_REGION(ob + b, bn);
		}
		cl_kernels[&f - CLCFGS](in.get(), ioff, j.has_ilens ? il.get() : nullptr, inplace ? in.get() : out.get(), ooff, j.has_olens ? ol.get() : nullptr, j.n, j.has_perm ? pm.get() : nullptr, j.has_rets ? rt.get() : nullptr);
		if (k != SIZE_MAX) { // poison again what this work item could use (8-byte granules)
			ASAN_POISON_MEMORY_REGION(ib + a, an);
			if (!inplace) ASAN_POISON_MEMORY_REGION(ob + b, bn);
		}
	}
	ASAN_UNPOISON_MEMORY_REGION(ib, (inlen + 7) / 8 * 8); if (!inplace) ASAN_UNPOISON_MEMORY_REGION(ob, (j.out.size() + 7) / 8 * 8 + 8);
	if (!inplace && memcmp(ib, j.in.data(), j.in.size())) c.fail("kernel changed its input");
	if (inplace) memcpy(j.in.data(), ib, j.in.size()); else if (j.out.size()) memcpy(j.out.data(), ob, j.out.size());
	std::copy(ol.get(), ol.get() + j.olens.size(), j.olens.begin()); std::copy(rt.get(), rt.get() + j.n, j.rets.begin());
}
#endif

enum Backend { HOST, DEVICE, NATIVE };
static Backend pick_backend(Gen &g) {
#ifdef CL_NATIVE
	(void)g; return NATIVE;
#else
	return g.chance(1, 3) ? DEVICE : HOST;
#endif
}
static void run_job(Ctx &c, Job &j, Backend b) {
#ifdef CL_NATIVE
	run_native(c, j); (void)b;
#else
#ifdef CL_SIM
	{ uint64_t s = pbt::hash_bytes(j.in.data(), std::min<size_t>(j.in.size(), 256), j.n); simcl::order_seed(s & 1 ? s : 0); j.late_input = b == DEVICE && j.cfg->fmt != 2 && (s & 2); }
#endif
	if (b == HOST) run_host(c, j); else run_dev(c, j);
#ifdef CL_SIM
	{ std::string m = simcl::misuse(); if (!m.empty()) c.fail("%s interface, %zu chunks: misuse of OpenCL: %s", b == HOST ? "host" : "device", j.n, m.c_str()); }
#endif
#endif
}

// ---- chunk contents -------------------------------------------------------------------------------------------
static size_t token_bits(const ref::Token &t) {
	if (t.op == ref::OP_REPEAT) return 11;
	size_t b = 5; if (t.op <= 25) for (auto &p : ref::parts(t.op)) b += p.bits;
	return b;
}
// A well-formed stream with at most max_out bytes of data and max_enc encoded bytes, all choices from r
static gen::Stream rng_stream(Rng &r, size_t max_out, size_t max_enc) {
	gen::Stream s; size_t bits = 37, lim = max_enc * 8;
	size_t target = r.below(5) == 0 ? 8 * r.below(max_out / 8 + 1) : max_out / 8 * 8;
	if (max_out > 4096 && !r.chance(1, 3)) target = 8 * r.below(512);
	unsigned profile = r.below(5), idxmode = r.below(5), fav = r.below(26); uint64_t small = r.chance(1, 3) ? 1 + r.next() : 0;
	while (s.out.size() + 8 <= target) {
		ref::Token t; unsigned op; bool ok = false;
		for (int tries = 0; tries < 6 && !ok; tries++) {
			switch (profile) {
			case 0: op = r.below(28); op = op == 26 ? ref::OP_REPEAT : op == 27 ? ref::OP_ZEROS : op; break;
			case 1: op = r.chance(4, 5) ? 1 + r.below(25) : 0; break;
			case 2: op = r.chance(1, 2) ? fav : r.below(26); break;
			case 3: op = r.pick3(ref::OP_REPEAT, ref::OP_ZEROS, r.below(26)); break;
			default: op = r.chance(1, 2) ? 24 + r.below(2) : r.below(26);
			}
			ok = gen::make_token(r, s, op, t, idxmode, small);
			if (ok && bits + token_bits(t) > lim) ok = false;
		}
		if (!ok) {
			if (s.out.size() && r.chance(1, 2)) { t.op = ref::OP_REPEAT; t.v = {r.below(64)}; } else { t.op = ref::OP_ZEROS; t.v.clear(); }
			if (bits + token_bits(t) > lim) break;
		}
		if (t.op == ref::OP_REPEAT && s.out.size() + 8 * (t.v[0] + 1) > target) t.v[0] = (target - s.out.size()) / 8 - 1;
		bits += token_bits(t); gen::apply(s, t);
	}
	return s;
}
struct Chunk { Bytes enc, want; gen::Stream s; bool has_tokens = false; };
static Chunk rng_chunk(Rng &r, size_t max_out, size_t max_enc) { Chunk c; c.s = rng_stream(r, max_out, max_enc); c.enc = c.s.encode(); c.want = c.s.out; c.has_tokens = true; return c; }
// Chunks from a pool of encoder outputs and freshly generated streams
struct Source {
	std::vector<Chunk> pool; uint64_t seed; size_t max_out, max_enc; unsigned pool_pct;
	Source(Gen &g, Ctx &c, size_t mo, size_t me) : max_out(mo), max_enc(me) {
		seed = g.seed(); pool_pct = g.pick({0, 30, 100});
		size_t np = pool_pct ? 1 + g.below(3) : 0;
		for (size_t i = 0; i < np; i++) {
			Bytes d = gen::data(g, mo, true); if (d.size() > mo) d.resize(mo / 8 * 8);
			Chunk k; k.want = d; k.enc = compress_ok(c, IMPLS[g.below(2)], d);
			if (k.enc.size() <= me) pool.push_back(k);
		}
	}
	Chunk get(size_t i) {
		Rng r(pbt::mix(seed, i)); r.next();
		if (!pool.empty() && r.below(100) < pool_pct) return pool[r.below(pool.size())];
		return rng_chunk(r, max_out, max_enc);
	}
};
static void rnd_fill(Rng &r, uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = r.next() >> 11; }
static std::vector<size_t> permutation(Gen &g, size_t n) {
	std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i;
	Rng r(g.seed());
	switch (g.below(3)) {
	case 0: std::reverse(p.begin(), p.end()); break;
	case 1: if (n > 1) std::rotate(p.begin(), p.begin() + 1 + r.below(n - 1), p.end()); break;
	default: for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
	}
	return p;
}
static size_t chunk_count(Gen &g, const ClCfg &f) {
	size_t lim = f.cs >= 65536 ? 6 : f.cs >= 2048 ? 40 : f.cs >= 512 ? 300 : 700, n;
	switch (g.weighted({4, 4, 3, 1})) {
	case 0: n = 1 + g.below(4); break;
	case 1: n = 1 + g.logsize(0, 60); break;
	case 2: n = g.pick({255, 256, 257, 511, 512, 513, 600}); break;
	default: n = 1 + g.below(lim);
	}
	return n > lim ? 1 + n % lim : n;
}
static const ClCfg &pick_cfg(Gen &g, int fmt) {
	std::vector<const ClCfg *> v; for (auto &f : CLCFGS) if (f.fmt == fmt) v.push_back(&f);
	// later entries are bigger and slower
	size_t k = g.chance(1, 2) ? g.below(2) : g.below(v.size());
	return *v[k];
}
static void opt_arrays(Gen &g, Job &j) {
	j.has_ilens = !g.chance(1, 4); j.has_olens = !g.chance(1, 4); j.has_rets = !g.chance(1, 4); j.has_perm = g.chance(1, 3); j.profile = g.chance(1, 6); j.want_time = g.chance(1, 3);
	if (j.has_perm) j.perm = permutation(g, j.n);
	j.rets.assign(j.n, RET_UNSET);
}
static std::string describe_job(const Job &j, Backend b) {
	return pbt::fmt("%s, %zu chunks of %zu/%zu bytes, format %d%s%s%s%s, offsets %zu/%zu, input buffer %zu, output buffer %zu", b == HOST ? "host" : b == DEVICE ? "device" : "native kernel", j.n, j.cfg->cs, j.cfg->stride, j.cfg->fmt,
		j.has_ilens ? "" : ", no input sizes", j.has_olens ? "" : ", no output sizes", j.has_rets ? "" : ", no return values", j.has_perm ? ", shuffled" : "", j.in_off, j.out_off, j.in.size(), j.out.size());
}
static void expect_bytes(Ctx &c, const Job &j, Backend b, size_t i, const uint8_t *got, const Bytes &want, const char *what) {
	if (want.empty() || memcmp(got, want.data(), want.size()) == 0) return;
	size_t k = 0; while (got[k] == want[k]) k++;
	c.fail("%s: chunk %zu (%s): byte %zu of %zu is %02x instead of %02x", describe_job(j, b).c_str(), i, what, k, want.size(), got[k], want[k]);
}
static void check_time(Ctx &c, const Job &j, Backend b) {
	if (b != HOST || !j.want_time) { if (j.time != 12345) c.fail("time was written"); return; }
	if (j.profile ? j.time < 0 : j.time != -1) c.fail("%s: reported time %lld with profiling %s", describe_job(j, b).c_str(), j.time, j.profile ? "on" : "off");
}

// ---- C21 ------------------------------------------------------------------------------------------------------
static void c21_chunks(Gen &g, Ctx &c) {
	const ClCfg &f = pick_cfg(g, 0); Job j; j.cfg = &f; j.n = chunk_count(g, f);
	Backend b = pick_backend(g); opt_arrays(g, j);
	if (b != HOST) { j.in_off = 8 * g.pick({0, 0, 1, 5}); j.out_off = 8 * g.pick({0, 0, 1, 6}); }
	Source src(g, c, f.cs, f.stride);
	Rng r(g.seed()); bool junk = g.chance(1, 2); unsigned sizemode = g.below(3), capmode = g.below(3); bool partial = g.chance(1, 2);
	std::vector<Chunk> ch(j.n); bool varied = false;
	j.in.resize(j.in_off + j.n * f.stride); j.out.resize(j.out_off + j.n * f.cs); rnd_fill(r, j.out.data(), std::min<size_t>(j.out.size(), 4096));
	if (junk) rnd_fill(r, j.in.data(), j.in.size());
	size_t last_cap = f.cs;
	for (size_t i = 0; i < j.n; i++) {
		ch[i] = src.get(i); const Chunk &k = ch[i];
		memcpy(&j.in[j.in_off + i * f.stride], k.enc.data(), k.enc.size());
		size_t room = f.stride - k.enc.size();
		size_t il = k.enc.size() + (sizemode == 0 ? 0 : sizemode == 1 ? room : 8 * r.below(room / 8 + 1));
		size_t cap = capmode == 0 ? k.want.size() : capmode == 1 ? f.cs : k.want.size() + r.below(f.cs - k.want.size() + 1);
		if (i == j.n - 1) last_cap = std::max<size_t>(j.has_olens ? cap : k.want.size(), k.want.size());
		j.ilens.push_back(il); j.in_area.push_back(il); j.olens.push_back(cap);
		if (i && (k.want.size() != ch[0].want.size() || k.enc != ch[0].enc)) varied = true;
	}
	if (partial) { // the last stride / chunk may be incomplete
		size_t il = j.has_ilens ? j.ilens.back() : ch.back().enc.size();
		j.in.resize(j.in_off + (j.n - 1) * f.stride + il);
		j.out.resize(j.out_off + (j.n - 1) * f.cs + last_cap);
	}
	Bytes before = j.out; std::vector<size_t> caps = j.olens;
	run_job(c, j, b);
	for (size_t i = 0; i < j.n; i++) {
		const Chunk &k = ch[i];
		if (j.has_rets && j.rets[i] != 0) c.fail("%s: chunk %zu reports %d; capacity %zu, tokens %s", describe_job(j, b).c_str(), i, j.rets[i], caps[i], gen::describe(k.s.tokens).c_str());
		if (j.has_olens && j.olens[i] != k.want.size()) c.fail("%s: chunk %zu reports %zu bytes instead of %zu", describe_job(j, b).c_str(), i, j.olens[i], k.want.size());
		expect_bytes(c, j, b, i, j.out.data() + j.out_off + i * f.cs, k.want, k.has_tokens ? gen::describe(k.s.tokens).c_str() : "encoder output");
		if (b != HOST && j.has_olens) for (size_t q = caps[i] / 8 * 8; q < f.cs; q++) { size_t a = j.out_off + i * f.cs + q; if (a < j.out.size() && j.out[a] != before[a]) c.fail("%s: byte %zu beyond the capacity %zu of chunk %zu was written", describe_job(j, b).c_str(), q, caps[i], i); }
	}
	if (b != HOST) for (size_t q = 0; q < j.out_off; q++) if (j.out[q] != before[q]) c.fail("%s: byte %zu before the output area was written", describe_job(j, b).c_str(), q);
	check_time(c, j, b);
	c.label(b == HOST ? "host interface" : b == DEVICE ? "device interface" : "native kernel"); c.label(j.n == 1 ? "1 chunk" : j.n <= 256 ? "2-256 chunks" : ">256 chunks");
	if (j.has_perm) c.label("shuffled");
	if (!j.has_ilens) c.label("without input sizes");
	if (!j.has_olens) c.label("without output sizes");
	if (!j.has_rets) c.label("without return values");
	if (partial) c.label("partial last stride");
	if (j.n >= 2 && varied) { c.nontrivial(pbt::hash_bytes(j.in.data(), j.in.size(), j.n * 16 + j.has_ilens + 2 * j.has_olens + 4 * j.has_rets + 8 * j.has_perm)); if (c.want_sample()) c.sample(describe_job(j, b) + "; chunk 0: " + gen::describe(ch[0].s.tokens, 6)); }
}

#ifndef CL_NATIVE
static void c21_simple(Gen &g, Ctx &c) {
	cl_init();
	Bytes enc; const char *lab; bool valid = false; Bytes want;
	switch (g.weighted({4, 2, 4, 1})) {
	case 0: { gen::Stream s = gen::stream(g, 20000, false); enc = s.encode(); want = s.out; valid = true; lab = "well-formed stream"; break; }
	case 1: { want = gen::data(g, g.chance(1, 8) ? 300000 : 20000, true); enc = compress_ok(c, IMPLS[g.below(2)], want); valid = true; lab = "encoder output"; break; }
	case 2: lab = arbitrary_stream(g, enc); enc.resize((enc.size() + 7) / 8 * 8); break;
	default: { Rng r(g.seed()); size_t n = g.pick({90000, 99992, 100000, 100008, 110000, 199992, 200000, 300000}); n -= n % 8; // long literal streams
		want.resize(n * 64 / 69 / 8 * 8 - 8 * r.below(4)); for (auto &x : want) x = r.next() >> 9; enc = compress_ok(c, IMPLS[g.below(2)], want); valid = true; lab = "long stream"; }
	}
	if (valid && g.chance(1, 4)) { size_t n = 8 * g.below(20); Rng r(g.seed()); for (size_t i = 0; i < n; i++) enc.push_back(r.next()); lab = "trailing bytes"; }
	ref::Result q0 = ref::decode(enc.data(), enc.size(), 1 << 21, false, false, false);
	size_t N = q0.out.size(), cap;
	switch (g.weighted({3, 3, 2, 1})) {
	case 0: cap = N; break;
	case 1: cap = N + g.pick({1, 7, 8, 100, 4096}); break;
	case 2: cap = N ? N - 1 - g.below(N < 24 ? N : 24) : 0; break;
	default: cap = g.below(N + 1);
	}
	ref::Result q = ref::decode(enc.data(), enc.size(), cap, false, false, false);
	Buf in(enc), out(cap); size_t ol = cap;
	int ret;
	try { ret = cl842_decompress(in.p, enc.size(), out.p, &ol); }
	catch (...) { c.fail("cl842_decompress threw an exception (%s)", lab); }
	if (!in.eq(enc) || !in.intact() || !out.intact()) c.fail("cl842_decompress changed bytes outside its output (%s)", lab);
	if (q.st == ref::OK) {
		if (ret || ol != q.out.size() || !out.eq(q.out)) c.fail("cl842_decompress of a valid stream (%s, %zu bytes -> %zu, capacity %zu): returned %d, length %zu%s", lab, enc.size(), N, cap, ret, ol, ret == 0 && ol == q.out.size() ? ", wrong bytes" : "");
		Buf o2(cap); size_t l2 = cap; int r2 = sw842_decompress(in.p, enc.size(), o2.p, &l2);
		ref::Result qc = ref::decode(enc.data(), enc.size(), cap, false, true, false);
		if (qc.st == ref::OK && (r2 || l2 != ol || memcmp(o2.p, out.p, ol))) c.fail("sw842_decompress and cl842_decompress disagree");
		c.label("single: decoded");
	} else {
		if (ret >= 0) c.fail("cl842_decompress of a stream that is %s (%s, capacity %zu) returned %d, length %zu", ref::status_name(q.st), lab, cap, ret, ol);
		c.label((std::string("single: ") + ref::status_name(q.st)).c_str());
	}
	if (enc.size() > 99999) c.label("single: more than 99999 bytes");
	if (N >= 8) c.nontrivial(pbt::hash_bytes(enc.data(), enc.size(), cap));
}
#endif
static void c21(Gen &g, Ctx &c) {
#ifndef CL_NATIVE
	if (g.chance(1, 3)) return c21_simple(g, c);
#endif
	c21_chunks(g, c);
}

// ---- C22 ------------------------------------------------------------------------------------------------------
// Would decoding this stream in place, stored in the last bytes of a slot of cs bytes, overtake the lookahead?
static bool inplace_ok(const gen::Stream &s, size_t cs, size_t enc) {
	size_t start = (cs - enc) / 8, bits = 0, k = 0;
	for (auto &t : s.tokens) {
		bits += token_bits(t);
		size_t words = t.op == ref::OP_REPEAT ? t.v[0] + 1 : 1;
		k += words; // last word written: k-1
		if (k - 1 >= start + (bits + 63) / 64 + 6) return false;
	}
	return true;
}
enum Kind { RAW, COMP, SKIPC, BAD };
static void put_comp(uint8_t *slot, size_t cs, const Bytes &enc, uint64_t size) {
	memcpy(slot, LIB842_COMPRESSED_CHUNK_MARKER, 16); memcpy(slot + 16, &size, 8);
	memcpy(slot + cs - enc.size(), enc.data(), enc.size());
}
static void c22(Gen &g, Ctx &c) {
	int fmt = 1 + g.below(2);
	const ClCfg &f = pick_cfg(g, fmt); Job j; j.cfg = &f; j.n = chunk_count(g, f);
	Backend b = pick_backend(g); if (b == HOST && f.stride != f.cs) b = DEVICE; // the host interface wants input and output of the same size
	 opt_arrays(g, j); size_t cs = f.cs;
	if (b != HOST) { j.in_off = 8 * g.pick({0, 0, 1, 5}); j.out_off = 8 * g.pick({0, 0, 1, 6}); }
	size_t room = cs - 24;
	Source src(g, c, cs, room);
	Rng r(g.seed()); unsigned wraw = g.below(4), wcomp = 1 + g.below(4), wskip = g.below(2); unsigned fillmode = g.below(2);
	std::vector<Kind> kind(j.n); std::vector<Chunk> ch(j.n); unsigned cnt[4] = {0, 0, 0, 0};
	j.in.resize(j.in_off + j.n * f.stride); rnd_fill(r, j.in.data(), j.in.size());
	if (fmt == 1) { j.out.resize(j.out_off + j.n * cs); rnd_fill(r, j.out.data(), j.out.size()); }
	for (size_t i = 0; i < j.n; i++) {
		uint64_t w = r.below(wraw + wcomp + wskip); Kind k = w < wraw ? RAW : w < wraw + wcomp ? COMP : SKIPC;
		uint8_t *slot = &j.in[j.in_off + i * f.stride];
		if (k == COMP) {
			bool ok = false;
			for (int t = 0; t < 4 && !ok; t++) {
				ch[i] = src.get(i * 4 + t); ok = ch[i].enc.size() <= room;
				if (ok && fmt == 2) {
					if (!ch[i].has_tokens) { ref::Result q = ref::decode(ch[i].enc.data(), ch[i].enc.size(), cs, true); q.tokens.pop_back(); ch[i].s.tokens = q.tokens; }
					ok = inplace_ok(ch[i].s, cs, ch[i].enc.size());
					if (!ok) c.label("in-place chunk beyond the documented limitation (not used)");
				}
			}
			if (!ok) k = RAW; else { if (fillmode) memset(slot, 0, cs); put_comp(slot, cs, ch[i].enc, ch[i].enc.size()); }
		}
		if (k == SKIPC) { memcpy(slot, LIB842_COMPRESSED_CHUNK_MARKER, 16); memset(slot + 16, 0, 8); ch[i].want.assign(slot, slot + cs); }
		if (k == RAW) {
			switch (r.below(6)) { // nearly a marker
			case 0: memcpy(slot, LIB842_COMPRESSED_CHUNK_MARKER, 16); slot[r.below(16)] ^= 1 << r.below(8); memset(slot + 16, 0, 8); break;
			case 1: memcpy(slot, LIB842_COMPRESSED_CHUNK_MARKER, 8); break;
			case 2: memcpy(slot + 8, LIB842_COMPRESSED_CHUNK_MARKER + 8, 8); break;
			case 3: memset(slot, 0, cs); break;
			}
			ch[i].want.assign(slot, slot + cs);
		}
		kind[i] = k; cnt[k]++;
		// sizes for these formats are embedded; what is passed in must not matter
		j.ilens.push_back(r.chance(1, 2) ? cs : 8 * r.below(cs / 8 + 1)); j.olens.push_back(k == COMP && r.chance(1, 2) ? ch[i].want.size() : cs); j.in_area.push_back(cs);
	}
	Bytes bin = j.in, bout = j.out;
	run_job(c, j, b);
	for (size_t i = 0; i < j.n; i++) {
		size_t wl = kind[i] == COMP ? ch[i].want.size() : cs;
		static const char *nm[] = {"raw", "compressed", "skip"};
		if (j.has_rets && j.rets[i] != 0) c.fail("%s: %s chunk %zu reports %d; tokens %s", describe_job(j, b).c_str(), nm[kind[i]], i, j.rets[i], gen::describe(ch[i].s.tokens).c_str());
		if (j.has_olens && j.olens[i] != wl) c.fail("%s: %s chunk %zu reports %zu bytes instead of %zu", describe_job(j, b).c_str(), nm[kind[i]], i, j.olens[i], wl);
		const uint8_t *got = fmt == 2 ? j.in.data() + j.in_off + i * cs : j.out.data() + j.out_off + i * cs;
		if (kind[i] == SKIPC) {
			if (fmt == 2) expect_bytes(c, j, b, i, got, ch[i].want, "skip");
			else if (b != HOST) { Bytes w(bout.begin() + j.out_off + i * cs, bout.begin() + j.out_off + (i + 1) * cs); expect_bytes(c, j, b, i, got, w, "skip"); }
		} else expect_bytes(c, j, b, i, got, ch[i].want, kind[i] == COMP ? gen::describe(ch[i].s.tokens).c_str() : "raw");
	}
	if (b != HOST) {
		for (size_t q = 0; q < j.in_off; q++) if (j.in[q] != bin[q]) c.fail("byte %zu before the first slot was written", q);
		if (fmt == 1) for (size_t q = 0; q < j.out_off; q++) if (j.out[q] != bout[q]) c.fail("byte %zu before the output area was written", q);
	}
	check_time(c, j, b);
	c.label(fmt == 1 ? "maybe-compressed" : "in place"); c.label(b == HOST ? "host interface" : b == DEVICE ? "device interface" : "native kernel");
	c.label("raw chunks", cnt[RAW]); c.label("compressed chunks", cnt[COMP]); c.label("skip chunks", cnt[SKIPC]);
	if (cnt[COMP] && (cnt[RAW] || cnt[SKIPC])) { c.nontrivial(pbt::hash_bytes(bin.data(), bin.size(), j.n * 16 + j.has_ilens + 2 * j.has_olens + 4 * j.has_rets + 8 * j.has_perm)); if (c.want_sample()) c.sample(describe_job(j, b) + pbt::fmt("; %u raw, %u compressed, %u skip", cnt[RAW], cnt[COMP], cnt[SKIPC])); }
}

// ---- C23 ------------------------------------------------------------------------------------------------------
static void c23(Gen &g, Ctx &c) {
	int fmt = g.weighted({5, 2, 1});
	const ClCfg &f = pick_cfg(g, fmt); Job j; j.cfg = &f; j.n = g.chance(1, 3) ? 1 : chunk_count(g, f); if (j.n > 300) j.n = 300;
	Backend b = pick_backend(g); if (b == HOST && fmt && f.stride != f.cs) b = DEVICE; size_t cs = f.cs;
	j.has_perm = g.chance(1, 4); if (j.has_perm) j.perm = permutation(g, j.n);
	switch (g.below(8)) { case 0: j.has_olens = false; break; case 1: j.has_rets = false; break; case 2: j.has_ilens = false; break; case 3: j.has_ilens = g.chance(1, 2); j.has_olens = g.chance(1, 2); j.has_rets = g.chance(1, 2); }
	if (fmt == 0) j.has_ilens = true; // without them a stream's end cannot be known
	j.rets.assign(j.n, RET_UNSET);
	if (b != HOST) { j.in_off = 8 * g.pick({0, 0, 1, 5}); j.out_off = 8 * g.pick({0, 0, 1, 6}); }
	size_t room = fmt ? cs - 24 : f.stride;
	Source src(g, c, cs, room);
	// a few arbitrary/malformed streams for this case
	std::vector<Bytes> bad; std::vector<const char *> blab;
	for (size_t k = 1 + g.below(3); k-- > 0;) { Bytes x; const char *l = arbitrary_stream(g, x); x.resize((x.size() + 7) / 8 * 8); if (x.size() > room) x.resize(room); if (fmt && x.empty()) x.resize(8); bad.push_back(x); blab.push_back(l); }
	Rng r(g.seed()); unsigned badpct = g.pick({10, 50, 90}); unsigned capmode = g.below(3);
	j.in.resize(j.in_off + j.n * f.stride); rnd_fill(r, j.in.data(), j.in.size());
	if (fmt != 2) { j.out.resize(j.out_off + j.n * cs); rnd_fill(r, j.out.data(), j.out.size()); }
	struct E { Bytes enc; ref::Result q; std::string lab; bool badlen = false, raw = false, loose = false; Bytes want; }; std::vector<E> e(j.n);
	unsigned nbad = 0, ngood = 0;
	for (size_t i = 0; i < j.n; i++) {
		E &x = e[i]; Chunk k = src.get(i); x.enc = k.enc; x.lab = "good"; size_t cap = cs;
		uint8_t *slot = &j.in[j.in_off + i * f.stride];
		bool isbad = r.below(100) < badpct; bool smallcap = false;
		if (isbad) switch (r.below(6)) {
		case 0: if (!k.want.empty()) { smallcap = true; x.lab = "small capacity"; } break;
		case 1: if (x.enc.size() > 8) { x.enc.resize(8 * (1 + r.below(x.enc.size() / 8 - 1))); x.lab = "truncated"; } break;
		case 2: { unsigned n = 1 + r.below(3); while (n--) { uint64_t q = r.below(x.enc.size() * 8); x.enc[q / 8] ^= 1 << (q % 8); } x.lab = "flipped bits"; break; }
		case 3: { x.enc.resize(8 * r.below(room / 8 + 1 < 40 ? room / 8 + 1 : 40)); for (auto &y : x.enc) y = r.next() >> 7; x.lab = "random"; break; }
		default: { size_t q = r.below(bad.size()); x.enc = bad[q]; x.lab = blab[q]; }
		}
		if (fmt && x.enc.empty()) x.enc.resize(8);
		ref::Result full = ref::decode(x.enc.data(), x.enc.size(), cs, false, false, false);
		if (!j.has_olens && isbad) { // nothing then keeps a stream from being decoded beyond the chunk: only those that end or fail before that
			gen::Stream s; if (fmt == 2) { ref::Result q = ref::decode(x.enc.data(), x.enc.size(), cs, true, false, false); s.tokens = q.tokens; }
			if (full.st == ref::NOSPACE || (full.st != ref::OK && full.out.size() + 8 > cs) || (fmt == 2 && (full.st != ref::OK || !inplace_ok(s, cs, x.enc.size())))) {
				isbad = smallcap = false; x.lab = "good"; x.enc = k.enc; if (fmt && x.enc.empty()) x.enc.resize(8); full = ref::decode(x.enc.data(), x.enc.size(), cs, false, false, false);
			}
		}
		if (!j.has_olens) cap = cs; else if (smallcap) cap = r.below(k.want.size()); else if (full.out.size() <= cs) cap = capmode == 0 ? full.out.size() : capmode == 1 ? cs : full.out.size() + r.below(cs - full.out.size() + 1);
		if (fmt && isbad && r.chance(1, 5)) { // size word that does not fit the slot
			x.badlen = true; x.lab = "embedded size beyond the slot"; uint64_t sz = r.pick3(cs + 8, cs + 8 * (1 + r.below(100)), r.chance(1, 2) ? ~7ULL : r.next() | 1ULL << 60); put_comp(slot, cs, Bytes(), sz & ~7ULL);
		} else if (fmt && r.chance(1, 8)) { x.raw = true; x.lab = "raw"; slot[0] ^= slot[0] == LIB842_COMPRESSED_CHUNK_MARKER[0]; x.want.assign(slot, slot + cs); cap = cs; }
		else if (fmt) put_comp(slot, cs, x.enc, x.enc.size());
		else if (!x.enc.empty()) memcpy(slot, x.enc.data(), x.enc.size());
		x.q = ref::decode(x.enc.data(), x.enc.size(), cap, true, false, false);
		if (!x.raw && !x.badlen && x.q.st == ref::OK) x.want = x.q.out;
		if (fmt == 2 && !x.raw && !x.badlen) { // a damaged stream may overtake the lookahead: then only isolation counts
			gen::Stream s; s.tokens = x.q.tokens; if (!s.tokens.empty() && s.tokens.back().op == ref::OP_END) s.tokens.pop_back();
			if (x.q.st != ref::OK || !inplace_ok(s, cs, x.enc.size())) x.loose = true;
		}
		j.ilens.push_back(x.enc.size()); j.in_area.push_back(x.enc.size()); j.olens.push_back(cap);
		bool good = x.raw || (!x.badlen && x.q.st == ref::OK); (good ? ngood : nbad)++;
	}
	Bytes bin = j.in, bout = j.out; std::vector<size_t> caps = j.olens;
	run_job(c, j, b);
	for (size_t i = 0; i < j.n; i++) {
		const E &x = e[i]; bool good = x.raw || (!x.badlen && x.q.st == ref::OK);
		if (x.loose) { if (j.has_rets && j.rets[i] > 0) c.fail("%s: chunk %zu reports %d", describe_job(j, b).c_str(), i, j.rets[i]); continue; }
		const uint8_t *got = fmt == 2 ? j.in.data() + j.in_off + i * cs : j.out.data() + j.out_off + i * cs;
		if (good) {
			if ((j.has_rets && j.rets[i] != 0) || (j.has_olens && j.olens[i] != x.want.size())) c.fail("%s: good chunk %zu (%s, capacity %zu) reports %d, size %zu instead of %zu", describe_job(j, b).c_str(), i, x.lab.c_str(), caps[i], j.rets[i], j.olens[i], x.want.size());
			expect_bytes(c, j, b, i, got, x.want, x.lab.c_str());
		} else if ((j.has_rets && j.rets[i] >= 0) || (j.has_olens && j.olens[i] != 0))
			c.fail("%s: chunk %zu (%s; reference: %s, capacity %zu) reports %d, size %zu instead of a negative result and size 0", describe_job(j, b).c_str(), i, x.lab.c_str(), x.badlen ? "bad embedded size" : ref::status_name(x.q.st), caps[i], j.rets[i], j.olens[i]);
		if (fmt == 0 && !x.raw && j.has_rets) { // same verdict as the optimised decoder, except for the checksum
			ref::Result qc = ref::decode(x.enc.data(), x.enc.size(), caps[i], false, true, false);
			if (qc.st != ref::BAD_CRC && !x.enc.empty()) {
				Buf in(x.enc), o(caps[i]); size_t ol = caps[i]; int ro = optsw842_decompress(in.p, x.enc.size(), o.p, &ol);
				if ((ro == 0) != (j.rets[i] == 0)) c.fail("optsw842_decompress returns %d, the OpenCL decoder %d for a chunk (%s, capacity %zu)", ro, j.rets[i], x.lab.c_str(), caps[i]);
			}
		}
		if (fmt != 2 && b != HOST && !x.raw) for (size_t q = x.badlen ? 0 : caps[i] / 8 * 8; q < cs; q++) { size_t a = j.out_off + i * cs + q; if (j.out[a] != bout[a]) c.fail("%s: byte %zu of chunk %zu (%s), beyond its capacity %zu, was written", describe_job(j, b).c_str(), q, i, x.lab.c_str(), caps[i]); }
		c.label(good ? "good chunk" : x.badlen ? "bad chunk: embedded size" : (std::string("bad chunk: ") + ref::status_name(x.q.st)).c_str());
	}
	if (b != HOST) {
		if (fmt == 2) { for (size_t q = 0; q < j.in_off; q++) if (j.in[q] != bin[q]) c.fail("byte %zu before the first slot was written", q); }
		else for (size_t q = 0; q < j.out_off; q++) if (j.out[q] != bout[q]) c.fail("byte %zu before the output area was written", q);
	}
	if (!j.has_ilens) c.label("without input sizes");
	if (!j.has_olens) c.label("without output sizes");
	if (!j.has_rets) c.label("without return values");
	c.label(fmt == 0 ? "always compressed" : fmt == 1 ? "maybe-compressed" : "in place");
	if (nbad && ngood) { c.nontrivial(pbt::hash_bytes(bin.data(), bin.size(), j.n)); if (c.want_sample()) { std::string s = describe_job(j, b) + pbt::fmt("; %u good, %u bad:", ngood, nbad); for (size_t i = 0; i < j.n && i < 8; i++) s += " [" + e[i].lab + "]"; c.sample(s); } }
}

#ifndef CL_NATIVE
// ---- C02, OpenCL half -----------------------------------------------------------------------------------------
static void c02(Gen &g, Ctx &c) {
	cl_init();
	const Impl &enc = IMPLS[g.below(2)];
	if (g.chance(1, 3)) { // single call
		Bytes d = gen::data(g, g.chance(1, 10) ? 200000 : 20000, true);
		Bytes e = compress_ok(c, enc, d);
		Buf in(e), out(d.size()); size_t ol = d.size();
		int r = cl842_decompress(in.p, e.size(), out.p, &ol);
		if (r || ol != d.size() || !out.eq(d)) c.fail("cl842_decompress of the output of %s_compress (%zu -> %zu bytes): returned %d, length %zu; input %s", enc.name, d.size(), e.size(), r, ol, gen::describe_data(d).c_str());
		c.label("single call"); if (d.size() >= 16) c.nontrivial(pbt::hash_bytes(d.data(), d.size(), enc.opt));
		return;
	}
	static const ClCfg *cf[] = {&CLCFGS[0], &CLCFGS[1], &CLCFGS[3], &CLCFGS[4], &CLCFGS[8]};
	const ClCfg &f = *cf[g.below(5)]; Job j; j.cfg = &f; size_t total = f.cs * (1 + g.below(f.cs >= 4096 ? 6 : 200));
	Bytes d; while (d.size() < total) { Bytes k = gen::data(g, std::min<size_t>(total - d.size(), 40000), true); if (k.empty()) k.resize(8, 1); d.insert(d.end(), k.begin(), k.end()); if (d.size() >= 16 && g.chance(1, 6)) break; }
	d.resize(d.size() / 8 * 8); if (d.size() > total) d.resize(total);
	j.n = (d.size() + f.cs - 1) / f.cs; j.in.assign(j.n * f.stride, 0); j.out.assign(d.size(), 0xEE); j.rets.assign(j.n, RET_UNSET);
	std::vector<int> rets(j.n, RET_UNSET); std::vector<size_t> il(j.n), ol(j.n, f.stride);
	for (size_t i = 0; i < j.n; i++) il[i] = std::min(f.cs, d.size() - i * f.cs);
	// the encoders' chunked entry point writes the layout the OpenCL decoder reads
	{ Buf in(d), out(j.in.size()); enc.compc(j.n, rets.data(), in.p, f.cs, il.data(), out.p, f.stride, ol.data()); j.in = out.bytes(out.n); }
	for (size_t i = 0; i < j.n; i++) { if (rets[i]) c.fail("%s_compress_chunked: chunk %zu of %zu (%zu bytes) returned %d", enc.name, i, j.n, il[i], rets[i]); j.ilens.push_back(ol[i]); j.olens.push_back(il[i]); }
	j.has_ilens = g.chance(2, 3); j.has_olens = g.chance(2, 3);
	Backend b = pick_backend(g); run_job(c, j, b);
	for (size_t i = 0; i < j.n; i++) {
		if (j.rets[i] || (j.has_olens && j.olens[i] != il[i]) || memcmp(&j.out[i * f.cs], &d[i * f.cs], il[i])) c.fail("%s_compress_chunked, %s: chunk %zu of %zu (%zu bytes) decoded to ret %d, size %zu%s", enc.name, describe_job(j, b).c_str(), i, j.n, il[i], j.rets[i], j.olens[i], memcmp(&j.out[i * f.cs], &d[i * f.cs], il[i]) ? ", different bytes" : "");
	}
	c.label("chunked"); if (d.size() >= 16) { c.nontrivial(pbt::hash_bytes(d.data(), d.size(), enc.opt)); if (c.want_sample()) c.sample(std::string(enc.name) + " -> " + describe_job(j, b)); }
}

// ---- C24 ------------------------------------------------------------------------------------------------------
extern const char *LIB842_CLDECOMPRESS_842DEFS_SOURCE;
extern const char *LIB842_CLDECOMPRESS_KERNEL_SOURCE;
static const char *orig_kernel, *orig_defs;

// Other versions of the kernel, which misbehave visibly
static bool set_version(unsigned v) {
	static std::string own, tail, defs;
	LIB842_CLDECOMPRESS_KERNEL_SOURCE = orig_kernel; LIB842_CLDECOMPRESS_842DEFS_SOURCE = orig_defs;
	size_t n = strlen(orig_kernel);
	switch (v) {
	case 0: return true;
	case 1: // same length, everything different
		own = "__kernel void decompress(__global const ulong *in, ulong io, __global const ulong *ilen, __global ulong *out, ulong oo, __global ulong *olen, ulong n, __global const ulong *map, __global int *ret) { size_t i = get_global_id(0); if (i < n && ret) ret[i] = -7; }\n";
		if (own.size() > n) return false;
		own.resize(n, ' '); LIB842_CLDECOMPRESS_KERNEL_SOURCE = own.c_str(); return true;
	case 2: { // same length, differs only near the end: every result is 777
		tail = orig_kernel; size_t p = tail.rfind("= ret;"); if (p == std::string::npos) return false;
		tail.replace(p, 6, "= 777;"); LIB842_CLDECOMPRESS_KERNEL_SOURCE = tail.c_str(); return true;
	}
	case 3: { // same kernel, other definitions
		defs = std::string(orig_defs); size_t p = defs.find("OP_ZEROS\t(0x1C)"); if (p == std::string::npos) return false;
		defs.replace(p, 15, "OP_ZEROS\t(0x1D)"); LIB842_CLDECOMPRESS_842DEFS_SOURCE = defs.c_str(); return true;
	}
	default: // definitions with an addition
		defs = std::string(orig_defs) + "\n#define get_global_id(x) (get_global_id(x)+1)\n"; LIB842_CLDECOMPRESS_842DEFS_SOURCE = defs.c_str(); return true;
	}
}
// configurations that differ in one aspect each
static const ClCfg C24CFG[] = {{64, 160, 0}, {64, 64, 0}, {128, 160, 0}, {64, 64, 1}, {64, 64, 2}};
#ifdef CL_SIM
static unsigned other_device;
static void set_device(unsigned v) { static const char *nm[] = {"Simulated GPU", "simulated GPU", "Simulated GPV", "Simulated GPU2", "Simulated GP"}; other_device = v; simcl::configure({{{true, true, nm[v]}}}); }
#else
// Another device: it reports another name, and what it compiles does not work here (every result is 777)
static unsigned other_device; static unsigned names_asked, sources_replaced;
extern "C" cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t n, void *v, size_t *ret) {
	static auto real = (decltype(&clGetDeviceInfo))dlsym(RTLD_NEXT, "clGetDeviceInfo");
	if (!other_device || what != CL_DEVICE_NAME) return real(d, what, n, v, ret);
	char name[512] = ""; size_t l = 0; cl_int e = real(d, what, sizeof name - 2, name, &l); if (e != CL_SUCCESS || l < 3) return e;
	names_asked++; l = strlen(name);
	switch (other_device) { case 1: name[0] ^= 1; break; case 2: name[l - 1] ^= 1; break; case 3: name[l] = '2'; name[l + 1] = 0; break; default: name[l - 1] = 0; }
	l = strlen(name) + 1; if (ret) *ret = l;
	if (v) { if (n < l) return CL_INVALID_VALUE; memcpy(v, name, l); }
	return CL_SUCCESS;
}
extern "C" cl_program clCreateProgramWithSource(cl_context ctx, cl_uint n, const char **str, const size_t *len, cl_int *err) {
	static auto real = (decltype(&clCreateProgramWithSource))dlsym(RTLD_NEXT, "clCreateProgramWithSource");
	if (!other_device) return real(ctx, n, str, len, err);
	std::string all; for (cl_uint i = 0; i < n; i++) all += len && len[i] ? std::string(str[i], len[i]) : std::string(str[i]);
	size_t p = all.rfind("= ret;"); if (p != std::string::npos) { all.replace(p, 6, "= 777;"); sources_replaced++; }
	const char *a = all.c_str(); size_t l = all.size(); return real(ctx, 1, &a, &l, err);
}
static void set_device(unsigned v) { other_device = v; }
#endif
static bool write_all(const std::string &p, const Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; bool ok = fwrite(b.data(), 1, b.size(), f) == b.size(); return fclose(f) == 0 && ok; }
static Bytes read_all(const std::string &p) { Bytes b; FILE *f = fopen(p.c_str(), "rb"); if (!f) return b; uint8_t t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }

static void c24_decode(Ctx &c, const ClCfg &f, const lib842::CLHostDecompressor &h, Rng &r, const std::string &hist) {
	size_t n = 3; Bytes in(n * f.stride), out(n * f.cs, 0xEE); std::vector<size_t> il(n), ol(n, f.cs); std::vector<int> rt(n, RET_UNSET); std::vector<Bytes> want(n);
	rnd_fill(r, in.data(), in.size());
	for (size_t i = 0; i < n; i++) {
		uint8_t *slot = &in[i * f.stride];
		if (f.fmt && i == 1) { slot[0] = 1; want[i].assign(slot, slot + f.cs); il[i] = f.cs; continue; }
		Chunk k; do { k = rng_chunk(r, f.cs, f.fmt ? f.cs - 24 : f.stride); } while (k.want.size() < 8 || (f.fmt == 2 && !inplace_ok(k.s, f.cs, k.enc.size())));
		if (f.fmt) put_comp(slot, f.cs, k.enc, k.enc.size()); else memcpy(slot, k.enc.data(), k.enc.size());
		want[i] = k.want; il[i] = k.enc.size();
	}
	try { h.decompress(in.data(), in.size(), il.data(), f.fmt == 2 ? in.data() : out.data(), f.fmt == 2 ? in.size() : out.size(), ol.data(), nullptr, rt.data(), nullptr); }
	catch (const cl::Error &e) { c.fail("decompress threw %s after: %s", cl_err(e).c_str(), hist.c_str()); }
	const Bytes &o = f.fmt == 2 ? in : out;
	for (size_t i = 0; i < n; i++) if (rt[i] || ol[i] != want[i].size() || memcmp(&o[i * f.cs], want[i].data(), want[i].size()))
		c.fail("chunk %zu decoded to ret %d, size %zu (expected 0, %zu)%s after: %s", i, rt[i], ol[i], want[i].size(), rt[i] == 0 && ol[i] == want[i].size() ? ", wrong bytes" : "", hist.c_str());
}
#ifdef CL_SIM
// threads that construct decompressors of several configurations at the same time, all with the same cache file
static void c24_concurrent(Gen &g, Ctx &c) {
	cachefs::fault = cachefs::NONE; set_version(0); ::unlink(cachefs::file().c_str());
	unsigned nt = 2 + g.below(4), rounds = 1 + g.below(4), yield = g.pick({0, 300, 700}), chop = g.pick({1, 3, 10}); std::vector<std::vector<std::pair<unsigned, uint64_t>>> plan(nt); std::string d; bool differ = false;
	for (auto &p : plan) { d += "; thread:"; for (unsigned k = 0; k < rounds; k++) { unsigned f = g.below(5); p.push_back({f, g.seed()}); differ |= f != plan[0][0].first; d += pbt::fmt(" %zu/%zu/%d", C24CFG[f].cs, C24CFG[f].stride, C24CFG[f].fmt); } }
	cachefs::wfds = 0; cachefs::chop = chop; simcl::yields(yield); std::atomic<unsigned> ready{0}; std::vector<std::string> bad(nt); std::vector<std::thread> ts;
	for (unsigned i = 0; i < nt; i++) ts.emplace_back([&, i] {
		ready++; while (ready < nt) sched_yield();
		for (auto &s : plan[i]) {
			const ClCfg &f = C24CFG[s.first];
			try { lib842::CLHostDecompressor h(f.cs, f.stride, fmt_of(f), false, false); Rng r(s.second); c24_decode(c, f, h, r, "concurrent constructions sharing the cache file" + d); }
			catch (const cl::Error &e) { bad[i] = cl_err(e); } catch (const std::exception &e) { bad[i] = e.what(); }
		}
	});
	for (auto &t : ts) t.join();
	cachefs::chop = 0; simcl::yields(0);
	for (unsigned i = 0; i < nt; i++) if (!bad[i].empty()) c.fail("constructing a decompressor threw %s while others share the cache file%s", bad[i].c_str(), d.c_str());
	c.label("concurrent constructions"); if (differ) { c.nontrivial(pbt::hash_bytes(d.data(), d.size())); if (c.want_sample()) c.sample(d); }
}
#endif
static void c24(Gen &g, Ctx &c) {
	cl_init();
	if (!orig_kernel) { orig_kernel = LIB842_CLDECOMPRESS_KERNEL_SOURCE; orig_defs = LIB842_CLDECOMPRESS_842DEFS_SOURCE;
#ifndef HAVE_ASAN
		struct rlimit rl = {16ULL << 30, RLIM_INFINITY}; setrlimit(RLIMIT_AS, &rl);
#endif
	}
#ifdef CL_SIM
	if (g.chance(1, 12)) return c24_concurrent(g, c);
#endif
	cachefs::fault = cachefs::NONE; set_version(0);
	std::string path = cachefs::file(); ::unlink(path.c_str());
	std::string hist = "no cache file"; unsigned faults = 0, builds = 0; size_t steps = 2 + g.below(5);
	auto cname = [](const ClCfg &f) { return pbt::fmt("%zu/%zu/%d", f.cs, f.stride, f.fmt); };
	for (size_t s = 0; s < steps; s++) {
		// the state of the cache file
		Bytes b; std::string what; cachefs::fault = cachefs::NONE; unsigned ver = 0;
		switch (g.weighted({3, 2, 4, 3, 1, 1, 2, 3, 2, 2})) {
		case 0: break; // as left by the previous step
		case 1: ::unlink(path.c_str()); what = "file removed"; break;
		case 2: b = read_all(path); if (b.empty()) break; { size_t k = g.chance(1, 2) ? g.below(b.size()) : g.below(b.size() < 120 ? b.size() : 120); what = pbt::fmt("file truncated from %zu to %zu bytes", b.size(), k); b.resize(k); write_all(path, b); } break;
		case 3: b = read_all(path); if (b.empty()) break; { // flipped bits, half of them in the metadata or at the start of the binary
				size_t n = 1 + g.below(3); what = pbt::fmt("bits flipped in the %zu byte file:", b.size());
				for (size_t i = 0; i < n; i++) { size_t lim = g.chance(1, 2) ? b.size() : std::min<size_t>(b.size(), 200), k = g.below(lim); unsigned bit = g.below(8); b[k] ^= 1 << bit; what += pbt::fmt(" %zu.%u", k, bit); }
				write_all(path, b); } break;
		case 4: { size_t n = g.logsize(0, 2000); Rng r(g.seed()); b.resize(n); rnd_fill(r, b.data(), n); write_all(path, b); what = pbt::fmt("file replaced by %zu random bytes", n); break; }
		case 5: write_all(path, Bytes()); what = "file emptied"; break;
		case 6: b = read_all(path); if (b.size() < 40) break; { // one 8-byte word replaced by a size that cannot be right
				size_t k = g.chance(1, 2) ? 8 * g.below(std::min<size_t>(b.size() / 8, 12)) + g.pick({0, 4}) : g.below(std::min<size_t>(b.size() - 8, 100)); uint64_t v = g.pick<uint64_t>({~0ULL, 1ULL << 63, 1ULL << 40, 1ULL << 32, 0x7fffffff, 1000000, 0}); if (k + 8 > b.size()) k = b.size() - 8;
				memcpy(&b[k], &v, 8); write_all(path, b); what = pbt::fmt("8 bytes at %zu set to %llx", k, (unsigned long long)v); } break;
		case 7: { static const char *nm[] = {"", "file unreadable (EACCES)", "file unreadable (ENOENT)", "file not writable (EACCES)", "file not writable (EROFS)", "device full on writing", "a directory in its place"};
				cachefs::fault = (cachefs::Fault)(1 + g.below(6)); what = nm[cachefs::fault]; break; }
		case 9: ver = 100; set_device(1 + g.below(4)); ::unlink(path.c_str()); what = pbt::fmt("cache written for another device (name variant %u)", other_device); break;
		default: ver = 1 + g.below(4); if (set_version(ver)) what = pbt::fmt("cache written by kernel version %u", ver); else { set_version(0); ver = 0; }
		}
		if (!what.empty()) { faults++; hist += "; " + what; }
		const ClCfg &f = C24CFG[g.below(5)];
		if (ver) { // an instance of the other version fills the cache; only its construction is of interest
			try { lib842::CLHostDecompressor h(f.cs, f.stride, fmt_of(f), false, false); }
			catch (const cl::Error &e) { c.fail("constructing %s threw %s after: %s", cname(f).c_str(), cl_err(e).c_str(), hist.c_str()); }
			catch (const std::exception &e) { c.fail("constructing %s threw %s after: %s", cname(f).c_str(), e.what(), hist.c_str()); }
			hist += " (" + cname(f) + ")"; set_version(0); if (other_device) set_device(0);
		}
		const ClCfg &f2 = ver && g.chance(3, 4) ? f : C24CFG[g.below(5)];
		hist += "; construct " + cname(f2);
		try {
			lib842::CLHostDecompressor h(f2.cs, f2.stride, fmt_of(f2), g.chance(1, 8), false);
			Rng r(g.seed()); c24_decode(c, f2, h, r, hist); builds++;
		}
		catch (const cl::Error &e) { c.fail("constructing the decompressor threw %s: %s", cl_err(e).c_str(), hist.c_str()); }
		catch (const std::exception &e) { c.fail("constructing the decompressor threw %s: %s", e.what(), hist.c_str()); }
		cachefs::fault = cachefs::NONE;
		{ std::string l = what; for (auto k : {"truncated", "bits flipped", "random bytes", "8 bytes at", "kernel version", "another device"}) if (l.find(k) != std::string::npos) l = k;
		c.label(what.empty() ? "cache as left by the last step" : l.c_str()); }
	}
	if (!cachefs::opens) { static bool said; if (!said) { said = true; c.label("cache file never opened (no cache in use)"); } }
	if (faults && builds >= 2) { c.nontrivial(pbt::hash_bytes(hist.data(), hist.size())); if (c.want_sample()) c.sample(hist); }
}
#endif

#ifdef CL_SIM
// ---- layouts beyond 4 GiB (buffers are mostly never touched) --------------------------------------
namespace huge {
static bool room(Ctx &c, size_t dev, size_t host) {
	size_t avail = 0; if (FILE *f = fopen("/proc/meminfo", "r")) { char l[200]; while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %zu", &avail) == 1) break; fclose(f); }
	cl_init(); size_t lim = find_devs()[0].getInfo<CL_DEVICE_MAX_MEM_ALLOC_SIZE>();
	if (avail / 1024 < 4096 + host / 1048576 || lim < dev) { c.label("layout beyond 4 GiB: not enough memory"); return false; }
	return true;
}
struct Map { uint8_t *p; size_t n; Map(size_t n) : p((uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)), n(n) { madvise(p, n, MADV_NOHUGEPAGE); } ~Map() { munmap(p, n); } };
static std::vector<Chunk> chunks(Rng &r, size_t n, size_t cs, size_t enc, int fmt) {
	std::vector<Chunk> v(n);
	for (auto &k : v) { do k = rng_chunk(r, std::min<size_t>(cs, 30000), std::min<size_t>(enc, 20000)); while (k.want.size() < std::min<size_t>(cs, 400) / 2 || (fmt == 2 && !inplace_ok(k.s, cs, k.enc.size()))); }
	return v;
}
static void verify(Ctx &c, const std::string &d, const std::vector<Chunk> &ch, const int *rets, const cl_ulong *ol, const std::function<const uint8_t *(size_t, size_t)> &get) {
	for (size_t i = 0; i < ch.size(); i++) {
		const Bytes &w = ch[i].want;
		if (rets[i]) c.fail("%s: chunk %zu reports %d", d.c_str(), i, rets[i]);
		if (ol[i] != w.size()) c.fail("%s: chunk %zu reports %zu bytes instead of %zu", d.c_str(), i, (size_t)ol[i], w.size());
		if (memcmp(get(i, w.size()), w.data(), w.size())) c.fail("%s: chunk %zu is not restored at its place", d.c_str(), i);
	}
	c.label("layout beyond 4 GiB"); c.nontrivial(pbt::hash_bytes(d.data(), d.size()));
}
static void dev(Ctx &c, Rng &r, size_t cs, size_t stride, size_t n, size_t inoff, size_t outoff, int fmt) {
	size_t insz = inoff + n * stride + 64, outsz = outoff + n * cs;
	std::string d = pbt::fmt("device interface, %zu chunks of %zu/%zu bytes, format %d, offsets %zu/%zu", n, cs, stride, fmt, inoff, outoff);
	if (!room(c, std::max(insz, outsz), size_t(2) << 30)) return;
	ClCfg f{cs, stride, fmt};
	auto ch = chunks(r, n, cs, fmt ? cs - 24 : stride, fmt);
	std::vector<cl_ulong> il(n), ol(n, cs); std::vector<cl_int> rt(n, RET_UNSET);
	try {
		cl::vector<cl::Device> devs = find_devs(); cl::Context ctx(devs); cl::CommandQueue q(ctx, devs[0]);
		auto lg = []() -> std::ostream & { return std::cerr; };
		CLDeviceDecompressor dd(ctx, devs, cs, stride, fmt_of(f), lg, lg);
		cl::Buffer bi(ctx, CL_MEM_READ_WRITE, insz), bo = fmt == 2 ? bi : cl::Buffer(ctx, CL_MEM_READ_WRITE, outsz);
		for (size_t i = 0; i < n; i++) {
			size_t at = inoff + i * stride; const Bytes &e = ch[i].enc; il[i] = fmt ? cs : e.size();
			if (fmt) { Bytes h(24); memcpy(h.data(), LIB842_COMPRESSED_CHUNK_MARKER, 16); uint64_t sz = e.size(); memcpy(&h[16], &sz, 8); q.enqueueWriteBuffer(bi, CL_TRUE, at, 24, h.data()); at += cs - e.size(); }
			q.enqueueWriteBuffer(bi, CL_TRUE, at, e.size(), e.data());
		}
		cl::Buffer bil(ctx, CL_MEM_READ_ONLY | CL_MEM_COPY_HOST_PTR, n * 8, il.data()), bol(ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, n * 8, ol.data()), brt(ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, n * 4, rt.data());
		cl::Event ev; dd.decompress(q, n, bi, inoff, bil, bo, fmt == 2 ? inoff : outoff, bol, cl::Buffer(), brt, nullptr, &ev); ev.wait();
		q.enqueueReadBuffer(bol, CL_TRUE, 0, n * 8, ol.data()); q.enqueueReadBuffer(brt, CL_TRUE, 0, n * 4, rt.data());
		Bytes tmp;
		verify(c, d, ch, rt.data(), ol.data(), [&](size_t i, size_t k) { tmp.resize(k); if (k) q.enqueueReadBuffer(bo, CL_TRUE, (fmt == 2 ? inoff : outoff) + i * cs, k, tmp.data()); return tmp.data(); });
	} catch (const cl::Error &e) { if (e.err() == CL_MEM_OBJECT_ALLOCATION_FAILURE || e.err() == CL_OUT_OF_HOST_MEMORY || e.err() == CL_OUT_OF_RESOURCES) { c.label("layout beyond 4 GiB: allocation refused"); return; } c.fail("%s: %s", d.c_str(), cl_err(e).c_str()); }
}
static void host(Ctx &c, Rng &r, size_t cs, size_t stride, size_t n) {
	size_t insz = (n - 1) * stride, outsz = (n - 1) * cs;
	auto ch = chunks(r, n, cs, stride, 0); insz += std::min(stride, ch.back().enc.size()); outsz += std::max<size_t>(8, ch.back().want.size());
	std::string d = pbt::fmt("host interface, %zu chunks of %zu/%zu bytes, buffers of %zu and %zu bytes", n, cs, stride, insz, outsz);
	if (!room(c, std::max(insz, outsz) + 64, 2 * (insz + outsz))) return;
	Map in(insz), out(outsz); if (in.p == MAP_FAILED || out.p == MAP_FAILED) { c.label("layout beyond 4 GiB: allocation refused"); return; }
	std::vector<size_t> il(n), ol(n, cs); std::vector<int> rt(n, RET_UNSET); ol.back() = outsz - (n - 1) * cs;
	for (size_t i = 0; i < n; i++) { memcpy(in.p + i * stride, ch[i].enc.data(), ch[i].enc.size()); il[i] = ch[i].enc.size(); }
	ClCfg f{cs, stride, 0};
	try { CLHostDecompressor(cs, stride, fmt_of(f), false, false).decompress(in.p, insz, il.data(), out.p, outsz, ol.data(), nullptr, rt.data(), nullptr); }
	catch (const cl::Error &e) { if (e.err() == CL_MEM_OBJECT_ALLOCATION_FAILURE || e.err() == CL_OUT_OF_HOST_MEMORY || e.err() == CL_OUT_OF_RESOURCES) { c.label("layout beyond 4 GiB: allocation refused"); return; } c.fail("%s: %s", d.c_str(), cl_err(e).c_str()); }
	std::vector<cl_ulong> o(ol.begin(), ol.end());
	verify(c, d, ch, rt.data(), o.data(), [&](size_t i, size_t) { return out.p + i * cs; });
}
static const size_t G = G_;
// one stream that expands to more than 4 GiB
static void long_stream(Ctx &c) {
	const size_t P = (64 << 20) + 3 * 4096, N = 4 * G + 300008, cap = G / 2;
	if (!room(c, N, 6 * G)) return;
	int fd = memfd_create("beyond", 0); Map in(N + P), enc(cap); if (fd < 0 || ftruncate(fd, P) || in.p == MAP_FAILED || enc.p == MAP_FAILED) { c.label("layout beyond 4 GiB: allocation refused"); return; }
	for (size_t i = 0; i + P <= N + P; i += P) if (mmap(in.p + i, P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { c.label("layout beyond 4 GiB: allocation refused"); return; }
	close(fd);
	Rng r(97);
	for (size_t i = 0; i < P; i += 4096) { uint64_t w[3] = {r.next(), r.next() & 0xffff, 0}; bool rnd = i % (1 << 20) == 0; for (size_t k = 0; k < 4096; k += 8) { uint64_t v = rnd ? r.next() >> r.below(40) : w[(i >> 12) % 5 == 4 ? (k >> 3) % 3 : (i >> 12) % 3]; memcpy(in.p + i + k, &v, 8); } }
	size_t el = cap; if (optsw842_compress(in.p, N, enc.p, &el)) { c.label("layout beyond 4 GiB: not compressed"); return; }
	std::string d = pbt::fmt("device interface, a stream of %zu bytes for %zu bytes of data", el, N);
	ClCfg f{5 * G, 1024, 0};
	try {
		cl::vector<cl::Device> devs = find_devs(); cl::Context ctx(devs); cl::CommandQueue q(ctx, devs[0]);
		auto lg = []() -> std::ostream & { return std::cerr; };
		CLDeviceDecompressor dd(ctx, devs, f.cs, f.stride, fmt_of(f), lg, lg);
		cl::Buffer bi(ctx, CL_MEM_READ_WRITE, el + 64), bo(ctx, CL_MEM_READ_WRITE, N); q.enqueueWriteBuffer(bi, CL_TRUE, 0, el, enc.p);
		cl_ulong il = el, ol = N; cl_int rt = RET_UNSET;
		cl::Buffer bil(ctx, CL_MEM_READ_ONLY | CL_MEM_COPY_HOST_PTR, (size_t)8, &il), bol(ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, (size_t)8, &ol), brt(ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, (size_t)4, &rt);
		cl::Event ev; dd.decompress(q, 1, bi, 0, bil, bo, 0, bol, cl::Buffer(), brt, nullptr, &ev); ev.wait();
		q.enqueueReadBuffer(bol, CL_TRUE, 0, 8, &ol); q.enqueueReadBuffer(brt, CL_TRUE, 0, 4, &rt);
		if (rt || ol != N) c.fail("%s: reports %d, %zu bytes", d.c_str(), rt, (size_t)ol);
		Bytes t(1 << 20);
		for (size_t i = 0; i < N; i += t.size()) { size_t k = std::min(t.size(), N - i); q.enqueueReadBuffer(bo, CL_TRUE, i, k, t.data()); if (memcmp(t.data(), in.p + i, k)) c.fail("%s: differs between bytes %zu and %zu", d.c_str(), i, i + k); }
	} catch (const cl::Error &e) { if (e.err() == CL_MEM_OBJECT_ALLOCATION_FAILURE || e.err() == CL_OUT_OF_HOST_MEMORY || e.err() == CL_OUT_OF_RESOURCES) { c.label("layout beyond 4 GiB: allocation refused"); return; } c.fail("%s: %s", d.c_str(), cl_err(e).c_str()); }
	c.label("stream beyond 4 GiB"); c.nontrivial(pbt::hash_bytes(d.data(), d.size()));
}
static void c21(uint64_t i, Ctx &c) {
	if (i == 1) { if (c.thorough) long_stream(c); return; }
	Rng r(4242);
	host(c, r, 512, 2 * G + 64, 3);
	host(c, r, 2 * G + 64, 512, 3);
	dev(c, r, G + 8, G - 8, 6, 0, 0, 0);
	dev(c, r, 512, 1024, 300, 5 * G, 4 * G + 8, 0);
	dev(c, r, 5 * G, 1024, 2, 8, 16, 0);
	dev(c, r, 16, 5 * G, 2, 16, 8, 0);
}
static void c22(uint64_t, Ctx &c) {
	Rng r(4243);
	dev(c, r, G + 8, G + 8, 6, 8, 0, 1);
	dev(c, r, G + 16, G + 16, 6, 0, 0, 2);
	dev(c, r, 512, 512, 300, 5 * G, 4 * G + 8, 1);
	dev(c, r, 512, 512, 300, 5 * G, 5 * G, 2);
	dev(c, r, 5 * G, 5 * G, 2, 0, 8, 1);
	dev(c, r, 5 * G, 5 * G, 2, 8, 8, 2);
}
}
#endif
#ifdef CL_SIM
#include "clfail.hpp"
#endif
static struct Reg { Reg() {
#ifdef CL_NATIVE
#define SUF " (kernel compiled natively under AddressSanitizer, everything outside the chunk's own areas poisoned)"
#else
#ifdef CL_SIM
#define SUF " (host code under AddressSanitizer, simulated OpenCL runtime)"
	pbt::add({"C36", c36, 6000, 300000, "a call of the runtime or an allocation really failed, or the program did not build", 0, nullptr, false, 120});
	pbt::add({"C38", c38, 8000, 400000, "at least one request that has to be refused, followed by one that has to work", 0, nullptr, false, 120});
	pbt::add({"C37", c37, 8000, 400000, "several devices to choose between or none at all, input arriving through another queue, or threads sharing a decompressor", 0, nullptr, false, 120});
#else
#define SUF ""
#endif
	pbt::add({"C02", c02, 4000, 200000, "at least 16 bytes of data decoded by the OpenCL decoder after either encoder", 0, nullptr, false, 120});
	pbt::add({"C24", c24, 400, 30000, "at least one disturbance of the cache file and two constructions with decoding", 0, nullptr, false, 300});
#endif
	pbt::add({"C33", [](Gen &g, Ctx &c) { switch (g.below(3)) { case 0: return c21(g, c); case 1: return c22(g, c); default: return c23(g, c); } }, 3000, 100000, "the non-trivial cases of the underlying property, with a build switch changed", 0, nullptr, false, 120});
#ifdef CL_SIM
	pbt::add({"C21", c21, 6000, 400000, "at least two chunks with different contents, or a single stream of at least 8 bytes" SUF, 2, huge::c21, false, 120});
#else
	pbt::add({"C21", c21, 6000, 400000, "at least two chunks with different contents, or a single stream of at least 8 bytes" SUF, 0, nullptr, false, 120});
#endif
#ifdef CL_SIM
	pbt::add({"C22", c22, 6000, 400000, "compressed chunks mixed with raw or skipped ones" SUF, 1, huge::c22, false, 120});
#else
	pbt::add({"C22", c22, 6000, 400000, "compressed chunks mixed with raw or skipped ones" SUF, 0, nullptr, false, 120});
#endif
	pbt::add({"C23", c23, 6000, 400000, "good and bad chunks mixed" SUF, 0, nullptr, false, 120});
} } reg;
