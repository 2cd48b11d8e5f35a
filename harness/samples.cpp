// C34: the sample programs (built from the repository's sample directory with the sanitizers) run on generated files, with and
// without one planned fault of the codec: they must report success exactly if everything went well.
#include "common.hpp"
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <spawn.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
extern char **environ;

struct Prog { const char *name, *env; bool opt, stream; int cl; size_t chunk; }; // cl: 0 none, 1 always, 2 maybe, 3 in place
static const Prog PROGS[] = {
	{"serial", "VERIF_S_SERIAL", false, false, 0, 65536},
	{"serial optimized", "VERIF_S_OPT", true, false, 0, 65536},
	{"streams", "VERIF_S_STREAMS", true, true, 0, 1 << 20},
	{"streams (thread sanitizer)", "VERIF_S_TSAN", true, true, 0, 1 << 20},
	{"OpenCL", "VERIF_S_CL", true, false, 1, 65536},
	{"OpenCL maybe", "VERIF_S_MAYBE", true, false, 2, 65536},
	{"OpenCL in place", "VERIF_S_INPLACE", true, false, 3, 65536},
};
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static int run_prog(const std::vector<std::string> &args, const std::vector<std::string> &env, const std::string &log) {
	std::vector<char *> av, ev; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
	for (char **e = environ; *e; e++) if (strncmp(*e, "PBT_", 4) && strncmp(*e, "OMP_", 4) && strncmp(*e, "COMPDECOMP", 10) && strncmp(*e, "ASAN_", 5) && strncmp(*e, "TSAN_", 5)) ev.push_back(*e);
	for (auto &a : env) ev.push_back((char *)a.c_str()); ev.push_back(nullptr);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	posix_spawn_file_actions_adddup2(&fa, 1, 2);
	pid_t p; int e = posix_spawn(&p, av[0], &fa, nullptr, av.data(), ev.data());
	posix_spawn_file_actions_destroy(&fa);
	if (e) return -1;
	int st; waitpid(p, &st, 0);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}
// same rule as for C22: streams whose decoding in place overtakes the kernel's lookahead are outside the format's promise
static bool inplace_ok(const uint8_t *enc, size_t elen, size_t cs) {
	auto r = ref::decode(enc, elen, cs, true); if (r.st != ref::OK) return false;
	size_t start = (cs - elen) / 8, bits = 0, k = 0;
	for (auto &t : r.tokens) {
		ref::BitWriter w; ref::put_token(w, t); bits += w.nbits;
		k += t.op == ref::OP_REPEAT ? t.v[0] + 1 : 1;
		if (k - 1 >= start + (bits + 63) / 64 + 6) return false;
	}
	return true;
}
static void c34(Gen &g, Ctx &c) {
	const Prog &P = PROGS[g.weighted({6, 6, 6, 2, 2, 2, 1})];
	const char *exe = getenv(P.env);
	if (!exe || !*exe) { c.label("program-not-built"); return; }
	static std::string dir;
	if (dir.empty()) { mkdir(pbt::scratch.c_str(), 0700); }
	dir = pbt::scratch + pbt::fmt("/samples-%u-%d", pbt::worker_id, (int)getpid());
	mkdir(dir.c_str(), 0700);
	std::string file = dir + "/file", log = dir + "/log", firedf = dir + "/fired"; unlink(firedf.c_str());
	// the file
	bool nofile = g.chance(1, 40);
	Bytes d;
	size_t maxchunks = P.stream ? 5 : 40;
	if (!nofile) switch (g.weighted({1, 3, 3, 6})) {
	case 0: break;
	case 1: d = gen::data(g, P.chunk, false); break;
	case 2: { size_t n = P.chunk * g.range(0, 3) + g.pick({0, 1, 7, 8, 65535, 65528}); d.resize(n > P.chunk ? n : n + P.chunk); size_t i = 0; while (i < d.size()) { Bytes s = gen::data(g, 65536, false); for (auto b : s) { if (i >= d.size()) break; d[i++] = b; } if (s.empty()) i += 64; } break; }
	default: {
		size_t n = 1 + (P.stream || g.chance(1, 2) ? g.range(1, maxchunks) : g.logsize(1, maxchunks)), cs = 65536, m = P.stream ? (n - 1) * 16 + g.below(16) : n;
		Rng r(g.seed()); unsigned mix = (unsigned)g.below(4);
		for (size_t i = 0; i < m; i++) { // chunk by chunk: incompressible, zero, text-like, short period
			unsigned k = mix == 0 ? 0 : mix == 1 ? (unsigned)r.below(2) : (unsigned)r.below(4);
			Bytes s(cs);
			if (k == 0) for (auto &b : s) b = r.next();
			else if (k == 1) { size_t z = r.below(cs + 1); for (size_t q = z; q < cs; q++) s[q] = r.next(); } // partly zero
			else if (k == 2) for (auto &b : s) b = "etaoin shrdlu"[r.below(13)];
			else { size_t per = 1 + r.below(3000); for (size_t q = 0; q < cs; q++) s[q] = q < per ? r.next() : s[q - per]; }
			d.insert(d.end(), s.begin(), s.end());
		}
		d.resize(d.size() - g.pick({0, 0, 1, 8, 4095, 65535}));
	} }
	if (!nofile) { std::ofstream f(file, std::ios::binary); f.write((const char *)d.data(), (std::streamsize)d.size()); }
	// what the program sees: the data, padded to whole chunks with zeros (without a file a fixed text of 32 bytes)
	Bytes in = d; size_t ilen = nofile ? 32 : (d.size() + P.chunk - 1) / P.chunk * P.chunk; in.resize(ilen);
	bool bench = ilen > P.chunk; size_t chunks = bench ? ilen / 65536 : 1;
	size_t want = 0, ncompressible = 0; bool inpl = true;
	if (!nofile) for (size_t i = 0; i < chunks; i++) {
		size_t n = bench ? 65536 : ilen, cap = bench && !P.cl && !P.stream ? n : 2 * n + 64, o = cap; Bytes b(cap);
		int r = (P.opt ? optsw842_compress : sw842_compress)(in.data() + i * 65536, n, b.data(), &o);
		if (bench && P.stream && o > 65512) r = -ENOSPC;
		if (bench && P.cl >= 2 && o > 65512) { // stored as it is: must not look compressed
			if (!memcmp(in.data() + i * 65536, gen::MARKER, 16)) c.skip();
			want += o; continue;
		}
		if (r) { want += n; continue; }
		want += o; ncompressible++;
		if (bench && P.cl == 3 && !inplace_ok(b.data(), o, 65536)) inpl = false;
	}
	if (P.cl == 3 && !inpl) { c.skip(); }
	// the fault
	int kind = 0; unsigned long at = 0;
	if (g.chance(1, 2)) {
		kind = P.cl ? 2 : (int)g.pick({1, 2, 3, 4, 5, 6});
		if (kind == 6 && P.stream && bench) kind = 5; // the stream hands out no lengths
		at = g.below(kind >= 4 ? (ncompressible ? ncompressible : 1) : chunks);
	}
	std::vector<std::string> env = {pbt::fmt("OMP_NUM_THREADS=%d", (int)g.pick({1, 2, 3, 4, 7})), pbt::fmt("COMPDECOMP_NUM_THREADS=%d", (int)g.pick({1, 2, 3, 5, 8})),
		"ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16", "UBSAN_OPTIONS=halt_on_error=1:exitcode=98",
		"TSAN_OPTIONS=halt_on_error=1:exitcode=66:report_signal_unsafe=0", "PBT_FIRED=" + firedf,
		"POCL_CACHE_DIR=" + pbt::scratch + "/pocl", "POCL_MAX_PTHREAD_COUNT=2", "XDG_CACHE_HOME=" + pbt::scratch + "/cache", "HOME=" + pbt::scratch};
	if (g.chance(1, 4)) env.push_back("COMPDECOMP_NUMA_SPREAD=1");
	if (bench && (P.stream || P.cl >= 2)) env.push_back("PBT_STORED=1");
	if (kind) env.push_back(pbt::fmt("PBT_FAULT=%d %lu", kind, at));
	std::vector<std::string> args = {exe}; if (!nofile) args.push_back(file);
	int st = run_prog(args, env, log);
	std::string out = slurp(log); bool fired = access(firedf.c_str(), F_OK) == 0;
	unlink(file.c_str()); unlink(log.c_str()); unlink(firedf.c_str()); rmdir(dir.c_str());
	static const char *FN[] = {"no fault", "a compression failing", "a compression of other data", "a chunk not fitting", "a decompression failing", "a decompression to other data", "a decompression to a shorter length"};
	std::string what = pbt::fmt("sample \"%s\", %s, %s at call %lu", P.name, nofile ? "no file" : pbt::fmt("file of %zu bytes (%zu of %zu chunks compressible)", d.size(), ncompressible, chunks).c_str(), FN[kind], at);
	bool said = out.find("was successful!") != std::string::npos;
	auto tail = [&] { return out.size() > 1500 ? out.substr(0, 1000) + "..." + out.substr(out.size() - 500) : out; };
	if (st != 0 && st != 1) c.fail("%s: ended with status %d\n%s", what.c_str(), st, tail().c_str());
	if ((st == 0) != said) c.fail("%s: status %d, but the output says %s\n%s", what.c_str(), st, said ? "success" : "no success", tail().c_str());
	bool ok = !fired || (kind == 3 && bench);
	if (ok && st) c.fail("%s: reports failure\n%s", what.c_str(), tail().c_str());
	if (!ok && !st) c.fail("%s: reports success", what.c_str());
	if (st == 0 && !nofile) {
		auto num = [&](const char *k) -> long long { size_t p = out.find(k); return p == std::string::npos ? -1 : atoll(out.c_str() + p + strlen(k)); };
		if (num("original file length: ") != (long long)d.size() || num("original file length (padded): ") != (long long)ilen || num("Input: ") != (long long)ilen) c.fail("%s: reports lengths %lld, %lld and %lld", what.c_str(), num("original file length: "), num("original file length (padded): "), num("Input: "));
		if (!fired && num("Output: ") != (long long)want) c.fail("%s: reports %lld bytes of output, the chunks have %zu", what.c_str(), num("Output: "), want);
	}
	c.label(P.name); if (fired) c.label(FN[kind]); if (bench) c.label("several-chunks"); if (d.empty() && !nofile) c.label("empty-file");
	c.nontrivial(pbt::mix(pbt::hash_bytes(d.data(), d.size()), pbt::mix(&P - PROGS, kind * 1000 + at)));
	if (c.want_sample()) c.sample(what + (fired ? " (happened)" : ""));
}
// Files whose sizes need more than 31 bits: nothing in them is compressible as far as the program can tell, so no time goes into compression
static void c34_large(uint64_t, Ctx &c) {
	for (const Prog &P : PROGS) {
		if (strstr(P.name, "thread") || P.cl == 1) continue;
		const char *exe = getenv(P.env); if (!exe || !*exe) { c.label("program-not-built"); continue; }
		size_t avail = 0; if (FILE *f = fopen("/proc/meminfo", "r")) { char l[200]; while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %zu", &avail) == 1) break; fclose(f); }
		size_t chunks = P.cl && !c.thorough ? 16400 : 33008, len = chunks * 65536 - 77, ilen = (len + P.chunk - 1) / P.chunk * P.chunk;
		if (avail / 1024 < 4096 + (P.cl ? 5 : 4) * (ilen >> 20)) { c.label("large file: not enough memory"); continue; }
		mkdir(pbt::scratch.c_str(), 0700);
		std::string dir = pbt::scratch + pbt::fmt("/samples-%u-%d-l", pbt::worker_id, (int)getpid()), file = dir + "/file", log = dir + "/log"; mkdir(dir.c_str(), 0700);
		int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || ftruncate(fd, len)) { c.label("large file: not possible"); continue; }
		for (size_t at : {(size_t)5, len / 2, len - 9}) { ssize_t w = pwrite(fd, "marked", 6, at); (void)w; }
		close(fd);
		int st = run_prog({exe, file}, {"OMP_NUM_THREADS=4", "COMPDECOMP_NUM_THREADS=4", "PBT_FAULT=7 0", "ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16", "UBSAN_OPTIONS=halt_on_error=1:exitcode=98",
			"POCL_CACHE_DIR=" + pbt::scratch + "/pocl", "POCL_MAX_PTHREAD_COUNT=2", "XDG_CACHE_HOME=" + pbt::scratch + "/cache", "HOME=" + pbt::scratch}, log);
		std::string out = slurp(log); unlink(file.c_str()); unlink(log.c_str()); rmdir(dir.c_str());
		if (st && (out.find("allocate") != std::string::npos || out.find("aligned_alloc") != std::string::npos || out.find("bad_alloc") != std::string::npos || out.find("(-4)") != std::string::npos || out.find("(-5)") != std::string::npos || out.find("(-6)") != std::string::npos)) { c.label("large file: not enough memory"); continue; }
		size_t want = P.cl ? chunks * 131072 : ilen;
		auto num = [&](const char *k) -> long long { size_t p = out.find(k); return p == std::string::npos ? -1 : atoll(out.c_str() + p + strlen(k)); };
		std::string what = pbt::fmt("sample \"%s\", file of %zu bytes, nothing compressible", P.name, len), tail = out.size() > 1500 ? out.substr(0, 1000) + "..." + out.substr(out.size() - 500) : out;
		if (st || out.find("was successful!") == std::string::npos) c.fail("%s: ended with status %d\n%s", what.c_str(), st, tail.c_str());
		if (num("original file length: ") != (long long)len || num("original file length (padded): ") != (long long)ilen || num("Input: ") != (long long)ilen) c.fail("%s: reports lengths %lld, %lld and %lld", what.c_str(), num("original file length: "), num("original file length (padded): "), num("Input: "));
		if (num("Output: ") != (long long)want) c.fail("%s: reports %lld bytes of output, the chunks have %zu", what.c_str(), num("Output: "), want);
		c.label("large file"); c.nontrivial(pbt::hash_bytes(what.data(), what.size()));
	}
}
static struct Reg { Reg() {
	pbt::add({"C34", c34, 400, 20000, "run of a sample program", 1, c34_large, false, 240});
} } reg;
