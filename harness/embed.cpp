// C28: the kernel embedding tool (src/tools/cl2c.cpp, run as the program it is): generated text files are embedded, the
// produced C is compiled and loaded, and the strings are compared byte by byte with the files.
#include "common.hpp"
#include <dlfcn.h>
#include <spawn.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
extern char **environ;

static int run_prog(const std::vector<std::string> &args, const std::string &errfile) {
	std::vector<char *> av; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 1, errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	posix_spawn_file_actions_adddup2(&fa, 1, 2);
	pid_t p; int e = posix_spawnp(&p, av[0], &fa, nullptr, av.data(), environ);
	posix_spawn_file_actions_destroy(&fa);
	if (e) return -1;
	int st; waitpid(p, &st, 0);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

// repository files that serve as realistic text (what the tool is for)
static const std::vector<std::string> &corpus() {
	static std::vector<std::string> v;
	if (v.empty()) {
		const char *r = getenv("VERIF_REPO"); std::string root = r ? r : "/repo";
		for (auto f : {"/src/ocl/decompress.cl", "/src/common/842.h", "/README.md", "/src/tools/cl2c.cpp"}) { auto s = slurp(root + f); if (!s.empty()) v.push_back(s); }
		v.push_back("#define A(x) \"x\\n\" // \\\n'\\''\n");
	}
	return v;
}
static std::string text(Gen &g, bool thorough) {
	std::string s; unsigned nseg = (unsigned)g.below(7);
	for (unsigned i = 0; i < nseg; i++) {
		Rng r(g.seed());
		switch (g.weighted({5, 4, 3, 3, 2, 2, 2, 1})) {
		case 0: { // the characters that need care, mixed
			static const char *P[] = {"\"", "\\", "\n", "\\\n", "\\n", "\\\"", "\"\"", "\\\\", "'", "%d", "%%", "\t", "\r", "\r\n", "\v", "\f", "\a", "\b", "/*", "*/", "//", "#", "a", "0", "9", "\\x41", "\\0", "\\077", "\033", "\x7f", "\x01", "u8\"", "R\"(", ")\"", "L'", "@", "$", "`", "<:", ":>", "<%", "%>", "%:", "?", ";", "\"\n;\n", "\n\n", " ", "  \n", "\\ \n"};
			unsigned n = (unsigned)g.range(1, 40);
			for (unsigned k = 0; k < n; k++) s += P[r.below(sizeof P / sizeof *P)];
			break; }
		case 1: { auto &c = g.pickv(corpus()); size_t a = r.below(c.size()), n = g.logsize(1, 6000); s += c.substr(a, n); break; }
		case 2: { size_t n = g.logsize(1, 600); while (n--) s += (char)(1 + r.below(255)); break; } // any byte but NUL
		case 3: { size_t n = g.logsize(1, 600); while (n--) s += (char)(128 + r.below(128)); break; }
		case 4: { static const char *U[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xe2\x80\xae", "\xff", "\xfe", "\xc0\x80", "\xed\xa0\x80", "\xe2\x80\xa8"}; size_t n = g.range(1, 20); while (n--) s += U[r.below(10)]; break; }
		case 5: { size_t n = g.pick({4095, 4096, 4097, 8191, 8192, 8193, 509, 510, 65535, 65536, 65537, 1023, 1024}); s.append(n > s.size() ? n - s.size() : 0, (char)('a' + r.below(26))); s += g.chance(1, 2) ? "\"" : "\\"; break; } // specials at block borders
		case 6: { size_t n = g.logsize(1, 300); while (n--) s += "line\n"; break; }
		default: { size_t n = g.logsize(1, thorough ? 1000000 : 200000); while (n--) s += (char)(32 + r.below(95)); break; }
		}
	}
	if (g.chance(1, 3) && !s.empty() && s.back() != '\n') s += '\n';
	// out of scope: NUL bytes (not text) and trigraphs
	for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '?' && s[i + 1] == '?') s[i + 1] = '!';
	for (auto &ch : s) if (!ch) ch = ' ';
	return s;
}
static std::string ident(Gen &g, unsigned i) {
	static const char *B[] = {"LIB842_CLDECOMPRESS_KERNEL_SOURCE", "s", "_x", "kernel_source", "A1", "very_long_name_of_a_kernel_source_variable_that_goes_on_and_on_for_a_while"};
	return std::string(B[g.below(6)]) + "_" + std::to_string(i);
}
static void c28(Gen &g, Ctx &c) {
	const char *tool = getenv("VERIF_CL2C");
	if (!tool) { fprintf(stderr, "VERIF_CL2C not set\n"); abort(); }
	unsigned n = (unsigned)g.range(1, 24);
	std::string dir = pbt::scratch + pbt::fmt("/embed-%u-%d", pbt::worker_id, (int)getpid());
	mkdir(pbt::scratch.c_str(), 0700); mkdir(dir.c_str(), 0700);
	std::string log = dir + "/log";
	std::vector<std::string> texts, names, files; std::vector<std::string> cmd = {"gcc", "-std=gnu11", "-w", "-O0", "-fPIC", "-shared", "-o", dir + "/t.so"};
	uint64_t h = 0; size_t total = 0, special = 0;
	static int seq = 0; seq++;
	std::string all = dir + "/all.c"; std::string inc;
	for (unsigned i = 0; i < n; i++) {
		texts.push_back(text(g, c.thorough)); names.push_back(ident(g, i));
		std::string in = dir + pbt::fmt("/%u.txt", i), out = dir + pbt::fmt("/%u.c", i);
		{ std::ofstream f(in, std::ios::binary); f << texts[i]; }
		unlink(out.c_str());
		int rc = run_prog({tool, in, out, names[i]}, log);
		auto &t = texts[i];
		if (rc) c.fail("embedding a text of %zu bytes ended with status %d: %s", t.size(), rc, pbt::hex(t.data(), t.size(), 64).c_str());
		if (access(out.c_str(), R_OK)) c.fail("embedding a text of %zu bytes wrote no output file", t.size());
		inc += "#include \"" + out + "\"\n";
		total += t.size(); h = pbt::mix(h, pbt::hash_bytes(t.data(), t.size()));
		for (char ch : t) if (ch == '"' || ch == '\\' || ch == '\n' || (signed char)ch < 32) { special++; break; }
	}
	{ std::ofstream f(all); f << inc; }
	cmd.push_back(all);
	if (run_prog(cmd, log) != 0) {
		std::string msg = slurp(log).substr(0, 600);
		// name the text at fault
		for (unsigned i = 0; i < n; i++) {
			auto one = cmd; one.back() = dir + pbt::fmt("/%u.c", i);
			if (run_prog(one, log) != 0) c.fail("the C produced for a text of %zu bytes does not compile; text: %s\n%s", texts[i].size(), pbt::hex(texts[i].data(), texts[i].size(), 96).c_str(), slurp(log).substr(0, 500).c_str());
		}
		c.fail("the produced C does not compile: %s", msg.c_str());
	}
	// a name of its own: the loader identifies libraries by inode as well, hence load and close within the case
	std::string so = dir + pbt::fmt("/t%d.so", seq); rename((dir + "/t.so").c_str(), so.c_str());
	void *d = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!d) c.fail("the compiled strings cannot be loaded: %s", dlerror());
	for (unsigned i = 0; i < n; i++) {
		const char **p = (const char **)dlsym(d, names[i].c_str());
		if (!p || !*p) c.fail("the produced C defines no string %s", names[i].c_str());
		const std::string &t = texts[i]; size_t k = 0;
		while (k < t.size() && (*p)[k] == t[k]) k++;
		if (k < t.size() || (*p)[k] != 0) c.fail("text of %zu bytes: the embedded string differs from position %zu; text around it %s", t.size(), k, pbt::hex(t.data() + (k > 8 ? k - 8 : 0), std::min<size_t>(t.size() - (k > 8 ? k - 8 : 0), 40)).c_str());
	}
	dlclose(d); unlink(so.c_str());
	for (unsigned i = 0; i < n; i++) { unlink((dir + pbt::fmt("/%u.txt", i)).c_str()); unlink((dir + pbt::fmt("/%u.c", i)).c_str()); }
	unlink(all.c_str()); unlink(log.c_str()); rmdir(dir.c_str());
	c.label("texts", n); c.label("texts-with-special-characters", special);
	for (auto &t : texts) { if (t.empty()) c.label("empty"); else if (t.back() != '\n') c.label("no-final-newline"); if (t.size() > 65536) c.label("over-64KiB"); }
	if (special) { c.nontrivial(h); if (c.want_sample()) { std::string o = pbt::fmt("%u texts, %zu bytes, e.g. ", n, total); for (unsigned i = 0; i < n && i < 3; i++) o += pbt::fmt("[%zu bytes %s] ", texts[i].size(), pbt::hex(texts[i].data(), texts[i].size(), 40).c_str()); c.sample(o); } }
}
static struct Reg { Reg() {
	pbt::add({"C28", c28, 600, 40000, "batch containing a text with a quote, backslash, line end or control character", 0, nullptr, false, 120});
} } reg;
