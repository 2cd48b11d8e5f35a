// C32: spreading the threads of a stream over NUMA nodes, against simulated topologies.
#include "common.hpp"
#include <csignal>
#include <fcntl.h>
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <numa.h>
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <algorithm>
#include <map>
#include <set>
using namespace lib842::stream;

// ---- the simulated machine --------------------------------------------------------------------------------
struct Node { int id; bool allowed; std::vector<int> cpus; };
struct Machine {
	bool available; std::vector<Node> nodes; int maxnode, possible; // `possible` CPU numbers are below this
	int fail_call, fail_err; // this call of pthread_setaffinity_np fails (-1: none)
	const Node *node(int id) const { for (auto &n : nodes) if (n.id == id) return &n; return nullptr; }
	int online() const { int k = 0; for (auto &n : nodes) k += n.cpus.size(); return k; }
};
static Machine M;
struct Pin { pthread_t t; std::vector<int> cpus; };
static std::mutex mx; static std::vector<Pin> pins; static int calls;
static pthread_t main_thread; static std::string complaint;
static void complain(const std::string &s) { if (complaint.empty()) complaint = s; }

extern "C" {
int __wrap_numa_available(void) { return M.available ? 0 : -1; }
int __wrap_numa_max_node(void) { return M.maxnode; }
int __wrap_numa_max_possible_node(void) { return M.maxnode; }
int __wrap_numa_num_possible_nodes(void) { return M.maxnode + 1; }
int __wrap_numa_num_configured_nodes(void) { return M.nodes.size(); }
int __wrap_numa_num_configured_cpus(void) { return M.possible; }
int __wrap_numa_num_possible_cpus(void) { return M.possible; }
int __wrap_numa_num_task_cpus(void) { return M.online(); }
struct bitmask *__wrap_numa_get_mems_allowed(void) { struct bitmask *b = numa_bitmask_alloc(std::max(M.maxnode + 1, 64)); for (auto &n : M.nodes) if (n.allowed) numa_bitmask_setbit(b, n.id); return b; }
struct bitmask *__wrap_numa_allocate_nodemask(void) { return numa_bitmask_alloc(std::max(M.maxnode + 1, 64)); }
struct bitmask *__wrap_numa_allocate_cpumask(void) { return numa_bitmask_alloc(M.possible); }
int __wrap_numa_node_to_cpus(int id, struct bitmask *b) {
	const Node *n = M.node(id);
	if (!n) { errno = ENOENT; numa_bitmask_setall(b); return -1; }
	if (b->size < (unsigned)M.possible) { errno = ERANGE; return -1; }
	numa_bitmask_clearall(b); for (int c : n->cpus) numa_bitmask_setbit(b, c);
	return 0;
}
int __wrap_numa_node_of_cpu(int c) { for (auto &n : M.nodes) if (std::count(n.cpus.begin(), n.cpus.end(), c)) return n.id; errno = EINVAL; return -1; }
int __wrap_get_nprocs(void) { return M.online(); }
int __wrap_get_nprocs_conf(void) { return M.possible; }
long __real_sysconf(int);
long __wrap_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN ? M.online() : n == _SC_NPROCESSORS_CONF ? M.possible : __real_sysconf(n); }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t size, const cpu_set_t *set) {
	std::lock_guard<std::mutex> l(mx);
	int k = calls++;
	if (pthread_equal(t, main_thread)) complain("the thread that creates the stream was pinned");
	if (k == M.fail_call) return M.fail_err;
	Pin p; p.t = t; bool any = false;
	for (int c = 0; c < (int)size * 8; c++) if (CPU_ISSET_S(c, size, set)) { p.cpus.push_back(c); for (auto &n : M.nodes) any |= std::count(n.cpus.begin(), n.cpus.end(), c) > 0; }
	if (!any) return EINVAL; // as the kernel does
	for (auto &q : pins) if (pthread_equal(q.t, t)) { q = p; return 0; }
	pins.push_back(p);
	return 0;
}
}

// ---- a codec that keeps the first eight bytes ---------------------------------------------------------------
static int tc(const uint8_t *in, size_t, uint8_t *out, size_t *ol) { memcpy(out, in, 8); *ol = 16; return 0; }
static int td(const uint8_t *in, size_t, uint8_t *out, size_t *ol) { for (size_t i = 0; i < CHUNK_SIZE; i += 8) memcpy(out + i, in, 8); *ol = CHUNK_SIZE; return 0; }
static int tcc(size_t n, int *r, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) { for (size_t i = 0; i < n; i++) r[i] = tc(in + i * is, il[i], out + i * os, ol + i); return 0; }
static int tdc(size_t n, int *r, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) { for (size_t i = 0; i < n; i++) if (il[i] != SIZE_MAX) r[i] = td(in + i * is, il[i], out + i * os, ol + i); return 0; }
static const lib842_implementation TOY = {tc, td, tcc, tdc, 8, 64};
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } };
static std::ostream &quiet() { static thread_local NullBuf nb; static thread_local std::ostream os(&nb); return os; }

static void judge(unsigned threads, const char *what) {
	std::vector<const Node *> elig; for (auto &n : M.nodes) if (n.allowed && !n.cpus.empty()) elig.push_back(&n);
	std::lock_guard<std::mutex> l(mx);
	std::map<int, unsigned> per; for (auto n : elig) per[n->id] = 0;
	for (auto &p : pins) {
		const Node *is = nullptr; for (auto n : elig) { auto a = n->cpus; std::sort(a.begin(), a.end()); if (a == p.cpus) is = n; }
		if (!is) { std::string s; for (int c : p.cpus) s += pbt::fmt(" %d", c); complain(pbt::fmt("%s: a thread was pinned to the CPUs%s, which are not those of an allowed node", what, s.c_str())); continue; }
		per[is->id]++;
	}
	if (!M.available || elig.empty()) { if (!pins.empty()) complain(pbt::fmt("%s: %zu threads pinned although %s", what, pins.size(), M.available ? "no allowed node has CPUs" : "NUMA is not available")); }
	else if (M.fail_call < 0 || M.fail_call >= calls) {
		if (pins.size() != threads) complain(pbt::fmt("%s: %zu of %u threads were pinned", what, pins.size(), threads));
		unsigned lo = ~0u, hi = 0; for (auto &x : per) { lo = std::min(lo, x.second); hi = std::max(hi, x.second); }
		if (hi - lo > 1) { std::string s; for (auto &x : per) s += pbt::fmt(" node %d: %u", x.first, x.second); complain(pbt::fmt("%s: the threads are not spread evenly:%s", what, s.c_str())); }
	}
	pins.clear(); M.fail_call = M.fail_call < 0 ? -1 : M.fail_call - calls; calls = 0;
}

static void body(unsigned tc_, unsigned td_, unsigned reps, uint64_t salt) {
	main_thread = pthread_self();
	size_t nb = 2; uint8_t *src = (uint8_t *)aligned_alloc(65536, nb * BLOCK_SIZE), *dst = (uint8_t *)aligned_alloc(65536, nb * BLOCK_SIZE);
	for (size_t i = 0; i < nb * BLOCK_SIZE / CHUNK_SIZE; i++) { uint64_t k = pbt::mix(salt, i); for (size_t j = 0; j < CHUNK_SIZE; j += 8) memcpy(src + i * CHUNK_SIZE + j, &k, 8); }
	for (unsigned rep = 0; rep < reps; rep++) {
		memset(dst, 0, nb * BLOCK_SIZE);
		std::mutex m; std::condition_variable cv; int cf = -1, df = -1;
		auto wait = [&](int &x) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return x >= 0; }); };
		auto set = [&](int &x, bool ok) { std::lock_guard<std::mutex> l(m); x = ok; cv.notify_all(); };
		DataCompressionStream cs(TOY, tc_, thread_policy::spread_threads_among_numa_nodes, quiet, quiet); judge(tc_, "compression stream");
		DataDecompressionStream ds(TOY, td_, thread_policy::spread_threads_among_numa_nodes, quiet, quiet); judge(td_, "decompression stream");
		ds.start(dst);
		cs.start(src, nb * BLOCK_SIZE, [&](Block &&b) { if (b.offset != SIZE_MAX) ds.push_block(std::move(b)); });
		cs.finalize(false, [&](bool ok) { set(cf, ok); }); wait(cf);
		ds.finalize(false, [&](bool ok) { set(df, ok); }); wait(df);
		if (!cf || !df || memcmp(src, dst, nb * BLOCK_SIZE)) complain("the spread streams do not reproduce the data");
	}
	{ // threads left alone when the policy asks for it
		DataCompressionStream cs(TOY, 2, thread_policy::use_defaults, quiet, quiet); DataDecompressionStream ds(TOY, 2, thread_policy::use_defaults, quiet, quiet);
		if (calls) complain("threads pinned under the default policy");
	}
	free(src); free(dst);
}

static void c32(Gen &g, Ctx &c) {
	M = Machine(); M.available = !g.chance(1, 15); M.fail_call = -1;
	unsigned nn = 1 + g.weighted({2, 4, 3, 2, 1}) * (1 + g.below(2)); bool sparse_nodes = g.chance(1, 3), sparse_cpus = g.chance(1, 3), interleaved = g.chance(1, 3), memonly = g.chance(1, 3), restricted = g.chance(1, 4);
	unsigned per = 1 + g.logsize(0, 40), holes = sparse_cpus ? 1 + g.below(4) : 0; int id = sparse_nodes ? g.below(4) : 0, cpu = sparse_cpus ? g.below(3) * per : 0;
	bool base_high = sparse_nodes && g.chance(1, 4);
	for (unsigned i = 0; i < nn; i++) { M.nodes.push_back({id, !(restricted && g.chance(1, 2)), {}}); id += 1 + (sparse_nodes ? g.below(g.chance(1, 4) ? 200 : 4) : 0); }
	if (base_high) for (auto &n : M.nodes) n.id += 250;
	std::vector<bool> mo(nn); for (unsigned i = 0; i < nn; i++) mo[i] = memonly && g.chance(1, 3);
	for (unsigned k = 0; k < nn * per; k++) {
		unsigned i = interleaved ? k % nn : k / per;
		if (holes && g.chance(1, 6)) cpu += g.pick({1u, 2u, per, 3 * per});
		if (cpu >= 1000) break;
		if (!mo[i]) M.nodes[i].cpus.push_back(cpu);
		if (!mo[i] || g.chance(1, 2)) cpu++;
	}
	M.maxnode = M.nodes.back().id; M.possible = cpu + 1 + (g.chance(1, 2) ? g.below(64) : 0);
	if (M.possible > 1024) M.possible = 1024;
	if (g.chance(1, 10)) { M.fail_call = g.below(12); M.fail_err = g.pick({EINVAL, ESRCH, EFAULT, EPERM}); }
	unsigned t1 = 1 + g.below(9), t2 = 1 + g.below(9), reps = 1 + g.below(2); uint64_t salt = g.seed();
	std::string d = pbt::fmt("streams with %u and %u threads, %s", t1, t2, M.available ? "" : "NUMA not available, ");
	unsigned elig = 0; bool hole = false, empty = false;
	for (auto &n : M.nodes) { d += pbt::fmt("node %d%s:", n.id, n.allowed ? "" : " (not allowed)"); for (int x : n.cpus) { d += pbt::fmt(" %d", x); hole |= x >= M.online(); } d += n.cpus.empty() ? " no CPUs; " : "; "; elig += n.allowed && !n.cpus.empty(); empty |= n.allowed && n.cpus.empty(); }
	if (M.fail_call >= 0) d += pbt::fmt("pinning call %d fails with %d", M.fail_call, M.fail_err);
	if (d.size() > 1500) d.resize(1500);
	int p[2]; if (pipe(p)) abort();
	pid_t pid = fork(); // the library reads the topology once per process
	if (!pid) {
		int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1);
		alarm(60);
		body(t1, t2, reps, salt);
		ssize_t w = write(p[1], complaint.data(), complaint.size()); (void)w;
		_exit(0);
	}
	close(p[1]); std::string r; char b[512]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.append(b, k); close(p[0]);
	int st; waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("%s while using the streams; %s", WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash", d.c_str());
	if (!r.empty()) c.fail("%s; %s", r.c_str(), d.c_str());
	if (empty) c.label("allowed nodes without CPUs"); if (hole) c.label("CPU numbers above the CPU count"); if (!M.available) c.label("NUMA not available"); if (M.fail_call >= 0) c.label("a pinning call fails"); if (restricted) c.label("nodes outside the allowed set");
	if (M.available && elig >= 2) { c.nontrivial(pbt::hash_bytes(d.data(), d.size())); if (c.want_sample()) c.sample(d); }
}
static struct Reg { Reg() {
	pbt::add({"C33", c32, 2000, 100000, "the non-trivial cases of the underlying property, with tracing built in", 0, nullptr, true, 100});
	pbt::add({"C32", c32, 20000, 1000000, "at least two allowed nodes with CPUs", 0, nullptr, true, 100});
} } reg;
