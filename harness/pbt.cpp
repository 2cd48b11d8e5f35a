#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

namespace pbt {
unsigned worker_id = 0;
std::string scratch;
static std::vector<Property> &props() { static std::vector<Property> v; return v; }
void add(const Property &p) { props().push_back(p); }
static std::set<std::string> known_keys;
bool is_known(const std::string &k) { return known_keys.count(k) != 0; }
void report_known(Ctx &c, const std::string &what) {
	for (uint32_t i = 0; i < c.slot->nknown; i++) if (what == c.slot->known[i]) return;
	if (c.slot->nknown < 8) { snprintf(c.slot->known[c.slot->nknown], 512, "%s", what.c_str()); c.slot->nknown++; }
}

std::string fmt(const char *f, ...) {
	char buf[4096]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a); return buf;
}
std::string hex(const void *p, size_t n, size_t max) {
	std::string s; char b[4];
	for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", ((const uint8_t *)p)[i]); s += b; }
	if (n > max) s += "..";
	return s;
}
std::string json_escape(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

void Ctx::label(const char *name, uint64_t n) {
	for (size_t i = 0; i < MAX_LABELS; i++) {
		auto &l = slot->labels[i];
		if (l.name[0] == 0) { snprintf(l.name, sizeof l.name, "%s", name); l.count = n; return; }
		if (strncmp(l.name, name, sizeof l.name - 1) == 0) { l.count += n; return; }
	}
}
void Ctx::nontrivial(uint64_t h) {
	nontriv_seen_ = true;
	if (h == 0) h = 1;
	uint64_t i = h & ((1ULL << SET_BITS) - 1);
	for (unsigned k = 0; k < 64; k++, i = (i + 1) & ((1ULL << SET_BITS) - 1)) {
		uint64_t e = set->entries[i].load(std::memory_order_relaxed);
		if (e == h) return;
		if (e == 0) {
			uint64_t z = 0;
			if (set->entries[i].compare_exchange_strong(z, h)) { set->count++; return; }
			if (z == h) return;
		}
	}
}
void Ctx::sample(const std::string &s) {
	if (slot->nsamples >= NSAMPLES) return;
	snprintf(slot->samples[slot->nsamples], SAMPLE_SIZE, "%s", s.c_str());
	slot->nsamples++;
}
void Ctx::fail(const char *f, ...) {
	va_list a; va_start(a, f); vsnprintf(slot->msg, MSG_SIZE, f, a); va_end(a);
	slot->state = 3;
#ifdef PBT_LIBFUZZER
	fprintf(stderr, "FAILED: %s\n", slot->msg);
	abort(); // libFuzzer reports the input; the driver replays the tape in the slot file
#else
	_exit(77);
#endif
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// CPU time of our own child, in seconds
static double child_cpu(pid_t pid) {
	char path[64]; snprintf(path, 64, "/proc/%d/stat", pid);
	FILE *f = fopen(path, "r"); if (!f) return 0;
	char buf[1024]; size_t n = fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[n] = 0;
	char *p = strrchr(buf, ')'); if (!p) return 0;
	unsigned long ut = 0, st = 0;
	sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
	return (ut + st) / (double)sysconf(_SC_CLK_TCK);
}

static Slot *map_slot() {
	void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Slot *)p;
}

static void reset_slot(Slot *s) { memset((void *)s, 0, sizeof(Slot)); }

static void redirect_stderr(const std::string &path) {
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}
static std::string read_file(const std::string &p, size_t max = 1 << 16) {
	std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf();
	std::string s = ss.str(); if (s.size() > max) s.resize(max); return s;
}

// Runs one case (already inside the child).
static void run_one(const Property &p, Gen &g, Ctx &c) {
	try { p.run(g, c); } catch (const Skip &) {}
}

struct Outcome { bool failed = false; bool hang = false; std::string msg; int status = 0; };

static std::string describe_status(int st) {
	if (WIFSIGNALED(st)) return fmt("terminated by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	if (WIFEXITED(st)) return fmt("exited with status %d", WEXITSTATUS(st));
	return "?";
}
static std::string first_report(const std::string &err) {
	// pick the interesting line of a sanitizer report / assertion, with a few lines of context
	static const char *keys[] = {"ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "Assertion", "ERROR: LeakSanitizer", "terminate called", "ERROR: UndefinedBehaviorSanitizer"};
	size_t best = std::string::npos;
	for (auto k : keys) { size_t q = err.find(k); if (q != std::string::npos && (best == std::string::npos || q < best)) best = q; }
	if (best == std::string::npos) return err.size() > 600 ? err.substr(err.size() - 600) : err;
	size_t b = err.rfind('\n', best); b = b == std::string::npos ? 0 : b + 1;
	return err.substr(b, 1500);
}

static const double HANG_IDLE_S = 45.0;

// One earlier case of a history: failures that need what earlier calls in the same process left behind
struct Item { int64_t fixed = -1; std::vector<uint64_t> tape; uint64_t seed = 0; bool seeded = false; };
typedef std::vector<Item> History;
static void run_item(const Property &p, const Item &it, Slot *slot, Ctx &c) {
	if (it.fixed >= 0) { slot->ntape = 0; try { p.fixed((uint64_t)it.fixed, c); } catch (const Skip &) {} return; }
	if (it.seeded) { Gen g(slot, it.seed); run_one(p, g, c); return; }
	Gen g(slot, it.tape.data(), it.tape.size()); run_one(p, g, c);
}

// Run a tape in a forked child (after the cases of a history, if any); true if it fails
static Outcome try_tape(const Property &p, const std::vector<uint64_t> &tape, Slot *slot, DistinctSet *set, bool thorough, std::vector<uint64_t> *canon, int64_t fixed = -1, const History *pre = nullptr, double budget = 0, const char *tapes = nullptr) {
	reset_slot(slot);
	std::string errf = scratch + "/replay.err";
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		redirect_stderr(errf);
		Ctx c; c.slot = slot; c.set = set; c.thorough = thorough; c.replay = true; c.prop = p.id;
		slot->state = 1;
		if (pre) {
			FILE *tf = tapes ? fopen(tapes, "w") : nullptr;
			for (auto &it : *pre) {
				Ctx h; h.slot = slot; h.set = set; h.thorough = thorough; h.replay = false; h.prop = p.id;
				slot->case_index = &it - pre->data();
				run_item(p, it, slot, h);
				if (tf) { fprintf(tf, "%lld %u", (long long)it.fixed, slot->ntape.load()); for (uint32_t k = 0; k < slot->ntape; k++) fprintf(tf, " %llu", (unsigned long long)slot->tape[k]); fprintf(tf, "\n"); fflush(tf); }
			}
			if (tf) fclose(tf);
			c.replay = false; slot->case_index = pre->size();
		}
		if (fixed >= 0) { try { p.fixed((uint64_t)fixed, c); } catch (const Skip &) {} }
		else { Gen g(slot, tape.data(), tape.size()); run_one(p, g, c); }
		slot->state = 2;
		_exit(0);
	}
	Outcome o;
	double t0 = now(), lastcpu = 0, lastprog = t0;
	for (;;) {
		int st; pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) {
			if (slot->state == 3) { o.failed = true; o.msg = slot->msg; }
			else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
				if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.failed = false; }
				else { o.failed = true; o.msg = describe_status(st) + "\n" + first_report(read_file(errf)); }
			}
			o.status = st;
			break;
		}
		double cpu = child_cpu(pid);
		if (cpu > lastcpu + 0.05) { lastcpu = cpu; lastprog = now(); }
		const double limit = budget ? budget : fixed >= 0 ? std::max<double>(p.cpu_limit_s, thorough ? 1500 : 150) : p.cpu_limit_s; // fixed cases may be long
		if (cpu > limit || now() - lastprog > HANG_IDLE_S) {
			kill(pid, SIGKILL); waitpid(pid, &st, 0);
			o.failed = true; o.hang = true;
			o.msg = cpu > limit ? fmt("case did not finish within %.0f s of CPU time", limit) : fmt("case made no progress for %.0f s (all threads blocked)", HANG_IDLE_S);
			break;
		}
		usleep(now() - t0 < 0.2 ? 500 : 20000);
	}
	if (canon) canon->assign(slot->tape, slot->tape + std::min<uint32_t>(slot->ntape, MAX_TAPE));
	return o;
}

static void write_replay(const std::string &path, const Property &p, const std::vector<uint64_t> &tape, int64_t fixed, const std::string &msg, uint64_t index, uint64_t seed, const History *pre = nullptr) {
	std::ofstream f(path);
	f << "property " << p.id << "\n";
	if (pre) for (auto &it : *pre) { if (it.fixed >= 0) f << "before-fixed " << it.fixed; else f << "before"; for (auto v : it.tape) f << " " << v; f << "\n"; } // earlier cases in the same process
	if (fixed >= 0) f << "fixed " << fixed << "\n";
	f << "tape";
	for (auto v : tape) f << " " << v;
	f << "\n# case " << index << " of seed " << seed << "\n";
	std::istringstream is(msg); std::string l;
	while (std::getline(is, l)) f << "# " << l << "\n";
}

static std::vector<uint64_t> shrink(const Property &p, std::vector<uint64_t> tape, Slot *slot, DistinctSet *set, bool thorough, std::string &msg, double budget, const History *pre = nullptr) {
	double t0 = now(); unsigned execs = 0;
	auto ok = [&](const std::vector<uint64_t> &t) {
		if (now() - t0 > budget || execs > 3000) return false;
		execs++;
		std::vector<uint64_t> canon;
		Outcome o = try_tape(p, t, slot, set, thorough, &canon, -1, pre, pre ? 30 : 0);
		if (o.failed && pre && slot->case_index != pre->size()) return false; // failed before the last case
		if (o.failed && !o.hang) {
			msg = o.msg;
			if (canon.size() <= t.size()) tape = canon; else tape = t;
			return true;
		}
		return false;
	};
	{ std::vector<uint64_t> t = tape; ok(t); }
	bool progress = true;
	while (progress && now() - t0 < budget) {
		progress = false;
		for (size_t blk = std::max<size_t>(1, tape.size() / 2); blk >= 1; blk /= 2) {
			for (size_t i = 0; i + blk <= tape.size();) {
				if (now() - t0 > budget) return tape;
				std::vector<uint64_t> t(tape); t.erase(t.begin() + i, t.begin() + i + blk);
				size_t before = tape.size();
				if (ok(t)) { progress = true; if (tape.size() >= before) i += blk; } else i += blk;
			}
			if (blk == 1) break;
		}
		for (size_t blk = std::max<size_t>(1, tape.size() / 2); blk >= 1; blk /= 2) {
			for (size_t i = 0; i + blk <= tape.size(); i += blk) {
				if (now() - t0 > budget) return tape;
				bool nz = false; for (size_t k = i; k < i + blk; k++) nz |= tape[k] != 0;
				if (!nz) continue;
				std::vector<uint64_t> t(tape); std::fill(t.begin() + i, t.begin() + i + blk, 0);
				if (ok(t)) progress = true;
			}
			if (blk == 1) break;
		}
		for (size_t i = 0; i < tape.size(); i++) {
			if (now() - t0 > budget) return tape;
			uint64_t lo = 0;
			for (int k = 0; k < 24 && i < tape.size() && tape[i] > lo; k++) {
				std::vector<uint64_t> t(tape);
				t[i] = lo + (tape[i] - lo) / 2;
				if (t[i] == tape[i]) break;
				size_t n0 = tape.size();
				if (ok(t)) { progress = true; if (tape.size() != n0) break; } else { lo = t[i] + 1; }
			}
		}
	}
	return tape;
}

// Looks for a history that makes a case fail: the cases the worker ran before it, fewer and fewer of them
static bool find_history(const Property &p, History &pre, Item &last, Slot *slot, DistinctSet *set, bool thorough, std::string &msg, double budget) {
	double t0 = now(); auto left = [&]() { return budget - (now() - t0); };
	auto fails = [&](const History &h, const Item &l, size_t *at, const char *tapes = nullptr) {
		if (left() <= 0) return false;
		History all(h); all.push_back(l);
		Outcome o = try_tape(p, std::vector<uint64_t>(), slot, set, thorough, nullptr, -1, &all, std::min(left(), 60.0), tapes);
		if (!o.failed || o.hang) return false;
		*at = slot->case_index; if (*at >= all.size()) return false; // the empty tape appended by try_tape
		msg = o.msg; return true;
	};
	size_t n = pre.size(), at; bool found = false; History h;
	for (size_t k = 1; !found && left() > 0; k = k * 4) {
		h.assign(pre.end() - std::min(k, n), pre.end());
		if (fails(h, last, &at)) found = true;
		if (k >= n) break;
	}
	if (!found) return false;
	if (at < h.size()) { last = h[at]; h.resize(at); }
	for (int i = 0; i < 2; i++) if (!fails(h, last, &at) || at != h.size()) return false;
	for (size_t blk = std::max<size_t>(1, h.size() / 2);; blk /= 2) { // leave out cases
		for (size_t i = h.size(); i > 0 && left() > budget / 3;) {
			size_t b = i > blk ? i - blk : 0; History t(h); t.erase(t.begin() + b, t.begin() + i);
			if (fails(t, last, &at) && at == t.size()) h = t;
			i = b;
		}
		if (blk <= 1) break;
	}
	for (int i = 0; i < 3; i++) if (!fails(h, last, &at) || at != h.size()) return false;
	// turn seeds into tapes
	std::string tf = scratch + "/hist.tapes";
	if (!fails(h, last, &at, tf.c_str()) || at != h.size()) return false;
	std::ifstream f(tf); std::string line; size_t i = 0;
	std::vector<uint64_t> lt(slot->tape, slot->tape + std::min<uint32_t>(slot->ntape, MAX_TAPE));
	while (i < h.size() && std::getline(f, line)) { std::istringstream is(line); long long fx; uint64_t k; is >> fx >> k; h[i].tape.clear(); uint64_t x; while (is >> x) h[i].tape.push_back(x); h[i].seeded = false; i++; }
	if (i != h.size()) return false;
	last.tape = lt; last.seeded = false;
	for (int k = 0; k < 3; k++) if (!fails(h, last, &at) || at != h.size()) return false;
	pre = h; return true;
}

int main_impl(int argc, char **argv) {
	std::string prop, replay, part, repdir = ".", knownarg;
	bool doshrink = false; uint64_t seed = 1; bool thorough = false; unsigned jobs = 8; double max_s = 0; uint64_t cases = 0; int64_t single = -1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto v = [&]() { return std::string(argv[++i]); };
		if (a == "--prop") prop = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
		else if (a == "--thorough") thorough = true; else if (a == "--jobs") jobs = atoi(v().c_str());
		else if (a == "--replay") replay = v(); else if (a == "--shrink") doshrink = true; else if (a == "--part") part = v();
		else if (a == "--replay-dir") repdir = v(); else if (a == "--max-s") max_s = atof(v().c_str());
		else if (a == "--cases") cases = strtoull(v().c_str(), 0, 10);
		else if (a == "--known") knownarg = v(); else if (a == "--case") single = atoll(v().c_str());
		else if (a == "--scratch") scratch = v();
		else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
	}
	{ std::istringstream is(knownarg); std::string k; while (std::getline(is, k, ',')) known_keys.insert(k); }
	const Property *pp = nullptr;
	for (auto &p : props()) if (prop == p.id) pp = &p;
	if (!pp) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
	const Property &p = *pp;
	if (scratch.empty()) { scratch = fmt("/tmp/verif-%s-%d", prop.c_str(), (int)getpid()); }
	mkdir(scratch.c_str(), 0755);
	setvbuf(stdout, nullptr, _IOLBF, 0);

	DistinctSet *set = (DistinctSet *)mmap(nullptr, sizeof(DistinctSet), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Slot *rslot = map_slot();

	if (!replay.empty()) {
		std::ifstream f(replay); std::string line; std::vector<uint64_t> tape; int64_t fixed = -1; History pre;
		while (std::getline(f, line)) {
			std::istringstream is(line); std::string w; is >> w;
			if (w == "tape") { uint64_t x; while (is >> x) tape.push_back(x); }
			if (w == "fixed") is >> fixed;
			if (w == "before") { Item it; uint64_t x; while (is >> x) it.tape.push_back(x); pre.push_back(it); }
			if (w == "before-fixed") { Item it; is >> it.fixed; pre.push_back(it); }
		}
		unsigned nfail = 0; std::string msg; unsigned reps = p.definitive ? 20 : 3;
		for (unsigned i = 0; i < reps; i++) { Outcome o = try_tape(p, tape, rslot, set, thorough, nullptr, fixed, pre.empty() ? nullptr : &pre, pre.empty() ? 0 : 300); if (o.failed) { nfail++; msg = o.msg; } }
		printf("replay %s: failed %u of %u\n%s\n", replay.c_str(), nfail, reps, msg.c_str());
		if (doshrink) { // a failure found by the coverage-guided search: confirm, shrink, store
			if (nfail < reps) return 0;
			tape = shrink(p, tape, rslot, set, thorough, msg, 60);
			mkdir(repdir.c_str(), 0755);
			replay = repdir + "/" + fmt("%s-%016llx.tape", p.id, (unsigned long long)hash_bytes(tape.data(), tape.size() * 8, 7));
			write_replay(replay, p, tape, -1, msg, 0, seed);
			printf("%s\n", msg.c_str());
		}
		if (nfail) { printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str()); return 1; }
		return 0;
	}
	uint64_t total = cases ? cases : (thorough ? p.thorough_cases : p.quick_cases);
	if (single >= 0) { // debugging aid: run one case in this process
		Ctx c; c.slot = rslot; c.set = set; c.thorough = thorough; c.replay = true; c.prop = p.id;
		Gen g(rslot, mix(mix(seed, hash_bytes(p.id, strlen(p.id))), single));
		run_one(p, g, c); printf("case passed\n"); return 0;
	}
	uint64_t pseed = mix(seed, hash_bytes(p.id, strlen(p.id)));
	double t0 = now();
	std::vector<Slot *> slots(jobs); std::vector<pid_t> pids(jobs, 0);
	std::vector<double> lastcpu(jobs, 0), casecpu0(jobs, 0), lastprog(jobs, t0); std::vector<uint64_t> lastcase(jobs, ~0ULL);
	std::vector<uint64_t> start(jobs, 0);
	uint64_t grand = total + p.nfixed;
	for (unsigned w = 0; w < jobs; w++) { slots[w] = map_slot(); start[w] = w; }
	std::vector<uint64_t> first(jobs, 0); unsigned histories = 0;
	auto spawn = [&](unsigned w) {
		slots[w]->state = 0; slots[w]->case_index = ~0ULL; first[w] = start[w];
		pid_t pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			worker_id = w;
			redirect_stderr(scratch + fmt("/w%u.err", w));
			Slot *s = slots[w];
			uint64_t n = 0;
			for (uint64_t i = start[w]; i < grand; i += jobs) {
				s->case_index = i; s->state = 1;
				Ctx c; c.slot = s; c.set = set; c.thorough = thorough; c.replay = false; c.prop = p.id;
				if (i < p.nfixed) { s->ntape = 0; try { p.fixed(i, c); } catch (const Skip &) {} }
				else { Gen g(s, mix(pseed, i - p.nfixed)); run_one(p, g, c); }
				s->cases_done++;
				if ((++n & 255) == 0) { if (ftruncate(2, 0) != 0) {} }
				if (max_s > 0 && now() - t0 > max_s) break;
			}
			s->state = 2;
			_exit(0);
		}
		pids[w] = pid; lastcpu[w] = 0; casecpu0[w] = 0; lastprog[w] = now(); lastcase[w] = ~0ULL;
	};
	for (unsigned w = 0; w < jobs; w++) spawn(w);
	unsigned alive = jobs; bool violation = false; std::string vmsg, vpath; uint64_t unconfirmed = 0; uint64_t deaths = 0;
	bool broken = false;
	while (alive && !violation && !broken) {
		usleep(20000);
		for (unsigned w = 0; w < jobs && !violation; w++) {
			if (!pids[w]) continue;
			int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
			bool failed = false, hang = false; std::string msg;
			if (r == pids[w]) {
				pids[w] = 0;
				if (slots[w]->state == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
				failed = true; deaths++;
				if (slots[w]->state == 3) msg = slots[w]->msg;
				else msg = describe_status(st) + "\n" + first_report(read_file(scratch + fmt("/w%u.err", w)));
			} else {
				double cpu = child_cpu(pids[w]); uint64_t ci = slots[w]->case_index;
				if (ci != lastcase[w]) { lastcase[w] = ci; casecpu0[w] = cpu; lastprog[w] = now(); lastcpu[w] = cpu; }
				if (cpu > lastcpu[w] + 0.05) { lastcpu[w] = cpu; lastprog[w] = now(); }
				const double limit = ci < p.nfixed ? std::max<double>(p.cpu_limit_s, thorough ? 1500 : 150) : p.cpu_limit_s;
				if (cpu - casecpu0[w] > limit || now() - lastprog[w] > HANG_IDLE_S) {
					kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0;
					failed = hang = true; msg = "case hung";
				}
			}
			if (!failed) continue;
			uint64_t idx = slots[w]->case_index;
			int64_t fixed = idx < p.nfixed ? (int64_t)idx : -1;
			std::vector<uint64_t> tape(slots[w]->tape, slots[w]->tape + std::min<uint32_t>(slots[w]->ntape, MAX_TAPE));
			// a case that died before finishing may continue past the recorded part: replay needs the same fresh
			// choices, so complete the tape by re-deriving it from the seed where needed (crash happened after the
			// last recorded choice by construction, so the recorded prefix is enough).
			unsigned need = hang ? 1 : 3, got = 0, tries = hang ? 2 : (p.definitive ? 10 : 3);
			Outcome o;
			for (unsigned i = 0; i < tries && got < need; i++) { Outcome q = try_tape(p, tape, rslot, set, thorough, nullptr, fixed); if (q.failed) { got++; o = q; } else if (!p.definitive) break; }
			bool definite = p.definitive && !hang && slots[w]->state == 3;
			if (p.definitive && !hang && msg.find("Sanitizer") != std::string::npos) definite = true;
			if (got >= need || definite || (p.definitive && got > 0)) {
				violation = true;
				if (got) msg = o.msg;
				if (fixed < 0 && !hang && got >= need) tape = shrink(p, tape, rslot, set, thorough, msg, p.definitive ? 30 : 60);
				vmsg = msg;
				mkdir(repdir.c_str(), 0755);
				vpath = repdir + "/" + fmt("%s-%016llx.tape", p.id, (unsigned long long)hash_bytes(tape.data(), tape.size() * 8, idx + 7));
				write_replay(vpath, p, tape, fixed, msg, idx, seed);
				continue;
			}
			if (!hang && histories < 3 && idx > first[w]) { // does it take what earlier cases left behind?
				histories++;
				History pre; for (uint64_t i = first[w]; i < idx; i += jobs) { Item it; if (i < p.nfixed) it.fixed = i; else { it.seed = mix(pseed, i - p.nfixed); it.seeded = true; } pre.push_back(it); }
				Item last; last.fixed = fixed; last.tape = tape; if (fixed < 0) { last.seed = mix(pseed, idx - p.nfixed); last.seeded = true; }
				std::string m; bool stopped[64] = {}; 
				for (unsigned k = 0; k < jobs && k < 64; k++) if (pids[k] && !kill(pids[k], SIGSTOP)) stopped[k] = true;
				bool yes = find_history(p, pre, last, rslot, set, thorough, m, 90);
				for (unsigned k = 0; k < jobs && k < 64; k++) if (stopped[k]) { kill(pids[k], SIGCONT); lastprog[k] = now(); }
				if (yes) {
					violation = true;
					if (last.fixed < 0) last.tape = shrink(p, last.tape, rslot, set, thorough, m, 30, &pre);
					vmsg = fmt("(after %zu earlier case%s in the same process) ", pre.size(), pre.size() == 1 ? "" : "s") + m;
					mkdir(repdir.c_str(), 0755);
					vpath = repdir + "/" + fmt("%s-%016llx.tape", p.id, (unsigned long long)hash_bytes(last.tape.data(), last.tape.size() * 8, idx + 7));
					write_replay(vpath, p, last.tape, last.fixed, vmsg, idx, seed, &pre);
					continue;
				}
			}
			{
				fprintf(stderr, "[%s] case %llu failed once but was not confirmed (%s)\n", p.id, (unsigned long long)idx, msg.substr(0, 2000).c_str());
				unconfirmed++;
				if (unconfirmed > 20) { broken = true; break; }
				start[w] = idx + jobs;
				if (start[w] < grand) spawn(w); else alive--;
			}
		}
	}
	for (unsigned w = 0; w < jobs; w++) if (pids[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }
	uint64_t done = 0, excluded = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::set<std::string> kn;
	for (auto s : slots) {
		done += s->cases_done; excluded += s->excluded;
		for (auto &l : s->labels) if (l.name[0]) labels[l.name] += l.count;
	}
	for (unsigned k = 0; k < NSAMPLES; k++) for (auto s : slots) if (k < s->nsamples && samples.size() < 6) samples.push_back(s->samples[k]);
	for (auto s : slots) for (uint32_t i = 0; i < s->nknown; i++) kn.insert(s->known[i]);
	for (auto &k : kn) printf("KNOWN-FINDING: property=%s %s\n", p.id, k.c_str());
	double wall = now() - t0;
	if (!part.empty()) {
		std::ofstream f(part);
		f << "{\"evaluations\":" << done << ",\"distinct_nontrivial\":" << set->count.load() << ",\"excluded\":" << excluded << ",\"planned\":" << grand
		  << ",\"unconfirmed\":" << unconfirmed << ",\"violation\":" << (violation ? "true" : "false") << ",\"wall_s\":" << wall
		  << ",\"rule\":\"" << json_escape(p.rule) << "\",\"classes\":{";
		bool first = true; for (auto &l : labels) { f << (first ? "" : ",") << "\"" << json_escape(l.first) << "\":" << l.second; first = false; }
		f << "},\"samples\":["; first = true;
		for (auto &s : samples) { f << (first ? "" : ",") << "\"" << json_escape(s) << "\""; first = false; }
		f << "]}\n";
	}
	// remove the scratch directory (flat + one level)
	{
		std::function<void(const std::string &)> rm = [&](const std::string &d) {
			DIR *dp = opendir(d.c_str()); if (!dp) return;
			while (dirent *e = readdir(dp)) {
				std::string n = e->d_name; if (n == "." || n == "..") continue;
				std::string q = d + "/" + n; struct stat sb;
				if (lstat(q.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rm(q); else unlink(q.c_str());
			}
			closedir(dp); rmdir(d.c_str());
		};
		if (scratch.compare(0, 11, "/tmp/verif-") == 0) rm(scratch);
	}
	printf("[%s] %llu cases (%llu distinct non-trivial, %llu excluded, %llu unconfirmed) in %.1f s\n", p.id, (unsigned long long)done, (unsigned long long)set->count.load(), (unsigned long long)excluded, (unsigned long long)unconfirmed, wall);
	if (violation) {
		printf("%s\n", vmsg.c_str());
		printf("VIOLATION property=%s replay=%s\n", p.id, vpath.c_str());
		return 1;
	}
	if (broken) { fprintf(stderr, "too many unconfirmed failures\n"); return 2; }
	if (done == 0) { fprintf(stderr, "no case was run\n"); return 2; }
	return 0;
}
}

#ifdef PBT_LIBFUZZER
// Coverage-guided entry: the bytes are decoded into the same choices; PBT_PROP selects the property. The slot and
// the set of distinct non-trivial cases are files, which the driver reads after a crash (tape) and at the end (counts).
static void *map_file(const char *path, size_t n) {
	int fd = open(path, O_RDWR | O_CREAT, 0644);
	if (fd < 0 || ftruncate(fd, n) != 0) { perror(path); exit(2); }
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return p;
}
static pbt::Slot *fuzz_slot; static pbt::DistinctSet *fuzz_set;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
	using namespace pbt;
	static const Property *p = nullptr;
	if (!p) {
		const char *id = getenv("PBT_PROP"), *dir = getenv("PBT_SCRATCH"), *w = getenv("PBT_WORKER");
		for (auto &q : props()) if (id && !strcmp(id, q.id)) p = &q;
		if (!p || !dir || !w) { fprintf(stderr, "PBT_PROP, PBT_SCRATCH and PBT_WORKER must be set\n"); exit(2); }
		scratch = std::string(dir) + "/d" + w; mkdir(scratch.c_str(), 0755); worker_id = atoi(w);
		if (const char *k = getenv("PBT_KNOWN")) { std::istringstream is(k); std::string x; while (std::getline(is, x, ',')) known_keys.insert(x); }
		fuzz_slot = (Slot *)map_file((std::string(dir) + "/slot" + w).c_str(), sizeof(Slot));
		fuzz_set = (DistinctSet *)map_file((std::string(dir) + "/set").c_str(), sizeof(DistinctSet));
		atexit([] { // summary of this process, for the driver
			std::ofstream f(std::string(getenv("PBT_SCRATCH")) + "/sum" + getenv("PBT_WORKER"));
			f << "{\"evaluations\":" << fuzz_slot->cases_done << ",\"excluded\":" << fuzz_slot->excluded << ",\"distinct\":" << fuzz_set->count << ",\"rule\":\"" << json_escape(p->rule) << "\",\"classes\":{";
			bool first = true; for (auto &l : fuzz_slot->labels) if (l.name[0]) { f << (first ? "" : ",") << "\"" << json_escape(l.name) << "\":" << l.count; first = false; }
			f << "},\"samples\":["; first = true;
			for (uint32_t i = 0; i < fuzz_slot->nsamples; i++) { f << (first ? "" : ",") << "\"" << json_escape(fuzz_slot->samples[i]) << "\""; first = false; }
			f << "]}\n";
		});
	}
	Ctx c; c.slot = fuzz_slot; c.set = fuzz_set; c.thorough = false; c.replay = true; c.prop = p->id;
	Gen g(fuzz_slot, data, size, true);
	fuzz_slot->state = 1;
	run_one(*p, g, c);
	fuzz_slot->state = 2; fuzz_slot->cases_done++;
	return 0;
}
#else
int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
#endif
