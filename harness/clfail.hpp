// C36, C37: the OpenCL decompressors on top of a runtime that fails, offers several devices, or is used by several threads.
#pragma once
#include <sys/wait.h>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <thread>
using simcl::DevCfg; using simcl::PlatCfg;

// what the library prints, captured without allocating
struct Capture {
	struct Sink : std::streambuf { char b[1 << 15]; size_t n = 0; int overflow(int c) override { if (c != EOF && n < sizeof b - 1) b[n++] = (char)c; return c == EOF ? 0 : c; } std::streamsize xsputn(const char *s, std::streamsize k) override { size_t m = std::min<size_t>(k, sizeof b - 1 - n); memcpy(b + n, s, m); n += m; return k; } };
	Sink out, err; std::streambuf *o, *e; std::ios::iostate os, es;
	Capture() { o = std::cout.rdbuf(&out); e = std::cerr.rdbuf(&err); std::cout.clear(); std::cerr.clear(); }
	~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); }
	std::string text() { return std::string(err.b, err.n) + std::string(out.b, out.n); }
};
// a request with its answer
struct Req { const ClCfg *f; size_t n = 0; Bytes in; std::vector<size_t> il; std::vector<Bytes> want; std::vector<int> rets; bool has_ilens, has_olens, has_rets, perm; };
static Req make_req(Gen &g, const ClCfg &f, bool with_bad) {
	Req q; q.f = &f; q.n = g.chance(1, 5) ? 1 + g.below(300) : 1 + g.below(5); if (f.cs > 4096) q.n = 1 + g.below(2); q.in.resize(q.n * f.stride); q.il.resize(q.n); q.want.resize(q.n); q.rets.assign(q.n, 0);
	q.has_ilens = !g.chance(1, 5); q.has_olens = !g.chance(1, 5); q.has_rets = !g.chance(1, 8); q.perm = g.chance(1, 3);
	Rng r(g.seed()); rnd_fill(r, q.in.data(), q.in.size());
	for (size_t i = 0; i < q.n; i++) {
		uint8_t *slot = &q.in[i * f.stride];
		if (f.fmt && r.chance(1, 4)) { slot[0] = 1; q.want[i].assign(slot, slot + f.cs); q.il[i] = f.cs; continue; }
		Chunk k; do { k = rng_chunk(r, f.cs, f.fmt ? f.cs - 24 : f.stride); } while (f.fmt == 2 && !inplace_ok(k.s, f.cs, k.enc.size()));
		if (with_bad && f.fmt == 0 && q.has_rets && r.chance(1, 4)) { k.enc.assign(8, 0xff); k.want.clear(); q.rets[i] = -EINVAL; } // an operation that does not exist
		if (f.fmt) put_comp(slot, f.cs, k.enc, k.enc.size()); else memcpy(slot, k.enc.data(), k.enc.size());
		q.want[i] = k.want; q.il[i] = k.enc.size();
	}
	return q;
}
static const ClCfg &fail_cfg(Gen &g) {
	static const ClCfg *v[] = {&CLCFGS[0], &CLXCFGS[0], &CLCFGS[9], &CLCFGS[20], &CLCFGS[3], &CLCFGS[16], &CLCFGS[8]};
	return *v[g.weighted({4, 2, 4, 4, 2, 2, 1})];
}
enum End { FINE, CLERR, NOMEM, OTHERERR, UNKNOWN };
struct Outcome { End e = FINE; int err = 0; char what[160] = ""; void set(End x, int c, const char *w) { e = x; err = c; snprintf(what, sizeof what, "%s", w ? w : ""); }
	std::string str() const { return e == FINE ? "completed" : e == CLERR ? pbt::fmt("cl::Error %s (%d)", what, err) : e == NOMEM ? "std::bad_alloc" : e == OTHERERR ? pbt::fmt("std::exception %s", what) : "an exception that is no std::exception"; } };
#define CATCH(o) catch (const cl::Error &x) { (o).set(CLERR, x.err(), x.what()); } catch (const std::bad_alloc &) { (o).set(NOMEM, 0, ""); } catch (const std::exception &x) { (o).set(OTHERERR, 0, x.what()); } catch (...) { (o).set(UNKNOWN, 0, ""); }
// buffers of one request, made beforehand so that only the library allocates while allocations fail
struct Bufs {
	const Req &q; Buf in, out; std::vector<size_t> il, ol, pm; std::vector<int> rt; long long time = 0; bool inplace;
	Bufs(const Req &q) : q(q), in(q.in), out(q.f->fmt == 2 ? 0 : q.n * q.f->cs), inplace(q.f->fmt == 2) { reset(); }
	void reset() { memcpy(in.p, q.in.data(), q.in.size()); il = q.il; ol.assign(q.n, q.f->cs); rt.assign(q.n, RET_UNSET); pm.resize(q.n); for (size_t i = 0; i < q.n; i++) pm[i] = q.n - 1 - i; if (!inplace) memset(out.p, 0x3b, out.n); }
	void call(const CLHostDecompressor &h, Outcome &o) {
		try { h.decompress(in.p, in.n, q.has_ilens ? il.data() : nullptr, inplace ? in.p : out.p, inplace ? in.n : out.n, q.has_olens ? ol.data() : nullptr, q.perm ? pm.data() : nullptr, q.has_rets ? rt.data() : nullptr, &time); }
		CATCH(o)
	}
	// "" or what is wrong
	std::string verdict() const {
		if (!in.intact() || !out.intact() || (!inplace && !in.eq(q.in))) return "bytes outside the output buffer were changed";
		const uint8_t *p = inplace ? in.p : out.p;
		for (size_t i = 0; i < q.n; i++) {
			if (q.has_rets && (q.rets[i] ? rt[i] >= 0 || rt[i] == RET_UNSET : rt[i] != 0)) return pbt::fmt("chunk %zu of %zu reports %d (expected %d)", i, q.n, rt[i], q.rets[i]);
			if (q.rets[i]) continue;
			if (q.has_olens && ol[i] != q.want[i].size()) return pbt::fmt("chunk %zu of %zu reports %zu bytes instead of %zu", i, q.n, ol[i], q.want[i].size());
			if (!q.want[i].empty() && memcmp(p + i * q.f->cs, q.want[i].data(), q.want[i].size())) return pbt::fmt("chunk %zu of %zu has the wrong contents", i, q.n);
		}
		return "";
	}
	bool guards() const { return in.intact() && out.intact(); }
};
static const int CODES[] = {CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY, CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_DEVICE_NOT_AVAILABLE, CL_COMPILER_NOT_AVAILABLE, CL_MAP_FAILURE, CL_INVALID_BINARY, CL_INVALID_VALUE, CL_INVALID_COMMAND_QUEUE, -9999, -1001};
static std::string cfg_name(const ClCfg &f) { return pbt::fmt("%zu/%zu/%d", f.cs, f.stride, f.fmt); }
static void no_misuse(Ctx &c, const char *where) { std::string m = simcl::misuse(); if (!m.empty()) c.fail("%s: misuse of OpenCL: %s", where, m.c_str()); }
static void none_left(Ctx &c, const std::string &where) { size_t n = simcl::live_objects(); if (n) c.fail("%s: OpenCL objects are never released: %s", where.c_str(), simcl::live_list().c_str()); no_misuse(c, where.c_str()); }

// one fault, armed around a phase
struct Fault { int kind = 0; uint64_t k = 0; int code = 0; bool sticky = false; // 0 runtime call, 1 kernel execution, 2 allocation
	void arm() const { if (kind == 0) simcl::arm(k, code, sticky); else if (kind == 1) simcl::arm_exec(1, code); else { simcl::arm(0, 0, false); simcl::new_fails(k - 1, sticky); } }
	uint64_t disarm(std::string &first) const { uint64_t bad = kind == 2 ? simcl::new_failed() : 0; simcl::new_fails(-1, false); simcl::Armed a = simcl::disarm(); first = a.first; return kind == 2 ? bad : a.failed; }
	std::string str() const { return kind == 0 ? pbt::fmt("runtime call %llu%s fails with %d", (unsigned long long)k, sticky ? " and all later ones" : "", code) : kind == 1 ? pbt::fmt("the kernel fails with %d", code) : pbt::fmt("allocation %llu%s fails", (unsigned long long)k, sticky ? " and all later ones" : ""); }
	bool expected(const Outcome &o) const {
		if (kind == 2) return o.e == NOMEM || o.e == OTHERERR || o.e == CLERR;
		return o.e == CLERR && (o.err == code || (kind == 1 && o.err == CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST));
	}
};
static Fault pick_fault(Gen &g, uint64_t calls, uint64_t allocs, bool exec) {
	Fault f; f.kind = g.weighted({6, exec ? 1u : 0u, 3}); f.sticky = f.kind != 1 && g.chance(1, 3);
	f.code = f.kind == 1 ? (int)g.pick({-5, -9999, -1, -54}) : CODES[g.below(sizeof CODES / sizeof *CODES)];
	f.k = 1 + g.below(f.kind == 2 ? std::max<uint64_t>(allocs, 1) : std::max<uint64_t>(calls, 1)); return f;
}

static void c36_fault(Gen &g, Ctx &c) {
	const ClCfg &f = fail_cfg(g); bool verbose = g.chance(1, 2), profile = g.chance(1, 3), cached = g.chance(1, 2), in_ctor = g.chance(1, 2);
	Req q = make_req(g, f, true); Bufs b(q);
	unsigned order = g.below(2);
	::unlink(cachefs::file().c_str());
	Capture cap; simcl::order_seed(order ? g.seed() : 0);
	// reference run: everything works; counts the calls and allocations of both phases
	uint64_t calls[2], allocs[2];
	auto construct = [&](std::unique_ptr<CLHostDecompressor> &h, Outcome &o) { try { h.reset(new CLHostDecompressor(f.cs, f.stride, fmt_of(f), verbose, profile)); } CATCH(o) };
	auto fresh = [&](const std::string &when) { // a new object works
		Outcome o; std::unique_ptr<CLHostDecompressor> h; construct(h, o); if (!h) c.fail("%s: constructing a decompressor failed: %s", when.c_str(), o.str().c_str());
		b.reset(); b.call(*h, o); std::string v = o.e == FINE ? b.verdict() : o.str(); if (!v.empty()) c.fail("%s: decompressing failed: %s", when.c_str(), v.c_str());
	};
	if (cached) { fresh("without faults (" + cfg_name(f) + ")"); none_left(c, "without faults"); }
	{
		Outcome o; std::unique_ptr<CLHostDecompressor> h; std::string cache; if (!cached) ::unlink(cachefs::file().c_str());
		simcl::arm(0, 0, false); simcl::new_fails(-1, false); construct(h, o); allocs[0] = simcl::new_seen(); calls[0] = simcl::disarm().calls;
		if (!h) c.fail("constructing a decompressor without faults failed: %s", o.str().c_str());
		b.reset(); simcl::arm(0, 0, false); simcl::new_fails(-1, false); b.call(*h, o); allocs[1] = simcl::new_seen(); calls[1] = simcl::disarm().calls;
		std::string v = o.e == FINE ? b.verdict() : o.str(); if (!v.empty()) c.fail("%s, %zu chunks, without faults: %s", cfg_name(f).c_str(), q.n, v.c_str());
	}
	none_left(c, "without faults"); if (!cached) ::unlink(cachefs::file().c_str());
	Fault ft = pick_fault(g, calls[!in_ctor], allocs[!in_ctor], !in_ctor);
	if (!in_ctor && g.chance(1, 4)) ft.k = 1 + (ft.k - 1) % 8; // the buffers are created first
	std::string first, what = pbt::fmt("%s, %zu chunks%s%s%s, %s: %s", cfg_name(f).c_str(), q.n, verbose ? ", verbose" : "", profile ? ", profiling" : "", cached ? ", program in the cache" : "", in_ctor ? "constructing" : "decompressing", ft.str().c_str());
	uint64_t hit = 0; Outcome o;
	{
		std::unique_ptr<CLHostDecompressor> h; b.reset();
		if (in_ctor) { ft.arm(); construct(h, o); hit = ft.disarm(first); } else { construct(h, o); if (!h) c.fail("constructing a decompressor without faults failed: %s", o.str().c_str()); ft.arm(); b.call(*h, o); hit = ft.disarm(first); }
		if (!first.empty()) what += " (" + first + ")";
		if (!b.guards()) c.fail("%s: bytes around the buffers were changed", what.c_str());
		if (o.e != FINE) {
			if (!hit) c.fail("%s: no fault happened, but %s", what.c_str(), o.str().c_str());
			if (!ft.expected(o)) c.fail("%s: reported as %s", what.c_str(), o.str().c_str());
		} else if (!in_ctor) { std::string v = b.verdict(); if (!v.empty()) c.fail("%s: no exception, but %s", what.c_str(), v.c_str()); }
		if (h) { // the object still works
			Outcome p; b.reset(); b.call(*h, p); std::string v = p.e == FINE ? b.verdict() : p.str();
			if (!v.empty()) c.fail("%s; %s; later, without faults, the same object fails: %s", what.c_str(), o.str().c_str(), v.c_str());
		}
	}
	none_left(c, what);
	fresh(what + "; " + o.str() + "; afterwards"); none_left(c, what);
	if (hit) { c.label(ft.kind == 2 ? "allocation failed" : ft.kind == 1 ? "kernel execution failed" : ("failed: " + first).c_str()); c.label(o.e == FINE ? "fault survived" : "fault reported"); c.nontrivial(pbt::hash_bytes(what.data(), what.size())); if (c.want_sample()) c.sample(what + " -> " + o.str()); }
	else c.label("fault not reached");
	cap.text();
}
static std::string plat_name(const std::vector<PlatCfg> &p) {
	std::string s; for (auto &x : p) { s += "["; for (auto &d : x) s += std::string(s.back() == '[' ? "" : " ") + (d.accel ? "accelerator" : d.gpu ? "GPU" : "CPU") + (d.available ? "" : "(off)") + ":" + d.name; s += "]"; } return s.empty() ? "no platforms" : s;
}
static std::vector<PlatCfg> pick_plats(Gen &g) {
	std::vector<PlatCfg> p; size_t np = g.weighted({1, 4, 4, 2}); static const char *names[] = {"A", "B", "A2", "GeForce", "A"};
	for (size_t i = 0; i < np; i++) { PlatCfg x; size_t nd = g.weighted({2, 5, 3, 1}); for (size_t j = 0; j < nd; j++) { DevCfg d; d.gpu = g.chance(1, 2); d.available = !g.chance(1, 3); d.name = names[g.below(5)]; d.accel = g.chance(1, 10); x.push_back(d); } p.push_back(x); }
	return p;
}
// choice of devices, and the cache going from one set of devices to another
static void c37_devices(Gen &g, Ctx &c) {
	::unlink(cachefs::file().c_str()); Capture cap; std::string hist; unsigned worked = 0, none = 0; size_t steps = 1 + g.below(4); bool multi = false;
	for (size_t s = 0; s < steps; s++) {
		std::vector<PlatCfg> p = pick_plats(g); bool err = g.chance(1, 2), verbose = g.chance(1, 3);
		simcl::configure(p, err); const ClCfg &f = *(&CLCFGS[0] + g.pick({0, 0, 9, 20}));
		hist += (s ? "; then " : "") + plat_name(p) + " " + cfg_name(f);
		bool gpu = false, cpu = false; unsigned cnt = 0; for (auto &x : p) for (auto &d : x) if (d.available && !d.accel) { (d.gpu ? gpu : cpu) = true; cnt++; }
		Req q = make_req(g, f, false); Outcome o;
		{
			Bufs b(q); std::unique_ptr<CLHostDecompressor> h;
			try { h.reset(new CLHostDecompressor(f.cs, f.stride, fmt_of(f), verbose, false)); } CATCH(o)
			if (!gpu && !cpu) {
				if (h) c.fail("%s: a decompressor was constructed although no CPU or GPU is available", hist.c_str());
				if (o.e != CLERR || (!p.empty() && o.err != CL_DEVICE_NOT_FOUND)) c.fail("%s: without devices, construction ended with %s", hist.c_str(), o.str().c_str());
				none++;
			} else {
				if (!h) c.fail("%s: construction failed although a device is available: %s", hist.c_str(), o.str().c_str());
				simcl::Chosen ch = simcl::last_context();
				for (int d : ch.devices) { const DevCfg &dc = p[ch.platform][d]; if (!dc.available) c.fail("%s: device %d of platform %d was chosen, which is not available", hist.c_str(), d, ch.platform);
					if (gpu && !dc.gpu) c.fail("%s: device %d of platform %d was chosen, which is no GPU", hist.c_str(), d, ch.platform); }
				b.call(*h, o); std::string v = o.e == FINE ? b.verdict() : o.str(); if (!v.empty()) c.fail("%s: %s", hist.c_str(), v.c_str());
				worked++; if (cnt > 1) multi = true;
			}
		}
		none_left(c, hist);
	}
	simcl::configure_default();
	c.label(none ? "no device" : "devices found"); if (multi) c.label("several devices");
	if (multi || none) { c.nontrivial(pbt::hash_bytes(hist.data(), hist.size())); if (c.want_sample()) c.sample(hist); }
}
// the program does not build
static void c36_build(Gen &g, Ctx &c) {
	::unlink(cachefs::file().c_str()); Capture cap; const ClCfg &f = fail_cfg(g); bool cached = g.chance(1, 2), host = g.chance(1, 2); Req q = make_req(g, f, false); Outcome o;
	std::string log = pbt::fmt("error: line %llu is wrong", (unsigned long long)g.below(1000)); std::string got;
	if (cached) { CLHostDecompressor h(f.cs, f.stride, fmt_of(f), false, false); }
	none_left(c, "before"); size_t printed = cap.out.n + cap.err.n;
	{
		simcl::build_fails(true, log); std::ostringstream es, ds; 
		if (host) { try { CLHostDecompressor h(f.cs, f.stride, fmt_of(f), false, false); } CATCH(o) got = std::string(cap.err.b, cap.err.n); }
		else { cl::vector<cl::Device> devs = find_devs(); cl::Context ctx(devs); try { CLDeviceDecompressor d(ctx, devs, f.cs, f.stride, fmt_of(f), [&]() -> std::ostream & { return es; }, [&]() -> std::ostream & { return ds; }); } CATCH(o) got = es.str(); if (cap.out.n + cap.err.n != printed) c.fail("a device decompressor with its own loggers printed to the standard streams"); }
		simcl::build_fails(false, "");
	}
	if (o.e != CLERR || o.err != CL_BUILD_PROGRAM_FAILURE) c.fail("%s: a program that does not build%s ended with %s", cfg_name(f).c_str(), cached ? " (neither from the cache)" : "", o.str().c_str());
	if (got.find(log) == std::string::npos) c.fail("%s: the build log did not reach the error logger; it got \"%s\"", cfg_name(f).c_str(), got.substr(0, 200).c_str());
	none_left(c, "after the failed build");
	{ CLHostDecompressor h(f.cs, f.stride, fmt_of(f), false, false); Bufs b(q); Outcome p; b.call(h, p); std::string v = p.e == FINE ? b.verdict() : p.str(); if (!v.empty()) c.fail("%s: after a failed build: %s", cfg_name(f).c_str(), v.c_str()); }
	none_left(c, "after the failed build");
	c.label("build failure"); c.nontrivial(pbt::mix(g.seed(), cached * 2 + host));
}
// the device interface: faults inside its constructor and decompress()
static void c36_device(Gen &g, Ctx &c) {
	::unlink(cachefs::file().c_str()); Capture cap; const ClCfg &f = fail_cfg(g); bool in_ctor = g.chance(1, 3); Req q = make_req(g, f, false); q.has_rets = q.has_olens = true; q.perm = false; Outcome o;
	Fault ft; uint64_t hit = 0; std::string first, what; uint64_t k = g.below(1000); bool inplace = f.fmt == 2; ft = pick_fault(g, 16, 16, !in_ctor);
	{
		cl::vector<cl::Device> devs = find_devs(); cl::Context ctx(devs); cl::CommandQueue queue(ctx, devs[0]); std::unique_ptr<CLDeviceDecompressor> d; auto lg = []() -> std::ostream & { return std::cerr; };
		auto construct = [&]() { d.reset(new CLDeviceDecompressor(ctx, devs, f.cs, f.stride, fmt_of(f), lg, lg)); };
		if (in_ctor) { simcl::arm(0, 0, false); simcl::new_fails(-1, false); construct(); uint64_t n = ft.kind == 2 ? simcl::new_seen() : simcl::disarm().calls; simcl::disarm(); d.reset(); ::unlink(cachefs::file().c_str()); ft.k = 1 + k % n;
			ft.arm(); try { construct(); } CATCH(o) hit = ft.disarm(first); }
		else construct();
		what = pbt::fmt("device interface, %s, %zu chunks, %s: %s", cfg_name(f).c_str(), q.n, in_ctor ? "constructing" : "decompressing", ft.str().c_str());
		auto run = [&](bool fault, Outcome &oc) -> std::string {
			Bytes in = q.in, out(q.n * f.cs, 0x3b); in.resize(in.size() + 64, 0x42); std::vector<cl_ulong> il(q.il.begin(), q.il.end()), ol(q.n, f.cs); std::vector<cl_int> rt(q.n, RET_UNSET);
			auto mk = [&](void *p, size_t n) { return cl::Buffer(ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, n, p); };
			cl::Buffer bi = mk(in.data(), in.size()), bo = inplace ? bi : mk(out.data(), out.size()), bil = mk(il.data(), il.size() * 8), bol = mk(ol.data(), ol.size() * 8), brt = mk(rt.data(), rt.size() * 4), none;
			cl::Event ev;
			if (fault) ft.arm();
			try { d->decompress(queue, q.n, bi, 0, bil, bo, 0, bol, none, brt, nullptr, &ev); } CATCH(oc)
			if (fault && ft.kind != 1) hit = ft.disarm(first);
			if (oc.e == FINE) { try { ev.wait(); } CATCH(oc) }
			if (fault && ft.kind == 1) hit = ft.disarm(first);
			if (oc.e != FINE) return "";
			queue.enqueueReadBuffer(inplace ? bi : bo, CL_TRUE, 0, out.size(), out.data()); queue.enqueueReadBuffer(bol, CL_TRUE, 0, ol.size() * 8, ol.data()); queue.enqueueReadBuffer(brt, CL_TRUE, 0, rt.size() * 4, rt.data());
			for (size_t i = 0; i < q.n; i++) if (rt[i] || ol[i] != q.want[i].size() || (!q.want[i].empty() && memcmp(&out[i * f.cs], q.want[i].data(), q.want[i].size()))) return pbt::fmt("chunk %zu of %zu is wrong (ret %d, size %zu instead of %zu)", i, q.n, rt[i], (size_t)ol[i], q.want[i].size());
			return "";
		};
		if (!in_ctor) { std::string v = run(true, o); if (!v.empty()) c.fail("%s: no exception, but %s", what.c_str(), v.c_str()); }
		if (o.e != FINE) { if (!hit) c.fail("%s: no fault happened, but %s", what.c_str(), o.str().c_str()); if (!ft.expected(o)) c.fail("%s: reported as %s", what.c_str(), o.str().c_str()); }
		if (!d) construct();
		Outcome p; std::string v = run(false, p); if (p.e != FINE) v = p.str();
		if (!v.empty()) c.fail("%s (%s); %s; later, without faults: %s", what.c_str(), first.c_str(), o.str().c_str(), v.c_str());
	}
	none_left(c, what);
	if (hit) { c.label("device interface: fault"); c.nontrivial(pbt::hash_bytes(what.data(), what.size())); }
}
// Several requests in flight: inputs arriving through other queues, requests chained by their events, results fetched
// behind the last event
static void c37_events(Gen &g, Ctx &c) {
	Capture cap; const ClCfg &f = fail_cfg(g); bool inplace = f.fmt == 2; unsigned n = 1 + g.below(3), nq = 1 + g.below(2); std::string hist = cfg_name(f); bool waits_used = false;
	simcl::order_seed(g.chance(1, 2) ? g.seed() : 0);
	{
		cl::vector<cl::Device> devs = find_devs(); cl::Context ctx(devs); auto lg = []() -> std::ostream & { return std::cerr; }; CLDeviceDecompressor d(ctx, devs, f.cs, f.stride, fmt_of(f), lg, lg);
		std::vector<cl::CommandQueue> qs; for (unsigned i = 0; i < nq; i++) qs.emplace_back(ctx, devs[0]); cl::CommandQueue up(ctx, devs[0]), down(ctx, devs[0]);
		struct J { Req q; Bytes in, out; std::vector<cl_ulong> il, ol; std::vector<cl_int> rt; cl::Buffer bi, bo, bil, bol, brt; cl::Event ev; bool with_event; unsigned qi; }; std::vector<std::unique_ptr<J>> js; cl::Buffer none;
		for (unsigned i = 0; i < n; i++) {
			auto j = std::make_unique<J>(); j->q = make_req(g, f, false); J &x = *j; x.in = x.q.in; x.in.resize(x.in.size() + 64, 0x42); x.out.assign(x.q.n * f.cs, 0x3b); x.il.assign(x.q.il.begin(), x.q.il.end()); x.ol.assign(x.q.n, f.cs); x.rt.assign(x.q.n, RET_UNSET); x.qi = g.below(nq); x.with_event = g.chance(3, 4);
			auto mk = [&](size_t k) { return cl::Buffer(ctx, CL_MEM_READ_WRITE, k); };
			x.bi = mk(x.in.size()); x.bo = inplace ? x.bi : mk(x.out.size()); x.bil = mk(x.il.size() * 8); x.bol = mk(x.ol.size() * 8); x.brt = mk(x.rt.size() * 4);
			bool late = g.chance(2, 3); cl::CommandQueue &w = late ? up : qs[x.qi]; cl::vector<cl::Event> ev(3);
			w.enqueueWriteBuffer(x.bi, CL_FALSE, 0, x.in.size(), x.in.data(), nullptr, &ev[0]); w.enqueueWriteBuffer(x.bil, CL_FALSE, 0, x.il.size() * 8, x.il.data(), nullptr, &ev[1]); w.enqueueWriteBuffer(x.bol, CL_FALSE, 0, x.ol.size() * 8, x.ol.data(), nullptr, &ev[2]);
			if (!late && g.chance(1, 2)) ev.clear();
			if (i && g.chance(1, 2) && js[i - 1]->with_event) ev.push_back(js[i - 1]->ev);
			hist += pbt::fmt("; %zu chunks on queue %u, %zu events to wait for%s", x.q.n, x.qi, ev.size(), x.with_event ? "" : ", no event returned"); waits_used |= late;
			Outcome o; try { d.decompress(qs[x.qi], x.q.n, x.bi, 0, x.bil, x.bo, 0, x.bol, none, x.brt, ev.empty() ? nullptr : &ev, x.with_event ? &x.ev : nullptr); } CATCH(o)
			if (o.e != FINE) c.fail("%s: %s", hist.c_str(), o.str().c_str());
			js.push_back(std::move(j));
		}
		for (unsigned i = n; i-- > 0;) {
			J &x = *js[i]; cl::vector<cl::Event> ev; if (x.with_event) { if (x.ev() == nullptr) c.fail("%s: no event was returned", hist.c_str()); ev.push_back(x.ev); }
			cl::CommandQueue &r = x.with_event ? down : qs[x.qi]; r.enqueueReadBuffer(inplace ? x.bi : x.bo, CL_FALSE, 0, x.out.size(), x.out.data(), ev.empty() ? nullptr : &ev); r.enqueueReadBuffer(x.bol, CL_FALSE, 0, x.ol.size() * 8, x.ol.data()); r.enqueueReadBuffer(x.brt, CL_TRUE, 0, x.rt.size() * 4, x.rt.data());
			for (size_t k = 0; k < x.q.n; k++) if (x.rt[k] || x.ol[k] != x.q.want[k].size() || (!x.q.want[k].empty() && memcmp(&x.out[k * f.cs], x.q.want[k].data(), x.q.want[k].size()))) c.fail("%s: request %u: chunk %zu is wrong (ret %d, size %zu instead of %zu)", hist.c_str(), i, k, x.rt[k], (size_t)x.ol[k], x.q.want[k].size());
		}
	}
	none_left(c, hist); c.label("requests chained by events"); if (waits_used) { c.nontrivial(pbt::hash_bytes(hist.data(), hist.size(), g.seed())); if (c.want_sample()) c.sample(hist); }
}
// cl842_decompress keeps one decompressor for the process; each case gets a process of its own
static void c36_simple(Gen &g, Ctx &c) {
	unsigned ncalls = 2 + g.below(4); struct Call { Fault f; bool fault; gen::Stream s; Bytes e; }; std::vector<Call> v; unsigned faults = 0; bool nodev = g.chance(1, 8), cached = g.chance(1, 3);
	for (unsigned i = 0; i < ncalls; i++) { Call k; k.fault = i + 1 < ncalls && g.chance(2, 3); uint64_t lim = g.pick({20, 60, 200}); k.f = pick_fault(g, lim, lim * 2, true); Rng r(g.seed()); k.s = rng_stream(r, 2000, 4000); k.e = k.s.encode(); faults += k.fault; v.push_back(k); }
	::unlink(cachefs::file().c_str()); if (cached) { CLHostDecompressor h(65536, SIZE_MAX / 2, CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS, false, false); }
	int fd[2]; if (pipe(fd)) abort();
	std::string cachedir = cachefs::dir();
	fflush(nullptr); pid_t pid = fork();
	if (pid == 0) {
		cachefs::keep = cachedir;
		close(fd[0]); std::string msg; unsigned hits = 0; { Capture cap; if (nodev) simcl::configure({}, true);
		for (unsigned i = 0; i < ncalls && msg.empty(); i++) {
			Call &k = v[i]; Buf in(k.e), out(k.s.out.size()); size_t ol = k.s.out.size(); int ret = 4711; bool thrown = false; std::string first, ex;
			if (nodev && i == 1) simcl::configure_default();
			if (k.fault) k.f.arm(); else { simcl::arm(0, 0, false); simcl::new_fails(-1, false); }
			try { ret = cl842_decompress(in.p, in.n, out.p, &ol); } catch (...) { thrown = true; }
			uint64_t hit = k.fault ? k.f.disarm(first) : 0; hits += hit != 0;
			std::string w = pbt::fmt("cl842_decompress, call %u%s%s: ", i + 1, k.fault ? (", " + k.f.str() + (first.empty() ? "" : " (" + first + ")")).c_str() : "", nodev && i == 0 ? ", no platform" : "");
			if (thrown) msg = w + "an exception leaves the C function";
			else if (!in.intact() || !in.eq(k.e) || !out.intact()) msg = w + "bytes outside the output were changed";
			else if (ret == 0 && (ol != k.s.out.size() || !out.eq(k.s.out))) msg = w + "it reports success, but the data is wrong";
			else if (ret > 0) msg = w + pbt::fmt("it returns %d", ret);
			else if (ret < 0 && !hit && !(nodev && i == 0)) msg = w + pbt::fmt("it returns %d although nothing failed in this call", ret);
		}
		if (msg.empty()) msg = simcl::misuse(); }
		if (!msg.empty()) (void)!write(fd[1], msg.data(), msg.size());
		close(fd[1]); _exit(hits ? 3 : 0);
	}
	close(fd[1]); std::string msg; char b[512]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) msg.append(b, n); close(fd[0]);
	int st = 0; waitpid(pid, &st, 0);
	if (!msg.empty()) c.fail("%s", msg.c_str());
	if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) c.fail("cl842_decompress: the process died (status %x) in a history of %u calls, %u with a fault", st, ncalls, faults);
	c.label("cl842_decompress"); if (WEXITSTATUS(st) == 3 || nodev) c.nontrivial(pbt::mix(g.seed(), faults));
	none_left(c, "before cl842_decompress");
}
// one decompressor shared by threads
static void c37_threads(Gen &g, Ctx &c) {
	::unlink(cachefs::file().c_str()); Capture cap; const ClCfg &f = fail_cfg(g); unsigned nt = 2 + g.below(3), rounds = 1 + g.below(3); std::vector<Req> q; for (unsigned i = 0; i < nt; i++) q.push_back(make_req(g, f, true));
	std::vector<std::string> bad(nt);
	{
		CLHostDecompressor h(f.cs, f.stride, fmt_of(f), false, g.chance(1, 2)); simcl::yields(g.pick({0, 300, 700})); std::vector<std::thread> ts; std::atomic<unsigned> ready{0};
		for (unsigned i = 0; i < nt; i++) ts.emplace_back([&, i]() { Bufs b(q[i]); ready++; while (ready < nt) sched_yield(); for (unsigned k = 0; k < rounds && bad[i].empty(); k++) { Outcome o; b.reset(); b.call(h, o); bad[i] = o.e == FINE ? b.verdict() : o.str(); } });
		for (auto &t : ts) t.join();
		simcl::yields(0);
	}
	for (unsigned i = 0; i < nt; i++) if (!bad[i].empty()) c.fail("%s: thread %u of %u that share a decompressor: %s", cfg_name(f).c_str(), i, nt, bad[i].c_str());
	none_left(c, "threads"); c.label("shared by threads"); c.nontrivial(pbt::mix(g.seed(), nt));
}
// requests whose buffers do not fit the format: refused before anything happens
static void c38(Gen &g, Ctx &c) {
	cl_init(); simcl::configure_default(); simcl::order_seed(0);
	Capture cap; const ClCfg &f = fail_cfg(g); bool dev = f.fmt == 2 && g.chance(1, 2), verbose = g.chance(1, 4); std::string hist = cfg_name(f) + (dev ? " device" : " host"); unsigned refused = 0;
	simcl::yields(0);
	if (dev) {
		cl::vector<cl::Device> devs = find_devs(); cl::Context ctx(devs); cl::CommandQueue queue(ctx, devs[0]); auto lg = []() -> std::ostream & { return std::cerr; }; CLDeviceDecompressor d(ctx, devs, f.cs, f.stride, fmt_of(f), lg, lg);
		for (unsigned s = 0, steps = 2 + g.below(3); s < steps; s++) {
			Req q = make_req(g, f, false); unsigned how = s + 1 == steps ? 0 : g.below(4); size_t off = 8 * (1 + g.below(40));
			Bytes in(off); in.insert(in.end(), q.in.begin(), q.in.end()); in.resize(in.size() + 64, 0x42); Bytes out(in.size(), 0x3b); std::vector<cl_ulong> il(q.il.begin(), q.il.end()), ol(q.n, f.cs); std::vector<cl_int> rt(q.n, RET_UNSET);
			auto mk = [&](void *p, size_t n) { return cl::Buffer(ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, n, p); };
			cl::Buffer bi = mk(in.data(), in.size()), b2 = mk(out.data(), out.size()), bil = mk(il.data(), il.size() * 8), bol = mk(ol.data(), ol.size() * 8), brt = mk(rt.data(), rt.size() * 4), none;
			// 0 valid; 1 another buffer; 2 another offset, output later; 3 another offset, input later
			hist += how == 0 ? "; in place" : how == 1 ? "; different buffers" : pbt::fmt("; offsets %zu and %zu", how == 3 ? off : 0, how == 2 ? off : 0);
			cl::Event ev; Outcome o; uint64_t runs = simcl::kernels_run();
			try { d.decompress(queue, q.n, bi, how == 0 || how == 1 || how == 3 ? off : 0, bil, how == 1 ? b2 : bi, how == 0 || how == 1 || how == 2 ? off : 0, bol, none, brt, nullptr, &ev); if (how == 0) ev.wait(); queue.finish(); } CATCH(o)
			Bytes in2(in.size()), out2(out.size()); std::vector<cl_ulong> ol2(q.n); std::vector<cl_int> rt2(q.n);
			queue.enqueueReadBuffer(bi, CL_TRUE, 0, in2.size(), in2.data()); queue.enqueueReadBuffer(b2, CL_TRUE, 0, out2.size(), out2.data()); queue.enqueueReadBuffer(bol, CL_TRUE, 0, ol2.size() * 8, ol2.data()); queue.enqueueReadBuffer(brt, CL_TRUE, 0, rt2.size() * 4, rt2.data());
			if (how) {
				if (o.e != CLERR || o.err != CL_INVALID_VALUE) c.fail("%s: not refused with CL_INVALID_VALUE: %s", hist.c_str(), o.str().c_str());
				if (simcl::kernels_run() != runs) c.fail("%s: refused, but the kernel was run", hist.c_str());
				if (in2 != in || out2 != out || ol2 != ol || rt2 != rt) c.fail("%s: refused, but buffers were changed", hist.c_str());
				refused++; continue;
			}
			if (o.e != FINE) c.fail("%s: a valid request ended with %s", hist.c_str(), o.str().c_str());
			for (size_t i = 0; i < q.n; i++) if (rt2[i] || ol2[i] != q.want[i].size() || (!q.want[i].empty() && memcmp(&in2[off + i * f.cs], q.want[i].data(), q.want[i].size()))) c.fail("%s: chunk %zu of %zu is wrong (ret %d)", hist.c_str(), i, q.n, rt2[i]);
		}
	} else {
		CLHostDecompressor h(f.cs, f.stride, fmt_of(f), verbose, g.chance(1, 4));
		for (unsigned s = 0, steps = 2 + g.below(3); s < steps; s++) {
			Req q = make_req(g, f, false); Bufs b(q); bool last = s + 1 == steps; Outcome o; uint64_t runs = simcl::kernels_run();
			unsigned how = last ? 0 : f.fmt == 0 ? g.below(2) : g.below(3); size_t n = b.in.n;
			if (!how) { b.call(h, o); std::string v = o.e == FINE ? b.verdict() : o.str(); if (!v.empty()) c.fail("%s; a valid request of %zu chunks: %s", hist.c_str(), q.n, v.c_str()); hist += pbt::fmt("; %zu chunks", q.n); continue; }
			Buf other(n); memset(other.p, 0x3b, n);
			// 1: the same buffer for both (out of place) or different ones (in place); 2: sizes that differ
			uint8_t *op = f.fmt == 2 ? (how == 1 ? other.p : b.in.p) : how == 1 ? b.in.p : b.out.p; size_t on = f.fmt == 2 ? n : how == 1 ? (f.fmt ? n : std::min(n, b.out.n)) : b.out.n, in = n;
			if (how == 2) { size_t less = 1 + g.below(std::min<size_t>(n, 2 * f.cs)); if (g.chance(1, 2)) in -= less; else on -= less; if (!in) in = n - 1; }
			hist += pbt::fmt("; %zu chunks, %s, input %zu bytes, output %zu", q.n, how == 2 ? "sizes differ" : f.fmt == 2 ? "different buffers" : "the same buffer", in, on);
			std::vector<size_t> il = b.il, ol = b.ol, pm = b.pm; Bytes before(b.in.p, b.in.p + n), obefore(b.out.p, b.out.p + b.out.n); long long tm = 0;
			try { h.decompress(b.in.p, in, q.has_ilens ? b.il.data() : nullptr, op, on, q.has_olens ? b.ol.data() : nullptr, q.perm ? b.pm.data() : nullptr, q.has_rets ? b.rt.data() : nullptr, &tm); } CATCH(o)
			if (o.e != CLERR || o.err != CL_INVALID_VALUE) c.fail("%s: not refused with CL_INVALID_VALUE: %s", hist.c_str(), o.str().c_str());
			if (simcl::kernels_run() != runs) c.fail("%s: refused, but the kernel was run", hist.c_str());
			if (!b.guards() || !other.intact() || memcmp(b.in.p, before.data(), n) || (b.out.n && memcmp(b.out.p, obefore.data(), b.out.n)) || std::count(other.p, other.p + n, 0x3b) != (ptrdiff_t)n) c.fail("%s: refused, but data was changed", hist.c_str());
			if (b.il != il || b.ol != ol || b.pm != pm || std::count(b.rt.begin(), b.rt.end(), RET_UNSET) != (ptrdiff_t)q.n) c.fail("%s: refused, but sizes or results were changed", hist.c_str());
			refused++;
		}
	}
	none_left(c, hist); c.label(dev ? "device interface" : f.fmt == 2 ? "host, in place" : f.fmt ? "host, maybe compressed" : "host, always compressed");
	if (refused) { c.nontrivial(pbt::hash_bytes(hist.data(), hist.size(), g.seed())); if (c.want_sample()) c.sample(hist); }
}
static void sim_init() { cl_init(); simcl::configure_default(); simcl::order_seed(0); }
static void c36(Gen &g, Ctx &c) {
	sim_init();
	switch (g.weighted({10, 1, 4, 4})) {
	case 0: return c36_fault(g, c);
	case 1: return c36_build(g, c);
	case 2: return c36_device(g, c);
	default: return c36_simple(g, c);
	}
}
static void c37(Gen &g, Ctx &c) {
	sim_init();
	switch (g.weighted({5, 2, 3})) {
	case 0: return c37_devices(g, c);
	case 1: return c37_threads(g, c);
	default: return c37_events(g, c);
	}
}
