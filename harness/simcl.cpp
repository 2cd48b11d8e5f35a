#include "simcl.hpp"
#include <sys/mman.h>
#include "pbt.hpp"
using pbt::Rng;
#include <CL/cl.h>
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <sched.h>
#include <set>

extern "C" {
typedef void (*kernel_fn)(const uint64_t *in, uint64_t inOffset, const uint64_t *ilen, uint64_t *out, uint64_t outOffset, uint64_t *olen, uint64_t numChunks, const uint64_t *shuffle, int *rets);
extern kernel_fn cl_kernels[];            // generated: parameters in the order above
extern const unsigned cl_nkernels;
extern const unsigned long cl_khash[];    // hash of source and options
extern const unsigned char cl_korder[][9]; // parameter i of the kernel is entry cl_korder[k][i] of the order above
}

// ---- failing allocations ----------------------------------------------------------------------------------------
static thread_local int64_t new_left = -1; static thread_local bool new_sticky; static thread_local uint64_t new_n, new_bad; static thread_local int new_exempt;
static void *xnew(size_t n) {
	if (!new_exempt) {
		new_n++;
		if (new_left == 0) { if (!new_sticky) new_left = -1; new_bad++; throw std::bad_alloc(); }
		if (new_left > 0) new_left--;
	}
	void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new(size_t n) { return xnew(n); }
void *operator new[](size_t n) { return xnew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return xnew(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return xnew(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
namespace { struct Exempt { Exempt() { new_exempt++; } ~Exempt() { new_exempt--; } }; }

// ---- objects ----------------------------------------------------------------------------------------------------
enum Kind { CONTEXT = 1, QUEUE, PROGRAM, KERNEL, MEM, EVENT };
static const char *kind_name[] = {"?", "context", "queue", "program", "kernel", "buffer", "event"};
struct Obj { Kind kind; int refs = 1, uses = 0; bool dead = false; Obj(Kind k) : kind(k) {} virtual ~Obj() {} };
struct _cl_device_id { int plat, idx; simcl::DevCfg cfg; };
struct _cl_platform_id { int idx; std::vector<std::unique_ptr<_cl_device_id>> devs; };
struct _cl_context : Obj { std::vector<cl_device_id> devs; _cl_context() : Obj(CONTEXT) {} };
struct _cl_mem : Obj { cl_context ctx; cl_mem_flags flags; uint8_t *p; size_t n; void *host = nullptr;
	struct Map { uint8_t *shadow; size_t off, len; cl_map_flags fl; int count; }; std::vector<Map> maps;
	_cl_mem() : Obj(MEM) {} ~_cl_mem() { free(p); for (auto &m : maps) free(m.shadow); } };
struct Built { bool ok = false, tried = false; int index = -1; std::string log, options, madefor; };
struct _cl_program : Obj { cl_context ctx; std::string source; std::vector<std::string> bins; std::vector<cl_device_id> devs; std::vector<Built> built; _cl_program() : Obj(PROGRAM) {} };
struct Arg { bool set = false; cl_mem mem = nullptr; uint64_t v = 0; size_t size = 0; };
struct _cl_kernel : Obj { cl_program prog; std::vector<Arg> args; _cl_kernel() : Obj(KERNEL) {} };
struct _cl_event : Obj { cl_context ctx; cl_command_queue q; int status = CL_QUEUED; bool prof = false; uint64_t t[4] = {0, 0, 0, 0}; _cl_event() : Obj(EVENT) {} };
struct Cmd { int type; cl_event ev; cl_kernel k = nullptr; std::vector<Arg> args; int index = 0; std::string madefor; size_t gsize = 0, goff = 0; cl_mem m = nullptr, m2 = nullptr; size_t off = 0, off2 = 0, len = 0; void *host = nullptr; const void *chost = nullptr; std::string pat; std::vector<cl_event> waits; };
struct _cl_command_queue : Obj { cl_context ctx; cl_device_id dev; cl_command_queue_properties props; std::vector<Cmd> pending; _cl_command_queue() : Obj(QUEUE) {} };

namespace {
// Large areas are never touched where the program does not touch them
const size_t BIG = size_t(128) << 20, PAGE = 4096;
uint8_t *area_new(size_t n, int fill) {
	if (n < BIG) { uint8_t *p = (uint8_t *)malloc(n); if (p) memset(p, fill, n); return p; }
	size_t l = (n + PAGE - 1) / PAGE * PAGE; uint8_t *p = (uint8_t *)mmap(nullptr, l + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) return nullptr;
	madvise(p, l, MADV_NOHUGEPAGE); mprotect(p + l, PAGE, PROT_NONE); return p;
}
void area_free(uint8_t *p, size_t n) { if (!p) return; if (n < BIG) free(p); else munmap(p, (n + PAGE - 1) / PAGE * PAGE + PAGE); }
void area_copy(void *d, const void *s, size_t n) {
	if (n < BIG) { memcpy(d, s, n); return; }
	for (size_t i = 0; i < n; i += PAGE) { size_t k = std::min(PAGE, n - i); if (memcmp((char *)d + i, (const char *)s + i, k)) memcpy((char *)d + i, (const char *)s + i, k); }
}
struct State {
	std::recursive_mutex m;
	std::vector<std::unique_ptr<_cl_platform_id>> plats; bool noplat_err = false, deflt = false;
	std::map<void *, Obj *> all; // alive (and, in `graves`, dead ones, whose address is not used again)
	std::vector<Obj *> graves;
	simcl::Chosen chosen; int qdev = -1;
	uint64_t calls = 0, fail_at = 0, failed = 0; int code = 0; bool sticky = false; std::string first;
	uint64_t exec_at = 0, execs = 0; int exec_code = 0;
	bool bfail = false; std::string blog;
	uint64_t order = 0; unsigned yield = 0; std::string bad; uint64_t runs = 0, stubs = 0, rejected = 0, used = 0, clock = 1000000;
};
State &S() { static State *s = new State; return *s; }
void misuse(const std::string &w) { if (S().bad.empty()) S().bad = w; }
struct Lock { Exempt e; Lock() { State &s = S(); static thread_local Rng r(0x51a5 + (uintptr_t)&r); if (s.yield && r.below(1000) < s.yield) { for (unsigned i = r.below(4); i; i--) sched_yield(); } s.m.lock(); } ~Lock() { S().m.unlock(); } };
int fault(const char *fn) {
	State &s = S(); s.calls++;
	if (s.fail_at && (s.calls == s.fail_at || (s.sticky && s.calls > s.fail_at))) { s.failed++; if (s.first.empty()) s.first = fn; return s.code; }
	return 0;
}
template <class T> bool alive(T *o, Kind k, const char *fn) {
	if (!o) return false;
	auto it = S().all.find((void *)o);
	if (it == S().all.end() || it->second->kind != k) {
		misuse(std::string(fn) + ": not an object"); return false;
	}
	if (it->second->dead && !((k == CONTEXT || k == PROGRAM) && it->second->uses)) { misuse(std::string(fn) + " with a " + kind_name[k] + " that was released"); return false; }
	return true;
}
template <class T> T *reg(T *o) { S().all[static_cast<Obj *>(o)] = o; return o; }
void put(Obj *o);
void hold(Obj *o) { o->uses++; }
void bury(Obj *o) {
	switch (o->kind) {
	case CONTEXT: break;
	case QUEUE: put(static_cast<cl_command_queue>(o)->ctx); break;
	case PROGRAM: put(static_cast<cl_program>(o)->ctx); break;
	case KERNEL: put(static_cast<cl_kernel>(o)->prog); break;
	case MEM: { cl_mem m = static_cast<cl_mem>(o); put(m->ctx); area_free(m->p, m->n); m->p = nullptr; break; }
	case EVENT: put(static_cast<cl_event>(o)->ctx); break;
	}
	S().graves.push_back(o);
}
void put(Obj *o) { if (--o->uses == 0 && o->dead) bury(o); } // internal use ends
void drain(cl_command_queue q);
cl_int release(Obj *o) {
	if (o->kind == QUEUE) drain(static_cast<cl_command_queue>(o));
	if (--o->refs == 0) { o->dead = true; if (!o->uses) bury(o); }
	return CL_SUCCESS;
}
uint64_t khash(const std::string &src, const std::string &opt) {
	uint64_t h = 0xcbf29ce484222325ULL; auto add = [&](uint8_t b) { h = (h ^ b) * 0x100000001b3ULL; };
	for (uint8_t c : src) add(c); add(0); for (uint8_t c : opt) add(c); return h;
}
int kernel_index(const std::string &src, const std::string &opt) { uint64_t h = khash(src, opt); for (unsigned i = 0; i < cl_nkernels; i++) if (cl_khash[i] == h) return i; return -1; }
cl_event new_event(cl_context ctx, cl_command_queue q, bool profile) { cl_event e = reg(new _cl_event); e->ctx = ctx; e->q = q; e->prof = profile; hold(ctx); e->t[0] = e->t[1] = S().clock += 1000; return e; }
bool mem_ok(cl_mem m, const char *fn) { return alive(m, MEM, fn); }
bool mapped_for(cl_mem m, bool write) { for (auto &x : m->maps) if (write || (x.fl & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION))) return true; return false; }

// ---- execution --------------------------------------------------------------------------------------------------
size_t cur_gid;
void run_kernel(Cmd &c) {
	State &s = S(); s.runs++;
	if (c.index < 0) {
		// stub: the return values parameter is taken to be the last one
		s.stubs++; if (c.args.size() >= 9 && c.args[8].mem && c.args[8].mem->p) for (size_t i = 0; i < c.args[8].mem->n / 4; i++) ((int *)c.args[8].mem->p)[i] = 777;
		return;
	}
	void *ptr[9] = {}; uint64_t val[9] = {}; std::vector<std::pair<cl_mem, std::string>> ro;
	for (unsigned i = 0; i < 9; i++) {
		const Arg &a = c.args[i]; unsigned to = cl_korder[c.index][i];
		if (a.mem) {
			ptr[to] = a.mem->p;
			if ((a.mem->flags & CL_MEM_READ_ONLY) && a.mem->n < BIG) ro.push_back({a.mem, std::string((char *)a.mem->p, a.mem->n)});
			if (mapped_for(a.mem, false)) misuse("kernel executed while one of its buffers is mapped for writing");
		} else val[to] = a.v;
	}
	std::vector<size_t> order(c.gsize); for (size_t i = 0; i < c.gsize; i++) order[i] = i;
	if (s.order) { Rng r(s.order); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); }
	for (size_t i : order) {
		if (i > val[6] + 300 && i + 2 < c.gsize) continue; // far beyond the chunks: the last ones stand for them all
		cur_gid = i + c.goff;
		cl_kernels[c.index]((const uint64_t *)ptr[0], val[1], (const uint64_t *)ptr[2], (uint64_t *)ptr[3], val[4], (uint64_t *)ptr[5], val[6], (const uint64_t *)ptr[7], (int *)ptr[8]);
	}
	for (auto &x : ro) if (memcmp(x.first->p, x.second.data(), x.second.size())) misuse("kernel changed a buffer created read-only");
}
void drain(cl_command_queue q) {
	State &s = S();
	std::vector<Cmd> todo; todo.swap(q->pending);
	for (auto &c : todo) {
		for (cl_event w : c.waits) { if (w->q != q && w->status > 0) drain(w->q); }
		c.ev->t[2] = s.clock += 1500000; int st = CL_COMPLETE;
		for (cl_event w : c.waits) if (w->status < 0) st = CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST;
		if (st == CL_COMPLETE) switch (c.type) {
		case CL_COMMAND_NDRANGE_KERNEL:
			s.execs++;
			if (s.exec_at && s.execs == s.exec_at) { s.failed++; if (s.first.empty()) s.first = "kernel execution"; st = s.exec_code; break; }
			run_kernel(c); break;
		case CL_COMMAND_READ_BUFFER: area_copy(c.host, c.m->p + c.off, c.len); break;
		case CL_COMMAND_WRITE_BUFFER: area_copy(c.m->p + c.off, c.chost, c.len); break;
		case CL_COMMAND_COPY_BUFFER: memcpy(c.m2->p + c.off2, c.m->p + c.off, c.len); break;
		case CL_COMMAND_FILL_BUFFER: for (size_t i = 0; i < c.len; i++) c.m->p[c.off + i] = c.pat[i % c.pat.size()]; break;
		case CL_COMMAND_MAP_BUFFER: for (auto &x : c.m->maps) if (x.shadow == c.host) { if (x.fl & CL_MAP_WRITE_INVALIDATE_REGION) { if (x.len < BIG) memset(x.shadow, 0xDB, x.len); } else area_copy(x.shadow, c.m->p + x.off, x.len); } break;
		case CL_COMMAND_UNMAP_MEM_OBJECT:
			for (size_t i = 0; i < c.m->maps.size(); i++) { auto &x = c.m->maps[i]; if (x.shadow != c.host) continue;
				if (x.fl & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION)) area_copy(c.m->p + x.off, x.shadow, x.len);
				else if (memcmp(x.shadow, c.m->p + x.off, x.len)) misuse("a region mapped for reading was written");
				area_free(x.shadow, x.len); c.m->maps.erase(c.m->maps.begin() + i); break; }
			break;
		default: break; // marker
		}
		c.ev->t[3] = s.clock += 4000000; c.ev->status = st;
		for (auto &a : c.args) if (a.mem) put(a.mem);
		if (c.k) put(c.k);
		if (c.m) put(c.m);
		if (c.m2) put(c.m2);
		for (cl_event w : c.waits) put(w);
		put(c.ev);
	}
}
cl_int submit(cl_command_queue q, Cmd &c, cl_uint nw, const cl_event *w, cl_event *ev, const char *fn) {
	if ((nw == 0) != (w == nullptr)) return CL_INVALID_EVENT_WAIT_LIST;
	for (cl_uint i = 0; i < nw; i++) { if (!alive(w[i], EVENT, fn)) return CL_INVALID_EVENT_WAIT_LIST; c.waits.push_back(w[i]); }
	c.ev = new_event(q->ctx, q, q->props & CL_QUEUE_PROFILING_ENABLE);
	hold(c.ev); for (cl_event e : c.waits) hold(e);
	if (c.m) hold(c.m);
	if (c.m2) hold(c.m2);
	if (c.k) hold(c.k);
	for (auto &a : c.args) if (a.mem) hold(a.mem);
	cl_event e = c.ev; q->pending.push_back(std::move(c));
	if (ev) *ev = e; else release(e);
	return CL_SUCCESS;
}
template <class T> cl_int ret(const T *v, size_t cnt, size_t n, void *out, size_t *sz) {
	size_t l = cnt * sizeof(T); if (sz) *sz = l;
	if (out) { if (n < l) return CL_INVALID_VALUE; if (l) memcpy(out, v, l); }
	return CL_SUCCESS;
}
template <class T> cl_int ret1(T v, size_t n, void *out, size_t *sz) { return ret(&v, 1, n, out, sz); }
cl_int rets(const std::string &v, size_t n, void *out, size_t *sz) { return ret(v.c_str(), v.size() + 1, n, out, sz); }
#define SETERR(e) do { if (err) *err = (e); } while (0)
#define FAIL(e) do { SETERR(e); return nullptr; } while (0)
}

size_t get_global_id(unsigned d) { return d ? 0 : cur_gid; }
size_t get_local_id(unsigned d) { return d ? 0 : cur_gid % 256; }
size_t get_group_id(unsigned d) { return d ? 0 : cur_gid / 256; }
size_t get_local_size(unsigned d) { return d ? 1 : 256; }
size_t get_global_offset(unsigned) { return 0; }

extern "C" {
// ---- platforms, devices, contexts, queues -----------------------------------------------------------------------
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *p, cl_uint *num) {
	Lock l; State &s = S(); if (int e = fault("clGetPlatformIDs")) return e;
	if ((n == 0 && p) || (!num && !p)) return CL_INVALID_VALUE;
	if (s.plats.empty() && s.noplat_err) return -1001;
	if (num) *num = s.plats.size();
	for (cl_uint i = 0; p && i < n && i < s.plats.size(); i++) p[i] = s.plats[i].get();
	return CL_SUCCESS;
}
cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetPlatformInfo")) return e;
	if (!p) return CL_INVALID_PLATFORM;
	switch (w) { case CL_PLATFORM_NAME: return rets("Simulated " + std::to_string(p->idx), n, v, sz); case CL_PLATFORM_VERSION: return rets("OpenCL 1.2 sim", n, v, sz); case CL_PLATFORM_VENDOR: return rets("sim", n, v, sz); case CL_PLATFORM_PROFILE: return rets("FULL_PROFILE", n, v, sz); case CL_PLATFORM_EXTENSIONS: return rets("", n, v, sz); }
	return CL_INVALID_VALUE;
}
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *d, cl_uint *num) {
	Lock l; if (int e = fault("clGetDeviceIDs")) return e;
	if (!p) return CL_INVALID_PLATFORM;
	if ((n == 0 && d) || (!num && !d)) return CL_INVALID_VALUE;
	std::vector<cl_device_id> r;
	for (auto &x : p->devs) { cl_device_type ty = x->cfg.accel ? CL_DEVICE_TYPE_ACCELERATOR : x->cfg.gpu ? CL_DEVICE_TYPE_GPU : CL_DEVICE_TYPE_CPU; if ((t & ty) || (t == CL_DEVICE_TYPE_DEFAULT && r.empty())) r.push_back(x.get()); }
	if (r.empty()) return CL_DEVICE_NOT_FOUND;
	if (num) *num = r.size();
	for (size_t i = 0; d && i < n && i < r.size(); i++) d[i] = r[i];
	return CL_SUCCESS;
}
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetDeviceInfo")) return e;
	if (!d) return CL_INVALID_DEVICE;
	switch (w) {
	case CL_DEVICE_NAME: return rets(d->cfg.name, n, v, sz);
	case CL_DEVICE_AVAILABLE: return ret1<cl_bool>(d->cfg.available, n, v, sz);
	case CL_DEVICE_COMPILER_AVAILABLE: case CL_DEVICE_LINKER_AVAILABLE: case CL_DEVICE_ENDIAN_LITTLE: return ret1<cl_bool>(CL_TRUE, n, v, sz);
	case CL_DEVICE_TYPE: return ret1<cl_device_type>(d->cfg.accel ? CL_DEVICE_TYPE_ACCELERATOR : d->cfg.gpu ? CL_DEVICE_TYPE_GPU : CL_DEVICE_TYPE_CPU, n, v, sz);
	case CL_DEVICE_PLATFORM: return ret1<cl_platform_id>(S().plats[d->plat].get(), n, v, sz);
	case CL_DEVICE_VENDOR: return rets("sim", n, v, sz);
	case CL_DEVICE_VERSION: return rets("OpenCL 1.2 sim", n, v, sz);
	case CL_DEVICE_OPENCL_C_VERSION: return rets("OpenCL C 1.2 sim", n, v, sz);
	case CL_DRIVER_VERSION: return rets("1.0", n, v, sz);
	case CL_DEVICE_EXTENSIONS: case CL_DEVICE_BUILT_IN_KERNELS: return rets("", n, v, sz);
	case CL_DEVICE_PROFILE: return rets("FULL_PROFILE", n, v, sz);
	case CL_DEVICE_MAX_WORK_GROUP_SIZE: return ret1<size_t>(1024, n, v, sz);
	case CL_DEVICE_MAX_COMPUTE_UNITS: return ret1<cl_uint>(4, n, v, sz);
	case CL_DEVICE_VENDOR_ID: return ret1<cl_uint>(0x842, n, v, sz);
	case CL_DEVICE_ADDRESS_BITS: return ret1<cl_uint>(64, n, v, sz);
	case CL_DEVICE_MEM_BASE_ADDR_ALIGN: return ret1<cl_uint>(1024, n, v, sz);
	case CL_DEVICE_GLOBAL_MEM_SIZE: return ret1<cl_ulong>(4ull << 30, n, v, sz);
	case CL_DEVICE_MAX_MEM_ALLOC_SIZE: return ret1<cl_ulong>(1ull << 34, n, v, sz);
	case CL_DEVICE_LOCAL_MEM_SIZE: return ret1<cl_ulong>(32768, n, v, sz);
	case CL_DEVICE_HOST_UNIFIED_MEMORY: return ret1<cl_bool>(!d->cfg.gpu, n, v, sz);
	case CL_DEVICE_REFERENCE_COUNT: return ret1<cl_uint>(1, n, v, sz);
	case CL_DEVICE_QUEUE_PROPERTIES: return ret1<cl_command_queue_properties>(CL_QUEUE_PROFILING_ENABLE, n, v, sz);
	}
	return CL_INVALID_VALUE;
}
cl_int clRetainDevice(cl_device_id d) { return d ? CL_SUCCESS : CL_INVALID_DEVICE; }
cl_int clReleaseDevice(cl_device_id d) { return d ? CL_SUCCESS : CL_INVALID_DEVICE; }
static cl_context mk_context(std::vector<cl_device_id> d, cl_int *err) {
	if (d.empty()) FAIL(CL_INVALID_VALUE);
	for (auto x : d) { if (!x || x->plat != d[0]->plat) FAIL(CL_INVALID_DEVICE); if (!x->cfg.available) FAIL(CL_DEVICE_NOT_AVAILABLE); }
	cl_context c = reg(new _cl_context); c->devs = d; SETERR(CL_SUCCESS);
	S().chosen.platform = d[0]->plat; S().chosen.devices.clear(); for (auto x : d) S().chosen.devices.push_back(x->idx);
	return c;
}
cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d, void (CL_CALLBACK *)(const char *, const void *, size_t, void *), void *, cl_int *err) {
	Lock l; if (int e = fault("clCreateContext")) FAIL(e);
	if (!d || !n) FAIL(CL_INVALID_VALUE);
	return mk_context(std::vector<cl_device_id>(d, d + n), err);
}
cl_context clCreateContextFromType(const cl_context_properties *pr, cl_device_type t, void (CL_CALLBACK *)(const char *, const void *, size_t, void *), void *, cl_int *err) {
	Lock l; if (int e = fault("clCreateContextFromType")) FAIL(e);
	cl_platform_id p = S().plats.empty() ? nullptr : S().plats[0].get(); for (; pr && pr[0]; pr += 2) if (pr[0] == CL_CONTEXT_PLATFORM) p = (cl_platform_id)pr[1];
	if (!p) FAIL(CL_INVALID_PLATFORM);
	std::vector<cl_device_id> r; for (auto &x : p->devs) if (t & (x->cfg.accel ? CL_DEVICE_TYPE_ACCELERATOR : x->cfg.gpu ? CL_DEVICE_TYPE_GPU : CL_DEVICE_TYPE_CPU)) r.push_back(x.get());
	if (r.empty()) FAIL(CL_DEVICE_NOT_FOUND);
	return mk_context(r, err);
}
cl_int clGetContextInfo(cl_context c, cl_context_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetContextInfo")) return e;
	if (!alive(c, CONTEXT, "clGetContextInfo")) return CL_INVALID_CONTEXT;
	switch (w) { case CL_CONTEXT_REFERENCE_COUNT: return ret1<cl_uint>(c->refs, n, v, sz); case CL_CONTEXT_DEVICES: return ret(c->devs.data(), c->devs.size(), n, v, sz); case CL_CONTEXT_NUM_DEVICES: return ret1<cl_uint>(c->devs.size(), n, v, sz); case CL_CONTEXT_PROPERTIES: return ret<cl_context_properties>(nullptr, 0, n, v, sz); }
	return CL_INVALID_VALUE;
}
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int *err) {
	Lock l; if (int e = fault("clCreateCommandQueue")) FAIL(e);
	if (!alive(c, CONTEXT, "clCreateCommandQueue")) FAIL(CL_INVALID_CONTEXT);
	if (std::find(c->devs.begin(), c->devs.end(), d) == c->devs.end()) FAIL(CL_INVALID_DEVICE);
	cl_command_queue q = reg(new _cl_command_queue); q->ctx = c; q->dev = d; q->props = p; hold(c); S().qdev = d->idx; SETERR(CL_SUCCESS); return q;
}
cl_command_queue clCreateCommandQueueWithProperties(cl_context c, cl_device_id d, const uint64_t *p, cl_int *err) {
	cl_command_queue_properties f = 0; for (; p && p[0]; p += 2) if (p[0] == 0x1093) f = p[1];
	return clCreateCommandQueue(c, d, f, err);
}
cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetCommandQueueInfo")) return e;
	if (!alive(q, QUEUE, "clGetCommandQueueInfo")) return CL_INVALID_COMMAND_QUEUE;
	switch (w) { case CL_QUEUE_CONTEXT: return ret1(q->ctx, n, v, sz); case CL_QUEUE_DEVICE: return ret1(q->dev, n, v, sz); case CL_QUEUE_PROPERTIES: return ret1(q->props, n, v, sz); case CL_QUEUE_REFERENCE_COUNT: return ret1<cl_uint>(q->refs, n, v, sz); }
	return CL_INVALID_VALUE;
}
#define RETREL(Name, T, K, E) \
	cl_int clRetain##Name(T o) { Lock l; if (!alive(o, K, "clRetain" #Name)) return E; o->refs++; o->dead = false; return CL_SUCCESS; } \
	cl_int clRelease##Name(T o) { Lock l; if (!alive(o, K, "clRelease" #Name)) return E; return release(o); }
RETREL(Context, cl_context, CONTEXT, CL_INVALID_CONTEXT)
RETREL(CommandQueue, cl_command_queue, QUEUE, CL_INVALID_COMMAND_QUEUE)
RETREL(MemObject, cl_mem, MEM, CL_INVALID_MEM_OBJECT)
RETREL(Program, cl_program, PROGRAM, CL_INVALID_PROGRAM)
RETREL(Kernel, cl_kernel, KERNEL, CL_INVALID_KERNEL)
RETREL(Event, cl_event, EVENT, CL_INVALID_EVENT)

// ---- buffers ----------------------------------------------------------------------------------------------------
cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void *host, cl_int *err) {
	Lock l; if (int e = fault("clCreateBuffer")) FAIL(e);
	if (!alive(c, CONTEXT, "clCreateBuffer")) FAIL(CL_INVALID_CONTEXT);
	if (n == 0 || n > (1ull << 34)) FAIL(CL_INVALID_BUFFER_SIZE);
	unsigned acc = !!(f & CL_MEM_READ_WRITE) + !!(f & CL_MEM_READ_ONLY) + !!(f & CL_MEM_WRITE_ONLY); if (acc > 1) FAIL(CL_INVALID_VALUE);
	bool h = f & (CL_MEM_USE_HOST_PTR | CL_MEM_COPY_HOST_PTR); if (h != (host != nullptr)) FAIL(CL_INVALID_HOST_PTR);
	cl_mem m = new _cl_mem; m->ctx = c; m->flags = f; m->n = n; m->p = area_new(n, 0xC5); if (!m->p) { delete m; FAIL(CL_MEM_OBJECT_ALLOCATION_FAILURE); }
	reg(m); hold(c); if (h) { area_copy(m->p, host, n); m->host = host; }
	SETERR(CL_SUCCESS); return m;
}
cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetMemObjectInfo")) return e;
	if (!mem_ok(m, "clGetMemObjectInfo")) return CL_INVALID_MEM_OBJECT;
	switch (w) { case CL_MEM_TYPE: return ret1<cl_mem_object_type>(CL_MEM_OBJECT_BUFFER, n, v, sz); case CL_MEM_FLAGS: return ret1(m->flags, n, v, sz); case CL_MEM_SIZE: return ret1(m->n, n, v, sz); case CL_MEM_HOST_PTR: return ret1(m->host, n, v, sz); case CL_MEM_CONTEXT: return ret1(m->ctx, n, v, sz); case CL_MEM_REFERENCE_COUNT: return ret1<cl_uint>(m->refs, n, v, sz); case CL_MEM_MAP_COUNT: return ret1<cl_uint>(m->maps.size(), n, v, sz); }
	return CL_INVALID_VALUE;
}
#define QCHECK(fn) if (!alive(q, QUEUE, fn)) return CL_INVALID_COMMAND_QUEUE
#define MCHECK(m, fn, off, len) if (!mem_ok(m, fn)) return CL_INVALID_MEM_OBJECT; if ((m)->ctx != q->ctx) return CL_INVALID_CONTEXT; if ((off) > (m)->n || (len) > (m)->n - (off) || !(len)) return CL_INVALID_VALUE
static cl_int sync(cl_command_queue q, cl_event ev, cl_bool blocking) { if (!blocking) return CL_SUCCESS; drain(q); return ev && ev->status < 0 ? ev->status : CL_SUCCESS; }
static cl_int submit_sync(cl_command_queue q, Cmd &c, cl_uint nw, const cl_event *w, cl_event *ev, cl_bool blocking, const char *fn) {
	cl_event e = nullptr; cl_int r = submit(q, c, nw, w, &e, fn); if (r) return r;
	r = sync(q, e, blocking); if (ev && !r) *ev = e; else release(e); return r;
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool bl, size_t off, size_t len, void *p, cl_uint nw, const cl_event *w, cl_event *ev) {
	Lock l; if (int e = fault("clEnqueueReadBuffer")) return e;
	QCHECK("clEnqueueReadBuffer"); MCHECK(m, "clEnqueueReadBuffer", off, len); if (!p) return CL_INVALID_VALUE;
	if (m->flags & (CL_MEM_HOST_WRITE_ONLY | CL_MEM_HOST_NO_ACCESS)) return CL_INVALID_OPERATION;
	Cmd c; c.type = CL_COMMAND_READ_BUFFER; c.m = m; c.off = off; c.len = len; c.host = p; return submit_sync(q, c, nw, w, ev, bl, "clEnqueueReadBuffer");
}
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool bl, size_t off, size_t len, const void *p, cl_uint nw, const cl_event *w, cl_event *ev) {
	Lock l; if (int e = fault("clEnqueueWriteBuffer")) return e;
	QCHECK("clEnqueueWriteBuffer"); MCHECK(m, "clEnqueueWriteBuffer", off, len); if (!p) return CL_INVALID_VALUE;
	if (m->flags & (CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_NO_ACCESS)) return CL_INVALID_OPERATION;
	Cmd c; c.type = CL_COMMAND_WRITE_BUFFER; c.m = m; c.off = off; c.len = len; c.chost = p; return submit_sync(q, c, nw, w, ev, bl, "clEnqueueWriteBuffer");
}
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem a, cl_mem b, size_t ao, size_t bo, size_t len, cl_uint nw, const cl_event *w, cl_event *ev) {
	Lock l; if (int e = fault("clEnqueueCopyBuffer")) return e;
	QCHECK("clEnqueueCopyBuffer"); MCHECK(a, "clEnqueueCopyBuffer", ao, len); MCHECK(b, "clEnqueueCopyBuffer", bo, len);
	if (a == b && (ao < bo ? bo - ao < len : ao - bo < len)) return CL_MEM_COPY_OVERLAP;
	Cmd c; c.type = CL_COMMAND_COPY_BUFFER; c.m = a; c.m2 = b; c.off = ao; c.off2 = bo; c.len = len; return submit(q, c, nw, w, ev, "clEnqueueCopyBuffer");
}
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void *pat, size_t pn, size_t off, size_t len, cl_uint nw, const cl_event *w, cl_event *ev) {
	Lock l; if (int e = fault("clEnqueueFillBuffer")) return e;
	QCHECK("clEnqueueFillBuffer"); MCHECK(m, "clEnqueueFillBuffer", off, len); if (!pat || !pn || (pn & (pn - 1)) || pn > 128 || off % pn || len % pn) return CL_INVALID_VALUE;
	Cmd c; c.type = CL_COMMAND_FILL_BUFFER; c.m = m; c.off = off; c.len = len; c.pat.assign((const char *)pat, pn); return submit(q, c, nw, w, ev, "clEnqueueFillBuffer");
}
void *clEnqueueMapBuffer(cl_command_queue q, cl_mem m, cl_bool bl, cl_map_flags fl, size_t off, size_t len, cl_uint nw, const cl_event *w, cl_event *ev, cl_int *err) {
	Lock l; if (int e = fault("clEnqueueMapBuffer")) FAIL(e);
	auto chk = [&]() -> cl_int { QCHECK("clEnqueueMapBuffer"); MCHECK(m, "clEnqueueMapBuffer", off, len); return CL_SUCCESS; };
	if (cl_int e = chk()) FAIL(e);
	if ((fl & CL_MAP_READ) && (m->flags & (CL_MEM_HOST_WRITE_ONLY | CL_MEM_HOST_NO_ACCESS))) FAIL(CL_INVALID_OPERATION);
	if ((fl & ~CL_MAP_READ) && (m->flags & (CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_NO_ACCESS))) FAIL(CL_INVALID_OPERATION);
	uint8_t *sh = area_new(len, 0x77); if (!sh) FAIL(CL_OUT_OF_HOST_MEMORY); m->maps.push_back({sh, off, len, fl, 1});
	Cmd c; c.type = CL_COMMAND_MAP_BUFFER; c.m = m; c.host = sh;
	cl_int r = submit_sync(q, c, nw, w, ev, bl, "clEnqueueMapBuffer"); if (r) FAIL(r);
	SETERR(CL_SUCCESS); return sh;
}
cl_int clEnqueueUnmapMemObject(cl_command_queue q, cl_mem m, void *p, cl_uint nw, const cl_event *w, cl_event *ev) {
	Lock l; if (int e = fault("clEnqueueUnmapMemObject")) return e;
	QCHECK("clEnqueueUnmapMemObject"); if (!mem_ok(m, "clEnqueueUnmapMemObject")) return CL_INVALID_MEM_OBJECT;
	bool f = false; for (auto &x : m->maps) f |= x.shadow == p; if (!f) { misuse("unmapping a pointer that is not mapped"); return CL_INVALID_VALUE; }
	Cmd c; c.type = CL_COMMAND_UNMAP_MEM_OBJECT; c.m = m; c.host = p; return submit(q, c, nw, w, ev, "clEnqueueUnmapMemObject");
}

// ---- programs and kernels ---------------------------------------------------------------------------------------
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **str, const size_t *len, cl_int *err) {
	Lock l; if (int e = fault("clCreateProgramWithSource")) FAIL(e);
	if (!alive(c, CONTEXT, "clCreateProgramWithSource")) FAIL(CL_INVALID_CONTEXT);
	if (!n || !str) FAIL(CL_INVALID_VALUE);
	cl_program p = reg(new _cl_program); p->ctx = c; hold(c); p->devs = c->devs; p->built.resize(p->devs.size());
	for (cl_uint i = 0; i < n; i++) p->source += len && len[i] ? std::string(str[i], len[i]) : std::string(str[i]);
	SETERR(CL_SUCCESS); return p;
}
// a binary: magic, index+1 (0: stub), check value, device name
static std::string make_bin(int index, const std::string &dev) { std::string b = "SIMCLBIN"; uint32_t i = index + 1; b.append((char *)&i, 4); b += dev; b.resize(200, '#'); uint64_t h = khash(b, "bin"); b.append((char *)&h, 8); return b; }
static bool read_bin(const std::string &b, int &index, std::string &dev) {
	if (b.size() != 208 || b.compare(0, 8, "SIMCLBIN")) return false;
	uint64_t h; memcpy(&h, &b[200], 8); if (h != khash(b.substr(0, 200), "bin")) return false;
	uint32_t i; memcpy(&i, &b[8], 4); index = (int)i - 1; dev = b.substr(12, 188); while (!dev.empty() && dev.back() == '#') dev.pop_back();
	return index < (int)cl_nkernels;
}
cl_program clCreateProgramWithBinary(cl_context c, cl_uint n, const cl_device_id *d, const size_t *len, const unsigned char **b, cl_int *status, cl_int *err) {
	Lock l; if (int e = fault("clCreateProgramWithBinary")) FAIL(e);
	if (!alive(c, CONTEXT, "clCreateProgramWithBinary")) FAIL(CL_INVALID_CONTEXT);
	if (!n || !d || !len || !b) FAIL(CL_INVALID_VALUE);
	std::vector<std::string> bins; bool ok = true;
	for (cl_uint i = 0; i < n; i++) {
		if (std::find(c->devs.begin(), c->devs.end(), d[i]) == c->devs.end()) FAIL(CL_INVALID_DEVICE);
		if (!len[i] || !b[i]) { if (status) status[i] = CL_INVALID_VALUE; FAIL(CL_INVALID_VALUE); }
		bins.emplace_back((const char *)b[i], len[i]); int ix; std::string dev; bool good = read_bin(bins.back(), ix, dev); ok &= good; if (status) status[i] = good ? CL_SUCCESS : CL_INVALID_BINARY;
	}
	if (!ok) { S().rejected++; FAIL(CL_INVALID_BINARY); }
	cl_program p = reg(new _cl_program); p->ctx = c; hold(c); p->devs.assign(d, d + n); p->built.resize(n); p->bins = bins; S().used++;
	SETERR(CL_SUCCESS); return p;
}
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id *d, const char *opt, void (CL_CALLBACK *cb)(cl_program, void *), void *user) {
	{ Lock l; if (int e = fault("clBuildProgram")) return e;
	if (!alive(p, PROGRAM, "clBuildProgram")) return CL_INVALID_PROGRAM;
	if ((n == 0) != (d == nullptr)) return CL_INVALID_VALUE;
	std::vector<cl_device_id> ds(d, d + n); if (!n) ds = p->devs;
	for (auto x : ds) {
		size_t i = std::find(p->devs.begin(), p->devs.end(), x) - p->devs.begin(); if (i == p->devs.size()) return CL_INVALID_DEVICE;
		Built &b = p->built[i]; b.tried = true; b.options = opt ? opt : "";
		if (S().bfail) { b.ok = false; b.log = S().blog; continue; }
		b.ok = true; b.log = "";
		if (p->bins.empty()) { b.index = kernel_index(p->source, b.options); b.madefor = x->cfg.name; } else read_bin(p->bins[i], b.index, b.madefor);
	}
	if (S().bfail) return CL_BUILD_PROGRAM_FAILURE; }
	if (cb) cb(p, user);
	return CL_SUCCESS;
}
cl_int clGetProgramInfo(cl_program p, cl_program_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetProgramInfo")) return e;
	if (!alive(p, PROGRAM, "clGetProgramInfo")) return CL_INVALID_PROGRAM;
	std::vector<std::string> bins; std::vector<size_t> sizes;
	for (size_t i = 0; i < p->devs.size(); i++) { bins.push_back(!p->bins.empty() ? p->bins[i] : p->built[i].ok ? make_bin(p->built[i].index, p->devs[i]->cfg.name) : ""); sizes.push_back(bins.back().size()); }
	switch (w) {
	case CL_PROGRAM_REFERENCE_COUNT: return ret1<cl_uint>(p->refs, n, v, sz);
	case CL_PROGRAM_CONTEXT: return ret1(p->ctx, n, v, sz);
	case CL_PROGRAM_NUM_DEVICES: return ret1<cl_uint>(p->devs.size(), n, v, sz);
	case CL_PROGRAM_DEVICES: return ret(p->devs.data(), p->devs.size(), n, v, sz);
	case CL_PROGRAM_SOURCE: return rets(p->source, n, v, sz);
	case CL_PROGRAM_BINARY_SIZES: return ret(sizes.data(), sizes.size(), n, v, sz);
	case CL_PROGRAM_BINARIES: if (sz) *sz = bins.size() * sizeof(void *); if (v) { if (n < bins.size() * sizeof(void *)) return CL_INVALID_VALUE; for (size_t i = 0; i < bins.size(); i++) if (((void **)v)[i]) memcpy(((void **)v)[i], bins[i].data(), bins[i].size()); } return CL_SUCCESS;
	case CL_PROGRAM_NUM_KERNELS: return ret1<size_t>(1, n, v, sz);
	case CL_PROGRAM_KERNEL_NAMES: return rets("decompress", n, v, sz);
	}
	return CL_INVALID_VALUE;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id d, cl_program_build_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetProgramBuildInfo")) return e;
	if (!alive(p, PROGRAM, "clGetProgramBuildInfo")) return CL_INVALID_PROGRAM;
	size_t i = std::find(p->devs.begin(), p->devs.end(), d) - p->devs.begin(); if (i == p->devs.size()) return CL_INVALID_DEVICE;
	switch (w) { case CL_PROGRAM_BUILD_STATUS: return ret1<cl_build_status>(!p->built[i].tried ? CL_BUILD_NONE : p->built[i].ok ? CL_BUILD_SUCCESS : CL_BUILD_ERROR, n, v, sz); case CL_PROGRAM_BUILD_OPTIONS: return rets(p->built[i].options, n, v, sz); case CL_PROGRAM_BUILD_LOG: return rets(p->built[i].log, n, v, sz); case CL_PROGRAM_BINARY_TYPE: return ret1<cl_program_binary_type>(p->built[i].ok ? CL_PROGRAM_BINARY_TYPE_EXECUTABLE : CL_PROGRAM_BINARY_TYPE_NONE, n, v, sz); }
	return CL_INVALID_VALUE;
}
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *err) {
	Lock l; if (int e = fault("clCreateKernel")) FAIL(e);
	if (!alive(p, PROGRAM, "clCreateKernel")) FAIL(CL_INVALID_PROGRAM);
	bool any = false; for (auto &b : p->built) any |= b.ok; if (!any) FAIL(CL_INVALID_PROGRAM_EXECUTABLE);
	if (!name || strcmp(name, "decompress")) FAIL(CL_INVALID_KERNEL_NAME);
	cl_kernel k = reg(new _cl_kernel); k->prog = p; hold(p); k->args.resize(9); SETERR(CL_SUCCESS); return k;
}
cl_int clCreateKernelsInProgram(cl_program p, cl_uint n, cl_kernel *k, cl_uint *num) { if (num) *num = 1; if (!k) return CL_SUCCESS; if (!n) return CL_INVALID_VALUE; cl_int e; k[0] = clCreateKernel(p, "decompress", &e); return e; }
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *v) {
	Lock l; if (int e = fault("clSetKernelArg")) return e;
	if (!alive(k, KERNEL, "clSetKernelArg")) return CL_INVALID_KERNEL;
	if (i >= 9) return CL_INVALID_ARG_INDEX;
	int index = -1; for (auto &b : k->prog->built) if (b.ok) index = b.index;
	bool isbuf; if (index >= 0) { unsigned to = cl_korder[index][i]; isbuf = to != 1 && to != 4 && to != 6; } else isbuf = i != 1 && i != 4 && i != 6;
	if (n != 8) return CL_INVALID_ARG_SIZE;
	Arg a; a.set = true;
	if (isbuf) { cl_mem m = v ? *(const cl_mem *)v : nullptr; if (m && !mem_ok(m, "clSetKernelArg")) return CL_INVALID_MEM_OBJECT; if (m && m->ctx != k->prog->ctx) return CL_INVALID_MEM_OBJECT; a.mem = m; }
	else { if (!v) return CL_INVALID_ARG_VALUE; memcpy(&a.v, v, 8); }
	k->args[i] = a; return CL_SUCCESS;
}
cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetKernelInfo")) return e;
	if (!alive(k, KERNEL, "clGetKernelInfo")) return CL_INVALID_KERNEL;
	switch (w) { case CL_KERNEL_FUNCTION_NAME: return rets("decompress", n, v, sz); case CL_KERNEL_NUM_ARGS: return ret1<cl_uint>(9, n, v, sz); case CL_KERNEL_REFERENCE_COUNT: return ret1<cl_uint>(k->refs, n, v, sz); case CL_KERNEL_CONTEXT: return ret1(k->prog->ctx, n, v, sz); case CL_KERNEL_PROGRAM: return ret1(k->prog, n, v, sz); case CL_KERNEL_ATTRIBUTES: return rets("", n, v, sz); }
	return CL_INVALID_VALUE;
}
cl_int clGetKernelWorkGroupInfo(cl_kernel k, cl_device_id, cl_kernel_work_group_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int e = fault("clGetKernelWorkGroupInfo")) return e;
	if (!alive(k, KERNEL, "clGetKernelWorkGroupInfo")) return CL_INVALID_KERNEL;
	switch (w) { case CL_KERNEL_WORK_GROUP_SIZE: return ret1<size_t>(1024, n, v, sz); case CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE: return ret1<size_t>(32, n, v, sz); case CL_KERNEL_LOCAL_MEM_SIZE: case CL_KERNEL_PRIVATE_MEM_SIZE: return ret1<cl_ulong>(0, n, v, sz); case CL_KERNEL_COMPILE_WORK_GROUP_SIZE: { size_t z[3] = {0, 0, 0}; return ret(z, 3, n, v, sz); } }
	return CL_INVALID_VALUE;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *off, const size_t *gs, const size_t *ls, cl_uint nw, const cl_event *w, cl_event *ev) {
	Lock l; if (int e = fault("clEnqueueNDRangeKernel")) return e;
	QCHECK("clEnqueueNDRangeKernel"); if (!alive(k, KERNEL, "clEnqueueNDRangeKernel")) return CL_INVALID_KERNEL;
	if (dim != 1) return CL_INVALID_WORK_DIMENSION;
	if (!gs || !gs[0]) return CL_INVALID_GLOBAL_WORK_SIZE;
	if (ls && (!ls[0] || ls[0] > 1024 || gs[0] % ls[0])) return CL_INVALID_WORK_GROUP_SIZE;
	if (q->ctx != k->prog->ctx) return CL_INVALID_CONTEXT;
	size_t i = std::find(k->prog->devs.begin(), k->prog->devs.end(), q->dev) - k->prog->devs.begin();
	if (i == k->prog->devs.size() || !k->prog->built[i].ok) return CL_INVALID_PROGRAM_EXECUTABLE;
	for (auto &a : k->args) { if (!a.set) return CL_INVALID_KERNEL_ARGS; if (a.mem && !mem_ok(a.mem, "clEnqueueNDRangeKernel")) return CL_INVALID_KERNEL_ARGS; }
	Cmd c; c.type = CL_COMMAND_NDRANGE_KERNEL; c.k = k; c.args = k->args; c.index = k->prog->built[i].index; c.gsize = gs[0]; c.goff = off ? off[0] : 0;
	if (k->prog->built[i].madefor != q->dev->cfg.name) c.index = -1; // code made for another device does not work
	return submit(q, c, nw, w, ev, "clEnqueueNDRangeKernel");
}
cl_int clEnqueueTask(cl_command_queue q, cl_kernel k, cl_uint nw, const cl_event *w, cl_event *ev) { size_t one = 1; return clEnqueueNDRangeKernel(q, k, 1, nullptr, &one, &one, nw, w, ev); }

// ---- events -----------------------------------------------------------------------------------------------------
cl_int clWaitForEvents(cl_uint n, const cl_event *e) {
	Lock l; if (int x = fault("clWaitForEvents")) return x;
	if (!n || !e) return CL_INVALID_VALUE;
	for (cl_uint i = 0; i < n; i++) if (!alive(e[i], EVENT, "clWaitForEvents")) return CL_INVALID_EVENT;
	bool bad = false;
	for (cl_uint i = 0; i < n; i++) { if (e[i]->status > 0) drain(e[i]->q); bad |= e[i]->status < 0; }
	return bad ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST : CL_SUCCESS;
}
cl_int clGetEventInfo(cl_event e, cl_event_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int x = fault("clGetEventInfo")) return x;
	if (!alive(e, EVENT, "clGetEventInfo")) return CL_INVALID_EVENT;
	switch (w) { case CL_EVENT_COMMAND_EXECUTION_STATUS: { static Rng r(7); if (e->status > 0 && r.below(3) == 0) drain(e->q); return ret1<cl_int>(e->status, n, v, sz); } case CL_EVENT_REFERENCE_COUNT: return ret1<cl_uint>(e->refs, n, v, sz); case CL_EVENT_CONTEXT: return ret1(e->ctx, n, v, sz); case CL_EVENT_COMMAND_QUEUE: return ret1(e->q, n, v, sz); case CL_EVENT_COMMAND_TYPE: return ret1<cl_command_type>(CL_COMMAND_NDRANGE_KERNEL, n, v, sz); }
	return CL_INVALID_VALUE;
}
cl_int clGetEventProfilingInfo(cl_event e, cl_profiling_info w, size_t n, void *v, size_t *sz) {
	Lock l; if (int x = fault("clGetEventProfilingInfo")) return x;
	if (!alive(e, EVENT, "clGetEventProfilingInfo")) return CL_INVALID_EVENT;
	if (!e->prof || e->status != CL_COMPLETE) return CL_PROFILING_INFO_NOT_AVAILABLE;
	if (w < CL_PROFILING_COMMAND_QUEUED || w > CL_PROFILING_COMMAND_END) return CL_INVALID_VALUE;
	return ret1<cl_ulong>(e->t[w - CL_PROFILING_COMMAND_QUEUED], n, v, sz);
}
cl_int clFinish(cl_command_queue q) { Lock l; if (int e = fault("clFinish")) return e; QCHECK("clFinish"); drain(q); return CL_SUCCESS; }
cl_int clFlush(cl_command_queue q) { Lock l; if (int e = fault("clFlush")) return e; QCHECK("clFlush"); return CL_SUCCESS; }
cl_int clEnqueueMarkerWithWaitList(cl_command_queue q, cl_uint nw, const cl_event *w, cl_event *ev) { Lock l; if (int e = fault("clEnqueueMarkerWithWaitList")) return e; QCHECK("clEnqueueMarkerWithWaitList"); Cmd c; c.type = 0; return submit(q, c, nw, w, ev, "clEnqueueMarkerWithWaitList"); }
cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint nw, const cl_event *w, cl_event *ev) { Lock l; if (int e = fault("clEnqueueBarrierWithWaitList")) return e; QCHECK("clEnqueueBarrierWithWaitList"); Cmd c; c.type = 0; return submit(q, c, nw, w, ev, "clEnqueueBarrierWithWaitList"); }
void *clGetExtensionFunctionAddress(const char *) { return nullptr; }
void *clGetExtensionFunctionAddressForPlatform(cl_platform_id, const char *) { return nullptr; }
cl_int clUnloadPlatformCompiler(cl_platform_id) { return CL_SUCCESS; }
}

// ---- control ----------------------------------------------------------------------------------------------------
namespace simcl {
void configure(const std::vector<PlatCfg> &p, bool e) {
	Exempt x; State &s = S(); static std::vector<std::unique_ptr<_cl_platform_id>> *old = new std::vector<std::unique_ptr<_cl_platform_id>>;
	for (auto &q : s.plats) old->push_back(std::move(q));
	if (old->size() > 4096) old->clear();
	s.plats.clear(); s.noplat_err = e; s.deflt = false; s.chosen = Chosen(); s.qdev = -1;
	for (size_t i = 0; i < p.size(); i++) { auto q = std::make_unique<_cl_platform_id>(); q->idx = i; for (size_t j = 0; j < p[i].size(); j++) { auto d = std::make_unique<_cl_device_id>(); d->plat = i; d->idx = j; d->cfg = p[i][j]; q->devs.push_back(std::move(d)); } s.plats.push_back(std::move(q)); }
}
void configure_default() { if (S().deflt) return; configure({{{true, true, "Simulated GPU"}}}); S().deflt = true; }
bool is_default() { return S().deflt; }
Chosen last_context() { return S().chosen; }
int last_queue_device() { return S().qdev; }
void arm(uint64_t k, int code, bool sticky) { Exempt x; State &s = S(); s.calls = s.failed = 0; s.fail_at = k; s.code = code; s.sticky = sticky; s.first.clear(); s.exec_at = s.execs = 0; }
void arm_exec(uint64_t k, int code) { Exempt x; arm(0, 0, false); S().exec_at = k; S().exec_code = code; }
Armed disarm() { Exempt x; State &s = S(); Armed a{s.calls, s.failed, s.first}; s.fail_at = 0; s.exec_at = 0; return a; }
void build_fails(bool on, const std::string &log) { Exempt x; S().bfail = on; S().blog = log; }
void order_seed(uint64_t v) { S().order = v; }
void yields(unsigned p) { S().yield = p; }
size_t live_objects() { size_t n = 0; for (auto &x : S().all) n += !x.second->dead; // forget the dead ones from time to time
	State &s = S(); if (n == 0) { for (Obj *o : s.graves) { s.all.erase(o); delete o; } s.graves.clear(); }
	return n; }
std::string live_list() { std::string r; unsigned n[8] = {}; for (auto &x : S().all) if (!x.second->dead) n[x.second->kind]++; for (int i = 1; i < 7; i++) if (n[i]) r += (r.empty() ? "" : ", ") + std::to_string(n[i]) + " " + kind_name[i]; return r; }
std::string misuse() { std::string b; b.swap(S().bad); return b; }
uint64_t kernels_run() { return S().runs; }
uint64_t stub_runs() { return S().stubs; }
uint64_t binaries_rejected() { return S().rejected; }
uint64_t binaries_used() { return S().used; }
void new_fails(int64_t k, bool sticky) { new_n = new_bad = 0; new_sticky = sticky; new_left = k; }
uint64_t new_seen() { return new_n; }
uint64_t new_failed() { return new_bad; }
}
