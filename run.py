#!/usr/bin/env python3
"""Driver: builds what one property's check needs from /repo's current tree, runs it, writes evidence.

  run.py check  <ID> [--tier quick|thorough] [--seed N]
  run.py replay <ID> <file>
  run.py build  [binary ...]
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
JOBS = os.cpu_count() or 8

UBSAN = "bounds,shift-exponent,integer-divide-by-zero,return,unreachable,vla-bound"
FLAVORS = {
    # name: (cc, cxx, common flags, link flags)
    "asan": ("clang", "clang++", ["-O0", "-g", "-fno-omit-frame-pointer", "-fsanitize=address," + UBSAN, "-fno-sanitize-recover=all"], ["-fsanitize=address," + UBSAN]),
    "gasan": ("gcc", "g++", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address," + UBSAN.replace("shift-exponent", "shift"), "-fno-sanitize-recover=all"], ["-fsanitize=address," + UBSAN.replace("shift-exponent", "shift")]),
    "plain": ("gcc", "g++", ["-O2", "-g", "-march=native"], []),
    "ndebug": ("gcc", "g++", ["-O2", "-g", "-DNDEBUG"], []),
    "tsan": ("clang", "clang++", ["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "fuzz": ("clang", "clang++", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address," + UBSAN, "-fno-sanitize-recover=all", "-DPBT_LIBFUZZER"], ["-fsanitize=fuzzer,address," + UBSAN]),
    # own scheduler: sources instrumented with the thread sanitizer's calls, which the harness defines as yield points
    "sched": ("clang", "clang++", ["-O1", "-g", "-fsanitize=thread", "-fno-sanitize-link-runtime"], []),
    "sched-ndebug": ("clang", "clang++", ["-O1", "-g", "-DNDEBUG", "-fsanitize=thread", "-fno-sanitize-link-runtime"], []),
}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]

def files(*dirs):
    out = []
    for d in dirs:
        for root, _, fs in os.walk(d):
            out += [os.path.join(root, f) for f in fs]
    return out

_hash = {}
def hashes():
    if not _hash:
        _hash["repo"] = tree_hash(files(REPO + "/src", REPO + "/include", REPO + "/sample"))
        _hash["inc"] = _hash["repo"]
        _hash["harn"] = tree_hash(files(HARN))
    return _hash

def lib_sources(groups, REPO=None):
    REPO = REPO or globals()["REPO"]
    s = []
    if "sw" in groups:
        s += sorted(glob.glob(REPO + "/src/serial/*.c"))
        s += sorted(glob.glob(REPO + "/src/serial/*.cpp"))
        s += sorted(glob.glob(REPO + "/src/serial_optimized/*.cpp")) + sorted(glob.glob(REPO + "/src/serial_optimized/*.c"))
        s += sorted(glob.glob(REPO + "/src/common/*.c")) + sorted(glob.glob(REPO + "/src/common/*.cpp"))
    if "stream" in groups:
        s += sorted(glob.glob(REPO + "/src/stream/*.cpp"))
    if "ocl" in groups:
        s += sorted(glob.glob(REPO + "/src/ocl/*.cpp"))
    return s

CLDEFS = ["-DCL_TARGET_OPENCL_VERSION=120", "-DCL_HPP_MINIMUM_OPENCL_VERSION=120", "-DCL_HPP_TARGET_OPENCL_VERSION=120", "-DCL_HPP_ENABLE_EXCEPTIONS"]

HWFLAGS = ["-DLIB842_HAVE_CRYPTODEV_LINUX_COMP", "-I" + HARN + "/shim/hw"]
HWWRAP = ["-Wl,--wrap=" + f for f in "open open64 openat fcntl fcntl64 ioctl close access faccessat stat malloc calloc tss_create tss_set pthread_key_create pthread_setspecific".split()]

NUMAWRAP = ["-Wl,--wrap=" + f for f in "numa_available numa_max_node numa_max_possible_node numa_num_possible_nodes numa_num_configured_nodes numa_num_configured_cpus numa_num_possible_cpus numa_num_task_cpus numa_get_mems_allowed numa_allocate_nodemask numa_allocate_cpumask numa_node_to_cpus numa_node_of_cpu get_nprocs get_nprocs_conf sysconf pthread_setaffinity_np".split()]

# binary name -> description
BINS = {
    "codec-asan": dict(flavor="asan", groups=["sw"], harness=["codec.cpp", "pbt.cpp"]),
    "codec-plain": dict(flavor="plain", groups=["sw"], harness=["codec.cpp", "pbt.cpp"]),
    "pure": dict(flavor="plain", groups=["sw"], harness=["pure.cpp", "memtrack.cpp", "pbt.cpp"]),
    "oom": dict(flavor="plain", groups=["sw", "stream"], harness=["oom.cpp", "memtrack.cpp", "pbt.cpp"], ldflags=["-ldl"]),
    # streams under the deterministic scheduler, with and without assertions, and with real threads
    "sched": dict(flavor="sched", groups=["sw", "stream"], harness=["stream.cpp", "vsched.cpp", "memtrack.cpp", "pbt.cpp"], instrumented=["streamsync.cpp"], cflags=["-DUSE_VSCHED", "-DUSE_MEMTRACK"]),
    "sched-ndebug": dict(flavor="sched-ndebug", groups=["sw", "stream"], harness=["stream.cpp", "vsched.cpp", "memtrack.cpp", "pbt.cpp"], instrumented=["streamsync.cpp"], cflags=["-DUSE_VSCHED", "-DUSE_MEMTRACK"]),
    "threads": dict(flavor="plain", groups=["sw", "stream"], harness=["stream.cpp", "pbt.cpp"], instrumented=["streamsync.cpp"]),
    "tsan": dict(flavor="tsan", groups=["sw", "stream"], harness=["stream.cpp", "pbt.cpp"], instrumented=["streamsync.cpp"]),
    "cl": dict(flavor="plain", groups=["sw", "ocl"], harness=["cl.cpp", "pbt.cpp"], ldflags=["-lOpenCL", "-ldl"]),
    "cldump": dict(flavor="plain", groups=["sw", "ocl"], harness=["cldump.cpp"], ldflags=["-lOpenCL", "-ldl"]),
    "clnative": dict(custom=lambda: build_clkernels("clnative", dict(flavor="asan", groups=["sw"], harness=["cl.cpp", "pbt.cpp"], cflags=["-DCL_NATIVE"]))),
    "clsim": dict(custom=lambda: build_clkernels("clsim", dict(flavor="asan", groups=["sw", "ocl"], harness=["cl.cpp", "simcl.cpp", "pbt.cpp"], cflags=["-DCL_SIM"]))),
    # interfaces that are not built on this platform, compiled against stand-in headers and simulated devices
    "hw": dict(flavor="asan", groups=[], extra_repo=["src/cryptodev/*.c*"], harness=["hw.cpp", "pbt.cpp"], cflags=HWFLAGS, ldflags=HWWRAP),
    "hw-noinfo": dict(flavor="asan", groups=[], extra_repo=["src/cryptodev/*.c*"], harness=["hw.cpp", "pbt.cpp"], cflags=HWFLAGS + ["-DSHIM_NO_SESSINFO"], ldflags=HWWRAP),
    "hw-tsan": dict(flavor="tsan", groups=[], extra_repo=["src/cryptodev/*.c*"], harness=["hw.cpp", "pbt.cpp"], cflags=HWFLAGS + ["-DKEEP_STDERR=1"], ldflags=HWWRAP + ["-Wl,--wrap=" + f for f in ("call_once", "mtx_lock", "mtx_unlock", "mtx_init")], plainharness=True),
    "aix": dict(flavor="asan", groups=[], extra_repo=["src/aix/*.c*"], harness=["aix.cpp", "pbt.cpp"], cflags=["-DLIB842_HAVE_AIX_HWCOMPRESSION", "-I" + HARN + "/shim/aix"]),
    "cl2c": dict(custom=lambda: build_cl2c()),
    "embed": dict(flavor="plain", groups=[], harness=["embed.cpp", "pbt.cpp"], ldflags=["-ldl"]),
    "hls": dict(custom=lambda: optional("hls-build")),
    "hls-build": dict(flavor="asan", groups=[], harness=["hls.cpp", "pbt.cpp"], cflags=["-I" + HARN + "/shim/hls", "-DHLS_SOURCE=\"" + REPO + "/src/hls/842_decomp.cpp\""], hidden=True),
    "crctab": dict(custom=lambda: build_crctab()),
    "cuda": dict(custom=lambda: build_cuda("cuda", {})),
    "cuda-8k": dict(custom=lambda: build_cuda("cuda-8k", {r"(#define\s+LIB842_CUDA_CHUNK_SIZE)\s+\d+": r"\1 8192"})),
    "cuda-simple": dict(custom=lambda: build_cuda("cuda-simple", {r"#define\s+LIB842_CUDA_STRICT\b": ""})),
    "numa": dict(flavor="plain", groups=["sw", "stream"], harness=["numa.cpp", "pbt.cpp"], cflags=["-DLIB842_HAVE_NUMA"], ldflags=NUMAWRAP + ["-lnuma"]),
    "samples": dict(flavor="plain", groups=["sw"], harness=["samples.cpp", "pbt.cpp"]),
    "codec-fuzz": dict(flavor="fuzz", groups=["sw"], harness=["codec.cpp", "pbt.cpp"]),
}

for _n in ("hls-build", "aix"): BINS[_n.split("-")[0] + "-fuzz"] = dict(BINS[_n], flavor="fuzz", hidden=True)

# build switch -> (binary it is tested with, edits of the sources, compiler flags for them)
VARIANTS = {
    "v-branchfree": dict(base="codec-plain", edits=[(r"^(#define\s+BRANCH_FREE)\s+\(?0\)?\s*$", r"\1 1", "src")]),
    "v-portable": dict(base="codec-plain", edits=[(r"^#ifdef\s+__x86_64__\s*$", "#if 0", "src/common/endianness.h")], vflags=["-funsigned-char"]),
    "v-strict": dict(base="codec-plain", edits=[(r"^(#define\s+SW842_STRICT)\s+0\s*$", r"\1 1", "src")]),
    "v-trusting": dict(base="codec-plain", edits=[(r"^#define\s+ENABLE_ERROR_HANDLING\s*$", "", "src/serial_optimized")]),
    "v-simple": dict(base="codec-plain", edits=[(r"^#define\s+LIB842_CUDA_STRICT\s*$", "", "src/serial_optimized")]),
    "v-nocrc": dict(base="codec-plain", vflags=["-DDISABLE_CRC"]),
    "v-debug": dict(base="codec-plain", vflags=["-DDEBUG=1"]),
    "v-trace": dict(base="threads", hroot=True, edits=[(r"^//\s*(#define\s+LIB842_STREAM_INDEPTH_TRACE)", r"\1", "include")]),
    "v-trace-numa": dict(base="numa", hroot=True, edits=[(r"^//\s*(#define\s+LIB842_STREAM_INDEPTH_TRACE)", r"\1", "include")]),
    "v-release": dict(base="codec-plain", vflags=["-DNDEBUG", "-O3"]),
    "v-release-streams": dict(base="threads", vflags=["-DNDEBUG", "-O3"]),
    "v-branchfree-asan": dict(base="codec-asan", vflags=["-fno-sanitize=shift-exponent"], edits=[(r"^(#define\s+BRANCH_FREE)\s+\(?0\)?\s*$", r"\1 1", "src")]),
    "v-cl": dict(base="cl", edits=[(r"^#define\s+LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE\s*$", "", "src/ocl"), (r"(#else[^#]*)^#define\s+USE_LOOKAHEAD_BUFFER\s*$", r"\1", "src/ocl")]),
}
for _v in VARIANTS: BINS[_v] = dict(custom=lambda _v=_v: build_variant(_v))

# the sample programs, with a stand-in for the codec that can be told to fail
SAMPLEWRAP = ["-Wl,--wrap=" + f for p in ("sw842", "optsw842") for f in (p + "_compress", p + "_decompress", "get_" + p + "_implementation")]
SAMPLES = {"S_SERIAL": ("gasan", ["sw"], "compdecomp.c", []), "S_OPT": ("gasan", ["sw"], "compdecomp.c", ["-DUSEOPTSW"]),
           "S_STREAMS": ("gasan", ["sw", "stream"], "compdecomp_streams.cpp", ["-DUSEOPTSW"]), "S_TSAN": ("tsan", ["sw", "stream"], "compdecomp_streams.cpp", ["-DUSEOPTSW"]),
           "S_CL": ("plain", ["sw", "ocl"], "compdecomp_cl.cpp", []), "S_MAYBE": ("plain", ["sw", "ocl"], "compdecomp_cl.cpp", ["-DUSE_MAYBE_COMPRESSED_CHUNKS"]),
           "S_INPLACE": ("plain", ["sw", "ocl"], "compdecomp_cl.cpp", ["-DUSE_INPLACE_COMPRESSED_CHUNKS"])}
for _n, (_fl, _g, _src, _d) in SAMPLES.items():
    _omp = [] if _fl == "tsan" else ["-fopenmp"]
    BINS[_n + "-build"] = dict(flavor=_fl, groups=_g, extra_repo=["sample/" + _src, "sample/compdecomp_driver.c"], harness=["samples_fault.c"], cflags=_d + _omp, hidden=True,
                               ldflags=_omp + SAMPLEWRAP + (["-lOpenCL", "-ldl"] if "ocl" in _g else []))
    BINS[_n] = dict(custom=lambda _n=_n: optional(_n + "-build"))

def gen_dir():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d + "/include/lib842", exist_ok=True)
    os.makedirs(d + "/shim/uthash/src", exist_ok=True)
    for f in ("uthash.h", "utlist.h"):
        l = d + "/shim/uthash/src/" + f
        if not os.path.islink(l):
            try: os.symlink("/usr/include/" + f, l)
            except FileExistsError: pass
    cfg = d + "/include/lib842/config.h"
    txt = ""
    for line in open(REPO + "/include/lib842/config.h.in"):
        m = re.match(r"#cmakedefine\s+(\w+)", line)
        if m: txt += ("#define %s\n" if m.group(1) == "LIB842_HAVE_OPENCL" else "/* #undef %s */\n") % m.group(1)
        else: txt += line
    if not os.path.exists(cfg) or open(cfg).read() != txt:
        with open(cfg, "w") as f: f.write(txt)
    return d

def includes(root=None):
    d = gen_dir()
    return ["-I" + (root or REPO) + "/include", "-I" + d + "/include", "-I" + d + "/shim"]

def obj_path(src, cmd, extra):
    k = hashlib.sha256((" ".join(cmd) + extra + src).encode()).hexdigest()[:20]
    return os.path.join(BUILD, "obj", os.path.basename(src) + "-" + k + ".o")

def compile_one(cmd, obj):
    if os.path.exists(obj): return
    tmp = obj + ".tmp%d" % os.getpid()
    sh(cmd + ["-o", tmp])
    os.rename(tmp, obj)

def build(names, objects=False):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hs = hashes()
    todo = []; links = []
    for n in names:
        b = BINS[n]
        if "custom" in b:
            links.append((n, None, None)); continue
        cc, cxx, fl, lf = FLAVORS[b["flavor"]]
        objs = []
        inc = includes(); rinc = includes(b.get("root"))
        defs = list(b.get("defs", []))
        srcs = [(s, True) for s in lib_sources(b["groups"], b.get("root"))] + [(p, True) for s in b.get("extra_repo", []) for p in sorted(glob.glob(REPO + "/" + s))] + [(s, True) for s in b.get("extra_abs", [])] + [(os.path.join(HARN, s), True) for s in b.get("instrumented", [])] + [(os.path.join(HARN, s), False) for s in b["harness"]]
        for s, islib in srcs:
            c = s.endswith(".c")
            f = list(fl)
            if not islib: f = ["-O1" if x == "-O0" else x for x in f]
            if b["flavor"].startswith("sched") and not (islib and ("/stream/" in s or s.startswith(HARN))):
                f = [x for x in f if "sanitize" not in x]
            if islib: f += b.get("libflags", [])
            elif b.get("plainharness"): f = [x for x in f if "sanitize" not in x]
            d = defs + (CLDEFS if "ocl" in b["groups"] else [])
            cmd = [cc if c else cxx, "-std=gnu11" if c else "-std=gnu++17", "-w"] + f + d + b.get("incfirst", []) + (inc if s.startswith(HARN) and not b.get("hroot") else rinc) + b.get("cflags", []) + (b.get("vflags", []) if islib and not s.startswith(HARN) else []) + ["-c", s]
            o = obj_path(s, cmd, hs["repo"] + (hs["harn"] if s.startswith(HARN) else ""))
            objs.append(o); todo.append((cmd, o))
        if "ocl" in b["groups"]:
            for src in kernel_sources(b.get("root")):
                cmd = [cc] + fl + ["-c", src]
                o = obj_path(src, cmd, hs["repo"])
                objs.append(o); todo.append((cmd, o))
        links.append((n, objs, [cxx] + [x for x in fl if x.startswith("-O") or x == "-g"] + objs + lf + b.get("ldflags", []) + ["-lpthread"]))
    uniq = {o: c for c, o in todo}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(compile_one, c, o) for o, c in uniq.items()]: f.result()
    res = {}
    for n, objs, cmd in links:
        if objs is None:
            res[n] = BINS[n]["custom"](); continue
        if objects:
            res[n] = objs; continue
        k = hashlib.sha256(" ".join(cmd).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, "bin", n + "-" + k)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            sh(cmd + ["-o", tmp]); os.rename(tmp, out)
        res[n] = out
    return res

def kernel_sources(root=None):
    """cl2c is part of the code under test: the kernel is embedded with it exactly like the real build does."""
    hs = hashes(); d = root + "/cl" if root else os.path.join(BUILD, "gen", "cl-" + hs["repo"])
    root = root or REPO
    outs = [d + "/decompress_cl_842defs.c", d + "/decompress_cl_kernel.c"]
    if not all(os.path.exists(o) for o in outs):
        os.makedirs(d, exist_ok=True)
        sh(["g++", "-std=c++17", "-O1", "-w", root + "/src/tools/cl2c.cpp", "-o", d + "/cl2c"])
        sh([d + "/cl2c", root + "/src/common/842.h", outs[0] + ".tmp", "LIB842_CLDECOMPRESS_842DEFS_SOURCE"])
        sh([d + "/cl2c", root + "/src/ocl/decompress.cl", outs[1] + ".tmp", "LIB842_CLDECOMPRESS_KERNEL_SOURCE"])
        for o in outs: os.rename(o + ".tmp", o)
    return outs

KARGS = {"in": "const uint64_t *", "inOffset": "uint64_t", "ilen": "const uint64_t *", "out": "uint64_t *", "outOffset": "uint64_t",
         "olen": "uint64_t *", "numChunks": "uint64_t", "chunkShuffleMap": "const uint64_t *", "returnValues": "int *"}

def cl_kernel_objs():
    """The kernel with the exact source and options the library passes to OpenCL, compiled natively under AddressSanitizer, one object per chunk layout."""
    hs = hashes(); d = os.path.join(BUILD, "gen", "clk-" + hs["repo"] + hs["harn"])
    if not os.path.exists(d + "/done"):
        dump = build(["cldump"])["cldump"]
        tmp = tempfile.mkdtemp(prefix="verif-cldump-")
        try:
            sh([dump, tmp], timeout=200)
            n = len([f for f in os.listdir(tmp) if f.endswith(".opts")])
            if not n: raise BuildError("no kernel source captured")
            san = ["-fsanitize=address", "-O1", "-g", "-w"]
            hsh = [0] * n; order = [None] * n
            def one(i):
                import shlex
                raw = open(tmp + "/k%d.opts" % i, errors="surrogateescape").read(); opts = shlex.split(raw)
                src = open(tmp + "/k%d.cl" % i, errors="surrogateescape").read()
                h = 0xcbf29ce484222325
                for c in (src + "\0" + raw).encode(errors="surrogateescape"): h = (h ^ c) * 0x100000001b3 & (1 << 64) - 1
                hsh[i] = h
                m = re.search(r"__kernel\s+void\s+decompress\s*\(([^)]*)\)", src)
                if not m: raise BuildError("kernel signature not found")
                names = [re.search(r"(\w+)\s*$", a).group(1) for a in m.group(1).split(",")]
                if sorted(names) != sorted(KARGS): raise BuildError("unexpected kernel parameters " + " ".join(names))
                order[i] = [list(KARGS).index(x) for x in names]
                sh(["clang", "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-target", "x86_64-linux-gnu", "-Ddecompress=kernel%d" % i] + san + opts + ["-c", tmp + "/k%d.cl" % i, "-o", tmp + "/k%d.o" % i])
                with open(tmp + "/w%d.c" % i, "w") as f:
                    f.write("#include <stdint.h>\nvoid kernel%d(%s);\nvoid kcall%d(%s) { kernel%d(%s); }\n" % (i, ", ".join(KARGS[x] + " " + x for x in names), i, ", ".join(KARGS[x] + " " + x for x in KARGS), i, ", ".join(names)))
                sh(["clang", "-O1", "-c", tmp + "/w%d.c" % i, "-o", tmp + "/w%d.o" % i])
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, range(n)))
            with open(tmp + "/tab.c", "w") as f:
                f.write("#include <stdint.h>\n" + "".join("extern void kcall%d();\n" % i for i in range(n)) + "void (*cl_kernels[])() = {" + ", ".join("kcall%d" % i for i in range(n)) + "};\nconst unsigned cl_nkernels = %d;\n" % n)
                f.write("const unsigned long cl_khash[] = {" + ", ".join("%dul" % h for h in hsh) + "};\nconst unsigned char cl_korder[][9] = {" + ", ".join("{" + ", ".join(map(str, o)) + "}" for o in order) + "};\n")
            sh(["clang", "-O1", "-w", "-c", tmp + "/tab.c", "-o", tmp + "/tab.o"])
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for f in os.listdir(tmp):
                if f.endswith(".o"): shutil.copy(tmp + "/" + f, d)
            open(d + "/done", "w").close()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return sorted(d + "/" + f for f in os.listdir(d) if f.endswith(".o"))

def build_clkernels(name, desc):
    """A harness linked with the natively compiled kernels. Returns None (part skipped, with a note) when the kernel cannot be built that way."""
    hs = hashes(); d = os.path.join(BUILD, "gen", name + "-" + hs["repo"] + hs["harn"])
    out = os.path.join(d, name)
    if os.path.exists(out): return out
    try:
        BINS[name + "-objs"] = desc
        objs = build([name + "-objs"], objects=True)[name + "-objs"]
        ks = cl_kernel_objs()
        os.makedirs(d, exist_ok=True)
        sh(["clang++", "-g"] + objs + ks + ["-Wl,-z,muldefs"] + FLAVORS[desc["flavor"]][3] + ["-lpthread", "-ldl", "-o", out + ".tmp%d" % os.getpid()])
        os.rename(out + ".tmp%d" % os.getpid(), out)
    except (BuildError, OSError, subprocess.TimeoutExpired) as e:
        sys.stderr.write("note: part %s skipped: %s\n" % (name, str(e)[-1500:]))
        return None
    return out

def optional(name):
    """A binary whose harness depends on internals of the code under test: None (part skipped, with a note) if it cannot be built."""
    try: return build([name])[name]
    except BuildError as e:
        sys.stderr.write("note: part %s skipped: %s\n" % (name, str(e)[-1500:])); return None

def build_variant(name):
    """The library with one of its build switches changed: a copy of the sources with the switch edited. Skipped, with a note, when the switch is not there."""
    v = VARIANTS[name]; hs = hashes(); d = os.path.join(BUILD, "gen", name + "-" + hs["repo"])
    try:
        if not os.path.exists(d + "/done"):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for x in ("src", "include"): shutil.copytree(REPO + "/" + x, d + "/" + x)
            for pat, rep, where in v.get("edits", []):
                n = 0
                for f in files(d + "/" + where) if os.path.isdir(d + "/" + where) else [d + "/" + where]:
                    t = open(f, errors="surrogateescape").read(); t2, k = re.subn(pat, rep, t, flags=re.M)
                    if k:
                        n += k
                        with open(f, "w", errors="surrogateescape") as o: o.write(t2)
                if not n: raise BuildError("switch not found: " + pat)
            with open(d + "/variant.c", "w") as f: f.write('const char *build_variant = "%s";\n' % name)
            open(d + "/done", "w").close()
        b = dict(BINS[v["base"]], root=d, hidden=True, vflags=v.get("vflags", []), hroot=v.get("hroot"))
        b["extra_abs"] = [d + "/variant.c"]
        BINS[name + "-build"] = b
        return build([name + "-build"])[name + "-build"]
    except (BuildError, OSError) as e:
        sys.stderr.write("note: part %s skipped: %s\n" % (name, str(e)[-1500:])); return None

def build_cl2c():
    d = os.path.join(BUILD, "gen", "cl-" + hashes()["repo"]); out = d + "/cl2c-tool"
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        sh(["g++", "-std=c++17", "-O1", "-w"] + includes() + [REPO + "/src/tools/cl2c.cpp", "-o", out + ".tmp"]); os.rename(out + ".tmp", out)
    return out

def build_crctab():
    """Runs the table generator and compiles its output and the committed table side by side."""
    d = os.path.join(BUILD, "gen", "crc-" + hashes()["repo"] + hashes()["harn"]); os.makedirs(d, exist_ok=True)
    out = d + "/crctab"
    if os.path.exists(out): return out
    try:
        sh(["gcc", "-O1", "-w", REPO + "/src/tools/gen_crc32table.c", "-o", d + "/gen"])
        r = subprocess.run([d + "/gen"], stdout=subprocess.PIPE, timeout=60)
        if r.returncode: raise BuildError("generator ended with status %d" % r.returncode)
        with open(d + "/generated.h", "wb") as f: f.write(r.stdout)
        for n, inc in (("generated", d + "/generated.h"), ("committed", REPO + "/src/common/crc32table.h")):
            with open(d + "/%s.c" % n, "w") as f:
                f.write('#include "%s"\n#include <stdint.h>\nconst uint32_t *tab_%s = &crc32table_be[0][0]; const unsigned long tab_%s_size = sizeof crc32table_be;\n' % (inc, n, n))
            sh(["gcc", "-O1", "-w", "-c", d + "/%s.c" % n, "-o", d + "/%s.o" % n])
        BINS["crctab-objs"] = dict(flavor="plain", groups=[], harness=["crctab.cpp", "pbt.cpp"])
        objs = build(["crctab-objs"], objects=True)["crctab-objs"]
        sh(["g++"] + objs + [d + "/generated.o", d + "/committed.o", "-lpthread", "-o", out + ".tmp"]); os.rename(out + ".tmp", out)
    except (BuildError, OSError, subprocess.TimeoutExpired) as e:
        sys.stderr.write("note: table part skipped: %s\n" % str(e)[-1500:]); return None
    return out

def rewrite_asm(src):
    """Replaces every inline assembly statement by a call of the PTX interpreter."""
    out = ""; i = 0
    def skip(j):  # end of the string, character constant or comment starting at j, or j
        if src[j] in "\"'":
            k = j + 1
            while src[k] != src[j]: k += 2 if src[k] == "\\" else 1
            return k + 1
        if src.startswith("//", j): return src.index("\n", j)
        if src.startswith("/*", j): return src.index("*/", j) + 2
        return j
    while i < len(src):
        j = skip(i)
        if j > i: out += src[i:j]; i = j; continue
        m = re.compile(r"\b(?:asm|__asm__)\s*(?:volatile|__volatile__)?\s*\(").match(src, i)
        if not m or (i and (src[i - 1].isalnum() or src[i - 1] == "_")): out += src[i]; i += 1; continue
        k = m.end(); depth = 1; secs = [[""]]
        while depth:
            e = skip(k)
            if e > k:
                if not src.startswith("/", k): secs[-1][-1] += src[k:e]
                k = e; continue
            ch = src[k]
            if ch in "([{": depth += 1
            if ch in ")]}": depth -= 1
            if depth == 0: break
            if depth == 1 and ch == ":": secs.append([""])
            elif depth == 1 and ch == ",": secs[-1].append("")
            else: secs[-1][-1] += ch
            k += 1
        tmpl = secs[0][0].strip(); args = []
        for si, sec in enumerate(secs[1:3]):
            for op in sec:
                if not op.strip(): continue
                mm = re.match(r'\s*(?:\[\w+\]\s*)?"([^"]*)"\s*\((.*)\)\s*$', op, re.S)
                if not mm: raise BuildError("cannot read the assembly operand " + op)
                args.append((mm.group(1), mm.group(2), si == 0))
        w = {"l": 64, "r": 32, "h": 16}
        if len(args) > 16 or any(a[0].lstrip("+=&") not in w for a in args): raise BuildError("unknown assembly constraint")
        out += "do { static const char *const ptx_t_ = %s; uint64_t ptx_a_[17] = {%s}; static const int ptx_w_[17] = {%s}; ptx::run(ptx_t_, ptx_a_, ptx_w_); %s } while (0)" % (
            tmpl, ", ".join(["0" if a[0].startswith("=") else "ptx::toint(%s)" % a[1] for a in args] + ["0"]), ", ".join([str(w[a[0].lstrip("+=&")]) for a in args] + ["0"]),
            " ".join("ptx::assign(%s, ptx_a_[%d]);" % (a[1], n) for n, a in enumerate(args) if a[2]))
        i = k + 1
    return out

def build_cuda(name, subst):
    """The CUDA kernel as host C++. `subst` edits a copy of the public header (chunk size, strictness)."""
    d = os.path.join(BUILD, "gen", name + "-" + hashes()["repo"] + hashes()["harn"])
    try:
        os.makedirs(d + "/include/lib842", exist_ok=True); os.makedirs(d + "/src", exist_ok=True)
        h = open(REPO + "/include/lib842/cuda.h").read()
        for a, b in subst.items():
            h, n = re.subn(a, b, h)
            if n != 1: raise BuildError("configuration macro not found in cuda.h")
        t = rewrite_asm(open(REPO + "/src/cuda/842_decompress.cu").read())
        for f, x in ((d + "/include/lib842/cuda.h", h), (d + "/kernel.inc", t)):
            if not os.path.exists(f) or open(f).read() != x:
                with open(f, "w") as o: o.write(x)
        BINS[name + "-build"] = dict(flavor="asan", groups=[], harness=["cuda.cpp", "pbt.cpp"], hidden=True,
            cflags=["-I" + d + "/include", "-I" + REPO + "/src/cuda", "-fno-sanitize=shift-exponent", '-DCUDA_TU="%s/kernel.inc"' % d], incfirst=["-I" + d + "/include"])
        return build([name + "-build"])[name + "-build"]
    except (BuildError, OSError, ValueError, IndexError) as e:
        sys.stderr.write("note: part %s skipped: %s\n" % (name, str(e)[-1500:])); return None

# property -> list of parts; a part is (binary, {options})
#   quick/thorough: number of cases (None: the harness default); share of a property's work per build flavour
PROPS = {
    "C01": [("codec-plain", dict(quick=24000)), ("codec-asan", dict(quick=12000, thorough=100000))],
    "C02": [("codec-plain", dict(quick=120000))],
    "C03": [("codec-plain", dict(quick=24000))],
    "C04": [("codec-plain", dict(quick=300000)), ("codec-asan", dict(quick=60000, thorough=1000000))],
    "C05": [("codec-asan", dict(quick=300000))],
    "C06": [("codec-asan", dict(quick=90000))],
    "C07": [("codec-asan", dict(quick=6000))],
    "C08": [("codec-plain", dict(quick=500000))],
    "C09": [("codec-plain", dict(quick=500000))],
    "C10": [("codec-plain", dict(quick=60000))],
    "C11": [("pure", dict(quick=40000))],
    "C35": [("oom", dict(quick=12000))],
    "C25": [("pure", dict(quick=60000))],
    "C12": [("codec-plain", dict(quick=50000))],
    "C31": [("codec-plain", dict()), ("codec-asan", dict(quick=300, thorough=20000))],
}
for _p, _n in (("C13", 6000), ("C14", 40000), ("C15", 40000), ("C16", 8000), ("C17", 20000), ("C18", 8000), ("C20", 200000)):
    PROPS[_p] = [("sched", dict(quick=_n, thorough=_n * 50)), ("threads", dict(quick=3000 if _p == "C20" else 1500, thorough=40000))]
PROPS["C02"] += [("cl", dict(quick=20000)), ("clsim", dict(quick=10000))]
for _p, _n in (("C21", 30000), ("C22", 30000), ("C23", 30000)):
    PROPS[_p] = [("cl", dict(quick=_n)), ("clnative", dict(quick=_n)), ("clsim", dict(quick=12000))]
PROPS["C24"] = [("cl", dict(quick=1500, max_s_quick=60)), ("clsim", dict(quick=30000, thorough=1500000))]
PROPS["C36"] = [("clsim", dict(quick=20000))]
PROPS["C37"] = [("clsim", dict(quick=25000))]
PROPS["C38"] = [("clsim", dict(quick=20000)), ("threads", dict(quick=4000, thorough=200000))]
PROPS["C25"].append(("sched", dict(quick=15000, thorough=600000)))
PROPS["C18"].insert(1, ("sched-ndebug", dict(quick=4000, thorough=200000)))
PROPS["C19"] = [("tsan", dict(quick=1500, thorough=100000))]
PROPS["C26"] = [("hw", dict(quick=12000)), ("hw-noinfo", dict(quick=4000, thorough=100000)), ("hw-tsan", dict(quick=2000, thorough=60000))]
PROPS["C28"] = [("embed", dict(quick=2500, tools={"VERIF_CL2C": "cl2c"}))]
PROPS["C29"] = [("hls", dict(quick=150000, thorough=3000000))]
PROPS["C30"] = [("cuda", dict()), ("cuda-8k", dict(quick=2500, thorough=100000)), ("cuda-simple", dict(quick=3000, thorough=100000))]
PROPS["C31"].append(("crctab", dict()))
PROPS["C32"] = [("numa", dict(quick=8000))]
PROPS["C33"] = [(v, dict(quick=20000 if VARIANTS[v]["base"] == "codec-plain" else 2500, thorough=1000000 if VARIANTS[v]["base"] == "codec-plain" else 40000)) for v in VARIANTS]
PROPS["C34"] = [("samples", dict(tools={"VERIF_" + n: n for n in SAMPLES}))]
PROPS["C27"] = [("aix", dict())]
# coverage-guided search in the thorough tier: property -> (instrumented binary, binary that confirms and shrinks, seconds)
FUZZ = {p: ("codec-fuzz", "codec-asan", 600) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C12")}
FUZZ["C27"] = ("aix-fuzz", "aix", 300)
FUZZ["C29"] = ("hls-fuzz", "hls-build", 300)

LEVEL = {}
NOTE = {}

def known_keys(pid):
    keys = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known:\s+property=(\w+)\s+key=(\S+)\s", line)
            if m and m.group(1) == pid: keys.append(m.group(2))
    except FileNotFoundError:
        pass
    return keys

def run_part(pid, binname, exe, opts, tier, seed, scratch):
    part = os.path.join(scratch, "part-%s.json" % binname)
    cmd = [exe, "--prop", pid, "--seed", str(seed), "--jobs", str(opts.get("jobs", JOBS)), "--part", part,
           "--replay-dir", os.path.join(VERIF, "replays", binname), "--scratch", os.path.join(scratch, "s-" + binname)]
    n = opts.get(tier)
    if n: cmd += ["--cases", str(n)]
    if tier == "thorough": cmd += ["--thorough"]
    cmd += ["--max-s", str(opts.get("max_s_" + tier, 200 if tier == "quick" else 3000))]
    k = known_keys(pid)
    if k: cmd += ["--known", ",".join(k)]
    env = dict(os.environ); env.update(opts.get("env", {}))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=scratch)
    sys.stdout.write(r.stdout); sys.stdout.flush()
    if r.stderr: sys.stderr.write(r.stderr[-4000:])
    data = None
    if os.path.exists(part):
        data = json.load(open(part))
    return r.returncode, data, r.stdout

def fuzz(pid, scratch, seed):
    """libFuzzer over the bytes that the generators' choices are read from; any failure is confirmed and shrunk by the normal engine."""
    import struct
    fz, plain, secs = FUZZ[pid]; secs = int(os.environ.get("VERIF_FUZZ_S", secs))
    t0 = time.time()
    try: bins = build([fz, plain])
    except BuildError as e:
        sys.stderr.write("note: coverage-guided part skipped: %s\n" % str(e)[-1500:]); return 0, None, []
    d = os.path.join(scratch, "fuzz"); os.makedirs(d + "/corpus", exist_ok=True)
    with open(d + "/corpus/seed", "wb") as f: f.write(hashlib.sha256(b"%d" % seed).digest() * 4)
    procs = []
    for w in range(JOBS):
        os.makedirs(d + "/a%d" % w, exist_ok=True)
        env = dict(os.environ, PBT_PROP=pid, PBT_SCRATCH=d, PBT_WORKER=str(w), PBT_KNOWN=",".join(known_keys(pid)), ASAN_OPTIONS="abort_on_error=0:allocator_may_return_null=1")
        procs.append(subprocess.Popen([bins[fz], "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % secs, "-max_len=2048", "-len_control=20", "-use_value_profile=%d" % (w & 1), "-timeout=60", "-rss_limit_mb=3000",
                                       "-detect_leaks=0", "-reload=1", "-print_final_stats=0", "-verbosity=0", "-artifact_prefix=%s/a%d/" % (d, w), d + "/corpus"], env=env, cwd=d,
                                      stdout=subprocess.DEVNULL, stderr=open(d + "/log%d" % w, "wb")))
    while any(p.poll() is None for p in procs) and time.time() - t0 < secs + 120:
        time.sleep(0.5)
        if any(p.poll() is not None and os.listdir(d + "/a%d" % w) for w, p in enumerate(procs)): break
    for p in procs:
        if p.poll() is None: p.terminate()
    for p in procs:
        try: p.wait(20)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
    viol = []; rc = 0; unconfirmed = 0
    for w, p in enumerate(procs):
        if viol or not os.listdir(d + "/a%d" % w): continue
        b = open(d + "/slot%d" % w, "rb").read(24 + 8 * 65536); n = min(struct.unpack_from("<I", b, 20)[0], 65536)
        with open(d + "/t%d" % w, "w") as f: f.write("property %s\ntape %s\n" % (pid, " ".join(map(str, struct.unpack_from("<%dQ" % n, b, 24)))))
        r = subprocess.run([bins[plain], "--prop", pid, "--replay", d + "/t%d" % w, "--shrink", "--replay-dir", os.path.join(VERIF, "replays", plain.replace("-build", "")), "--scratch", d + "/r%d" % w, "--known", ",".join(known_keys(pid))],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", cwd=d)
        sys.stdout.write(r.stdout)
        if r.returncode == 1: rc = 1; viol += re.findall(r"^VIOLATION property=\S+ replay=(\S+)", r.stdout, re.M)
        else:
            unconfirmed += 1
            sys.stderr.write("[%s] an artifact of the coverage-guided search was not confirmed:\n%s\n" % (pid, open(d + "/log%d" % w, errors="replace").read()[-1500:]))
    data = {"binary": fz + " (coverage-guided)", "evaluations": 0, "distinct_nontrivial": 0, "excluded": 0, "planned": 0, "unconfirmed": unconfirmed, "classes": {}, "samples": [], "rule": "", "wall_s": time.time() - t0}
    for w in range(JOBS):
        try: data["evaluations"] += struct.unpack("<Q", open(d + "/slot%d" % w, "rb").read(8))[0]
        except (OSError, struct.error): pass
        try: x = json.load(open(d + "/sum%d" % w))
        except (OSError, ValueError): continue
        data["excluded"] += x["excluded"]; data["distinct_nontrivial"] = max(data["distinct_nontrivial"], x["distinct"]); data["rule"] = x["rule"]
        for k, v in x["classes"].items(): data["classes"][k] = data["classes"].get(k, 0) + v
        data["samples"] = (data["samples"] + x["samples"])[:4]
    data["planned"] = data["evaluations"]; data["corpus"] = len(os.listdir(d + "/corpus"))
    print("[%s] coverage-guided: %d cases (%d distinct non-trivial), corpus of %d inputs, %d unconfirmed, %.0f s" % (pid, data["evaluations"], data["distinct_nontrivial"], data["corpus"], unconfirmed, time.time() - t0)); sys.stdout.flush()
    return rc, data if data["evaluations"] else None, viol

def check(pid, tier, seed):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 0; parts = []; viol = []
    try:
        plist = PROPS[pid]
        tools = sorted(set(t for _, o in plist for t in o.get("tools", {}).values()))
        bins = build([b for b, _ in plist] + tools)
        for _, o in plist:
            if "tools" in o: o["env"] = dict(o.get("env", {}), **{k: bins[t] for k, t in o["tools"].items() if bins[t]})
        tb = time.time() - t0
        for b, o in plist:
            if bins[b] is None: continue
            code, data, out = run_part(pid, b, bins[b], o, tier, seed, scratch)
            if data: data["binary"] = b; parts.append(data)
            viol += re.findall(r"^VIOLATION property=\S+ replay=(\S+)", out, re.M)
            if code == 1: rc = 1; break
            if code not in (0, 1): rc = 2; break
        if rc == 0 and tier == "thorough" and pid in FUZZ:
            code, data, v = fuzz(pid, scratch, seed)
            if data: parts.append(data)
            viol += v
            if code: rc = code
        write_evidence(pid, tier, seed, parts, viol, time.time() - t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc

def write_evidence(pid, tier, seed, parts, viol, wall, tb):
    cov = {"evaluations": sum(p["evaluations"] for p in parts),
           "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
           "rule": "; ".join(sorted(set(p["rule"] for p in parts))) or "none",
           "samples": [s for p in parts for s in p["samples"]][:8],
           "excluded_by_precondition": sum(p.get("excluded", 0) for p in parts),
           "parts": [{k: p[k] for k in ("binary", "evaluations", "distinct_nontrivial", "planned", "classes", "wall_s", "unconfirmed") if k in p} for p in parts]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"), "coverage": cov,
          "wall_s": round(wall, 2), "build_s": round(tb, 2), "violations": viol,
          "assumptions": ASSUME.get(pid, ASSUME["*"])}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

ASSUME = {"*": ["x86-64 little-endian host; gcc 13 / clang 18 builds of /repo's current sources", "sampling: inputs not generated are not covered"]}

def replay(pid, path):
    name = os.path.basename(os.path.dirname(os.path.abspath(path)))
    names = [name] if name in BINS else [b for b, _ in PROPS[pid]]
    opts = dict(PROPS[pid])
    bins = build(names + [t for n in names for t in opts.get(n, {}).get("tools", {}).values()]); rc = 0
    for n in names:
        if bins[n] is None: continue
        env = dict(os.environ, **{k: bins[t] for k, t in opts.get(n, {}).get("tools", {}).items() if bins[t]})
        r = subprocess.run([bins[n], "--prop", pid, "--replay", os.path.abspath(path)], env=env)
        rc = rc or r.returncode
    return rc

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pos = []
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = int(a.pop(0))
        else: pos.append(x)
    try:
        if pos[0] == "build":
            for n, p in build(pos[1:] or [b for b in sorted(BINS) if not BINS[b].get("hidden")]).items(): print(n, p)
            return 0
        if pos[0] == "check": return check(pos[1], tier, seed)
        if pos[0] == "replay": return replay(pos[1], pos[2])
    except BuildError as e:
        sys.stderr.write("build failed:\n%s\n" % e); return 3
    return 2

if __name__ == "__main__":
    sys.exit(main())
