#!/usr/bin/env python3
"""Works with the planted bugs in seeded/ (development only; no check uses this).

  seed.py work                     fresh copy of /repo's HEAD in /tmp/seedwork/edit to edit in
  seed.py save ID PROP NEEDS BREAKS   store the edit's diff + meta.json (demo.sh is written by hand)
  seed.py verify ID [PROP ...]     build + tests + demo on both trees, then the given checks (default: meta's property)
  seed.py all                      verify every bug with its own property's check
"""
import json, os, subprocess, sys, shutil, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
def fresh(d):
    os.makedirs(d, exist_ok=True)
    r = sh("git -C /repo archive HEAD | tar -x -C %s" % d); assert r.returncode == 0, r.stdout
def sync(d):
    """bring d to HEAD's content without touching unchanged files"""
    os.makedirs(d, exist_ok=True); os.makedirs(W + "/head", exist_ok=True)
    shutil.rmtree(W + "/head"); fresh(W + "/head")
    r = sh("rsync -rlc --delete --exclude _build --exclude .git %s/head/ %s/" % (W, d)); assert r.returncode == 0, r.stdout
def buildtree(d):
    s = open("/opt/vp/build.sh").read().replace("/repo", d)
    return sh(s + "\n", env=dict(os.environ))
def tests(d):
    r = sh("POCL_CACHE_DIR=%s/_build/pocl ctest --test-dir %s/_build -j1 --timeout 120; rm -f /tmp/cl842_cache.bin" % (d, d))
    m = re.search(r"(\d+) tests failed out of (\d+)", r.stdout)
    return m and m.group(1) == "0", (m.group(0) if m else r.stdout[-500:])
def demo(bid, d):
    x = W + "/demo-" + bid
    shutil.rmtree(x, ignore_errors=True); shutil.copytree(V + "/seeded/" + bid, x)
    for f in os.listdir(x):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(x + "/" + f)
    try: r = sh("bash %s/demo.sh" % x, cwd=d, timeout=300); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"
    finally: shutil.rmtree(x, ignore_errors=True)
def verify(bid, props=None, quiet=False):
    base, pat = W + "/base", W + "/pat"
    sync(base); r = buildtree(base); assert r.returncode == 0, r.stdout[-3000:]
    meta = json.load(open(V + "/seeded/%s/meta.json" % bid))
    sync(pat)
    r = sh("git apply --unsafe-paths --directory=%s %s/seeded/%s/patch.diff" % (pat, V, bid), cwd="/")
    if r.returncode: r = sh("patch -p1 < %s/seeded/%s/patch.diff" % (V, bid), cwd=pat)
    assert r.returncode == 0, r.stdout
    r = buildtree(pat)
    if r.returncode: print(bid, "DOES NOT BUILD", r.stdout[-2000:]); return
    ok, msg = tests(pat)
    d0, o0 = demo(bid, base); d1, o1 = demo(bid, pat)
    good = ok and d0 == 0 and d1 != 0
    print("%s: tests %s (%s), demo base=%d patched=%d -> %s" % (bid, "pass" if ok else "FAIL", msg, d0, d1, "counts" if good else "DOES NOT COUNT"))
    if d0: print(o0[-1500:])
    if not quiet: print(o1[-600:])
    for p in props or [meta["property"]]:
        t = time.time()
        r = sh("python3 %s/run.py check %s --tier quick" % (V, p), env=dict(os.environ, VERIF_REPO=pat))
        v = re.findall(r"^VIOLATION .*", r.stdout, re.M)
        print("   check %s: exit %d in %.0fs %s" % (p, r.returncode, time.time() - t, v[0] if v else ""))
        if r.returncode not in (0, 1) or not quiet: print(r.stdout[-1500:])
    sys.stdout.flush()
def main():
    a = sys.argv[1:]
    if a[0] == "work": sync(W + "/edit"); print(W + "/edit")
    elif a[0] == "save":
        bid, prop, needs, br = a[1:5]
        d = V + "/seeded/" + bid; os.makedirs(d, exist_ok=True)
        shutil.rmtree(W + "/head", ignore_errors=True); fresh(W + "/head")
        shutil.rmtree(W + "/a", ignore_errors=True); shutil.rmtree(W + "/b", ignore_errors=True)
        os.rename(W + "/head", W + "/a"); shutil.copytree(W + "/edit", W + "/b", ignore=shutil.ignore_patterns("_build"))
        r = sh("diff -ruN --exclude=_build a b", cwd=W); assert r.stdout.strip(), "no change"
        t = re.sub(r"^diff -ruN .*\n", "", r.stdout, flags=re.M); t = re.sub(r"^(--- |\+\+\+ )(\S+)\t.*$", r"\1\2", t, flags=re.M)
        open(d + "/patch.diff", "w").write(t)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": br}, open(d + "/meta.json", "w"), indent=1)
        print(t)
    elif a[0] == "verify": verify(a[1], a[2:])
    elif a[0] == "all":
        for b in sorted(os.listdir(V + "/seeded")):
            if os.path.exists(V + "/seeded/%s/meta.json" % b) and (len(a) < 2 or b.startswith(a[1])): verify(b, quiet=True)
main()
