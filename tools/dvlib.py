"""Building: the engine, the library's bitcode from /repo's current tree, harness bitcode."""
import hashlib, json, os, re, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
BUILD = os.path.join(V, "build")
COMPAT = "/opt/vp/compat"
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "/usr/bin/clang++"
LL = "/usr/lib/llvm-18/bin/"
STALE = {"ACSTest", "DLTMK5Q8380417N256", "DLTMK6Q8380417N256", "SocketReceiver", "SocketSender"}
FLAGS = ("--target=x86_64-w64-mingw32 -std=c++17 -O0 -w -mavx2 -maes -mpclmul -mrdrnd -mrdseed -msha -mbmi2"
         " -fno-strict-aliasing -fwrapv -femulated-tls -fcxx-exceptions -mxsave -D_M_X64=100 -D_M_AMD64=100 -DNDEBUG -D_CONSOLE -DUNICODE -D_UNICODE"
         " -fdelayed-template-parsing -fgnuc-version=4.2.1 -fms-extensions -fms-compatibility"
         " -fms-compatibility-version=19.30 -D__EXCEPTIONS=1 -D__STDC__=1").split()
IR = "-Xclang -disable-O0-optnone -gline-tables-only -emit-llvm -c".split()
PASSES = "function(sroa,early-cse,simplifycfg,instsimplify)"
JOBS = int(os.environ.get("DV_JOBS", str(os.cpu_count() or 4)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def prelude():
    """The build's own prelude; it names /repo, so a copy is pointed at REPO when that differs."""
    p = os.path.join(COMPAT, "prelude.h")
    if REPO == "/repo":
        return p
    q = os.path.join(BUILD, "prelude_%s.h" % hashlib.sha1(REPO.encode()).hexdigest()[:8])
    t = open(p).read().replace("/repo/", REPO + "/")
    if not os.path.exists(q) or open(q).read() != t:
        open(q, "w").write(t)
    return q


def common():
    inc = []
    return FLAGS + inc + ["-include", prelude(), "-I" + COMPAT + "/inc"]


def fhash(paths):
    h = hashlib.sha1()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(V, "engine", f) for f in os.listdir(os.path.join(V, "engine")) if f.endswith((".cpp", ".h", "Makefile"))]
    h = fhash(src)
    stamp = os.path.join(BUILD, "engine.stamp"); exe = os.path.join(BUILD, "engine", "dv")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    r = sh(["make", "-j", str(JOBS), "-C", os.path.join(V, "engine")])
    if r.returncode:
        raise SystemExit("engine build failed:\n" + r.stdout[-3000:] + r.stderr[-5000:])
    open(stamp, "w").write(h)
    return exe


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        d = os.path.join(REPO, "CEX")
        fs = [os.path.join(d, f) for f in os.listdir(d) if f.endswith((".h", ".inl", ".hpp"))]
        fs += [os.path.join(r, f) for r, _, ff in os.walk(COMPAT) for f in ff]
        h = hashlib.sha1(); h.update(" ".join(FLAGS + IR + [PASSES]).encode())
        for p in sorted(fs):
            h.update(p.encode()); h.update(open(p, "rb").read())
        _hdr = h.hexdigest()
    return _hdr


def compile_bc(src, out, extra=(), text=None):
    tmp = out + ".%d.tmp" % os.getpid()
    inp = src
    if text is not None:
        inp = out + ".src.cpp"; open(inp, "w").write(text)
    r = sh([CLANG] + common() + ["-I" + os.path.join(REPO, "CEX")] + IR + list(extra) + [inp, "-o", tmp])
    if r.returncode:
        return "%s\n%s" % (src, r.stderr[-3000:])
    r = sh([LL + "opt", "-passes=" + PASSES, tmp, "-o", tmp + "2"])
    os.unlink(tmp)
    if r.returncode:
        return "%s\n%s" % (src, r.stderr[-3000:])
    os.rename(tmp + "2", out)
    return None


def build_library(quiet=True):
    """Every translation unit of the library as bitcode, linked. Cached by content."""
    d = os.path.join(REPO, "CEX")
    os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)
    hh = header_hash()
    jobs, objs, key = [], [], hashlib.sha1()
    for f in sorted(os.listdir(d)):
        if not f.endswith(".cpp") or f[:-4] in STALE:
            continue
        p = os.path.join(d, f)
        t = open(p, "rb").read()
        k = hashlib.sha1(hh.encode() + p.encode() + t).hexdigest()
        key.update(k.encode())
        o = os.path.join(BUILD, "bc", "%s.%s.bc" % (f[:-4], k[:16]))
        objs.append(o)
        if not os.path.exists(o):
            text = None
            if f == "FileStream.cpp":  # the build's own adjustment of this file, see /opt/vp/compat/gen.py
                text = t.decode("utf8", "replace").replace(
                    "static_cast<int32_t>(Access) | static_cast<int32_t>(Mode))",
                    "static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)))")
            jobs.append((p, o, text))
    std = os.path.join(BUILD, "bc", "stdinst.%s.bc" % hh[:16])
    if not os.path.exists(std):
        jobs.append((os.path.join(V, "harness", "stdinst.cpp"), std, None))
    errs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(lambda j: compile_bc(j[0], j[1], text=j[2]), jobs):
            if e:
                errs.append(e)
    if errs:
        raise SystemExit("the tree does not compile:\n" + "\n".join(errs))
    lib = os.path.join(BUILD, "bc", "LIB.%s.bc" % key.hexdigest()[:16])
    if not os.path.exists(lib):
        r = sh([LL + "llvm-link", "-o", lib + ".%d.tmp" % os.getpid()] + objs + [std])
        if r.returncode:
            raise SystemExit("llvm-link: " + r.stderr[-3000:])
        os.rename(lib + ".%d.tmp" % os.getpid(), lib)
    # drop superseded files
    keep = set(objs) | {std, lib}
    for f in os.listdir(os.path.join(BUILD, "bc")):
        p = os.path.join(BUILD, "bc", f)
        if p not in keep and not f.endswith(".tmp") and not f.endswith(".tmp2") and not f.startswith("H.") and os.path.getmtime(p) < __import__("time").time() - 86400:
            os.unlink(p)
    return lib


def build_harness(name, lib):
    src = os.path.join(V, "harness", name + ".cpp")
    hs = [os.path.join(V, "harness", f) for f in os.listdir(os.path.join(V, "harness")) if f.endswith(".h")]
    k = hashlib.sha1((header_hash() + fhash([src] + hs) + os.path.basename(lib)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "bc", "H.%s.%s.bc" % (name, k))
    if os.path.exists(out):
        return out
    tmp = os.path.join(BUILD, "bc", "H.%s.%d.tmp" % (name, os.getpid()))
    e = compile_bc(src, tmp, extra=["-fno-access-control", "-I" + os.path.join(V, "harness")])
    if e:
        raise SystemExit("harness does not compile against the tree:\n" + e)
    r = sh([LL + "llvm-link", "--only-needed", "-o", out + ".tmp", tmp, lib])
    if r.returncode:
        raise SystemExit("llvm-link: " + r.stderr[-3000:])
    # keep what the harness can reach
    r = sh([LL + "opt", "-passes=globaldce", "--internalize-public-api-list=x", out + ".tmp", "-o", out + ".tmp2"])
    os.rename(out + ".tmp", out)
    for p in (tmp, out + ".tmp2"):
        if os.path.exists(p):
            os.unlink(p)
    return out


if __name__ == "__main__":
    e = build_engine(); l = build_library()
    print(e, l)
    for n in sys.argv[1:]:
        print(build_harness(n, l))
