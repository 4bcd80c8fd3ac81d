"""Native replays: the harness, with the contracts it registered in place of the functions they describe, compiled
from the same bitcode, linked with rt/dv_rt.cpp and run under wine with a prefix of its own."""
import os, shutil, subprocess, tempfile, hashlib
import dvlib as d
CXX = "x86_64-w64-mingw32-g++-posix"
LIBS = "-lws2_32 -liphlpapi -lcrypt32 -lnetapi32 -lpsapi -ladvapi32 -lole32".split()
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="dvreplay.")
        p = os.path.join(_scratch, "prefix"); src = "/opt/vp/wine"
        os.makedirs(os.path.join(p, "drive_c", "windows"))
        for f in os.listdir(src):
            if f not in ("drive_c", "wineserver"):
                d.sh(["cp", "-a", os.path.join(src, f), p])
        for f in os.listdir(src + "/drive_c"):
            if f != "windows":
                d.sh(["cp", "-a", src + "/drive_c/" + f, p + "/drive_c/"])
        for f in os.listdir(src + "/drive_c/windows"):
            if f in ("system32", "winsxs", "syswow64"):
                os.symlink(src + "/drive_c/windows/" + f, p + "/drive_c/windows/" + f)
            else:
                d.sh(["cp", "-a", src + "/drive_c/windows/" + f, p + "/drive_c/windows/"])
    return _scratch


def env():
    e = dict(os.environ, WINEPREFIX=os.path.join(scratch(), "prefix"), WINEDEBUG="-all",
             WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=")
    e.pop("DISPLAY", None)
    return e


def cleanup():
    global _scratch
    if _scratch:
        subprocess.run(["/usr/lib/wine/wineserver64", "-k"], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def build(engine, bc, entry, choices):
    """-> path of an executable, or raises."""
    s = scratch()
    tag = hashlib.sha1((bc + entry + repr(sorted(choices.items()))).encode()).hexdigest()[:12]
    exe = os.path.join(s, tag + ".exe")
    if os.path.exists(exe):
        return exe
    rb = os.path.join(s, tag + ".bc")
    cmd = [engine, bc, "--harness", "H_" + entry, "--emit-replaced", rb, "--limit", "60"]
    for k, v in choices.items():
        cmd += ["--choose", "%s=%s" % (k, v)]
    try:
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        pass
    if not os.path.exists(rb):
        shutil.copy(bc, rb)
    r = d.sh([d.LL + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=H_" + entry, rb, "-o", rb[:-3] + ".i.bc"])
    if r.returncode == 0:
        rb = rb[:-3] + ".i.bc"
    o = os.path.join(s, tag + ".o")
    r = d.sh([d.CLANG, "--target=x86_64-w64-mingw32", "-O1", "-w", "-femulated-tls", "-fexceptions", "-c", rb, "-o", o])
    if r.returncode:
        raise RuntimeError("replay does not compile: " + r.stderr[-1500:])
    ro = os.path.join(s, tag + ".rt.o")
    r = d.sh([CXX, "-std=c++17", "-O1", "-w", "-DENTRY=H_" + entry, "-c", os.path.join(d.V, "rt", "dv_rt.cpp"), "-o", ro])
    if r.returncode:
        raise RuntimeError("replay runtime does not compile: " + r.stderr[-1500:])
    r = d.sh([CXX, "-static", "-o", exe, o, ro, "-Wl,--wrap=malloc,--wrap=calloc,--wrap=free", "-Wl,--allow-multiple-definition"] + LIBS + ["-Wl,--stack,16777216"])
    if r.returncode:
        raise RuntimeError("replay does not link: " + r.stderr[-1500:])
    return exe


def run(exe, args, timeout=120):
    try:
        r = subprocess.run(["/usr/lib/wine/wine64", exe] + args, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout, cwd=scratch())
        return r.returncode, r.stdout.decode("latin1").replace("\r", "")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("latin1") + "\nTIMEOUT"
