"""Builds the library from /repo's working tree and the harnesses, in /verif/build
(git-ignored, content-addressed). No network, stdlib only."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SUP = os.path.join(VERIF, "support")

SRCS = ["rpmalloc.c", "future.c", "events.c", "except.c", "arrays.c", "async_io.c",
        "async_udp.c", "async_uds.c", "os_unix.c", "epoll.c"]
COMMON = ["-Wno-format", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-w",
          "-include", SUP + "/notls.h", "-I" + REPO + "/include", "-I" + REPO + "/src",
          "-D", "USE_DEBUG", "-D", "ENABLE_ASSERTS"]
LINK = ["-rdynamic", "-no-pie", "-lpthread", "-latomic", "-ldl"]
# plain: the project's own debug configuration; memory handed out and given back is overwritten (see h/pbt.c).
# asan:  no coroutines, no rpmalloc, address + undefined behaviour sanitizers.
VARIANTS = {
    "plain": dict(cc="gcc", std="gnu90", flags=["-g", "-O0"], poison=True),
    # noise: the library's memory accesses call h/noise.h, which delays threads at drawn places.
    "noise": dict(cc="gcc", std="gnu90", flags=["-g", "-O1"], libflags=["-fsanitize=thread"], poison=True, noise=True),
    "rel": dict(cc="gcc", std="gnu90", flags=["-g", "-O2"]),
    "asan": dict(cc="gcc", std="gnu90", flags=["-g", "-O1", "-DNO_RPMALLOC", "-fsanitize=address,bounds,object-size,shift-exponent,integer-divide-by-zero,null,return,vla-bound,unreachable",
                                               "-fno-sanitize-recover=all"],
                 skip=["rpmalloc.c"]),
}


class BuildError(Exception):
    pass


def _hash_tree():
    h = hashlib.sha256()
    for d in ("src", "include"):
        root = os.path.join(REPO, d)
        for dp, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".c", ".h", ".S", ".s", ".inc")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for f in ("notls.h", "sysinfo.py"):
        with open(os.path.join(SUP, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def lib_objs(variant):
    v = VARIANTS[variant]
    key = hashlib.sha256((_hash_tree() + repr(v) + repr(COMMON)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".ok")):
            return out, key
        for e in os.listdir(BUILD):      # keep the disk small: one tree per variant
            if e.startswith("lib-%s-" % variant) or e.startswith("bin-%s-" % variant):
                shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        _run([sys.executable, SUP + "/sysinfo.py", REPO + "/src/async_tls.c", tmp + "/sysinfo.c"])
        jobs = []
        for s in SRCS:
            if s in v.get("skip", []):
                continue
            jobs.append((REPO + "/src/" + s, tmp + "/" + s[:-2] + ".o"))
        jobs.append((tmp + "/sysinfo.c", tmp + "/sysinfo.o"))

        def one(j):
            _run([v["cc"], "-std=" + v["std"]] + v["flags"] + v.get("libflags", []) + COMMON + ["-c", j[0], "-o", j[1]])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        open(tmp + "/.ok", "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out, key


def harness(name, variant, extra_src=(), extra_flags=(), extra_link=()):
    """Compiles /verif/h/<name>.c with pbt.c against a library variant; returns the path."""
    out, key = lib_objs(variant)
    v = VARIANTS[variant]
    srcs = [VERIF + "/h/" + name + ".c"] + [VERIF + "/h/" + s for s in extra_src]
    hh = hashlib.sha256()
    for f in sorted(os.listdir(VERIF + "/h")):
        if f.endswith(".h") or f == "pbt.c" or VERIF + "/h/" + f in srcs:
            hh.update(f.encode())
            hh.update(open(os.path.join(VERIF, "h", f), "rb").read())
    hh.update(repr((extra_flags, extra_link, key, COMMON)).encode())
    bdir = os.path.join(BUILD, "bin-%s-%s" % (variant, key))
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, name + "-" + hh.hexdigest()[:12])
    with open(os.path.join(bdir, "." + name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for e in os.listdir(bdir):
            if e.startswith(name + "-"):
                os.unlink(os.path.join(bdir, e))
        objs = []
        san = [f for f in v["flags"] if f.startswith(("-fsanitize", "-fno-sanitize", "-DNO_", "-g", "-O"))]
        po = exe + ".pbt.o"
        psan = [f for f in san if not f.startswith("-O")]
        wrap = []
        if v.get("noise"):
            psan.append("-DPBT_NOISE")
        if v.get("poison") and name != "h_alloc":
            psan.append("-DPBT_POISON")
            wrap = ["-Wl,--wrap=rp_malloc,--wrap=rp_realloc,--wrap=rpfree"]
        _run([v["cc"], "-std=gnu11", "-O1"] + psan + ["-w", "-c", VERIF + "/h/pbt.c", "-o", po])
        objs.append(po)
        for i, s in enumerate(srcs):
            o = "%s.%d.o" % (exe, i)
            _run([v["cc"], "-std=gnu11"] + san + COMMON + list(extra_flags) + ["-I" + VERIF + "/h", "-c", s, "-o", o])
            objs.append(o)
        libo = [os.path.join(out, f) for f in sorted(os.listdir(out)) if f.endswith(".o")]
        _run([v["cc"]] + san + ["-o", exe + ".tmp"] + objs + libo + list(extra_link) + wrap + LINK)
        for o in objs:
            os.unlink(o)
        os.rename(exe + ".tmp", exe)
    return exe
