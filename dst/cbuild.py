"""Build the simulation driver from /repo's current working tree (never from its build products)."""
import glob, hashlib, os, shutil, subprocess, tempfile, concurrent.futures as cf

REPO = os.environ.get("DST_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CSRC = os.path.join(REPO, "monitors/c/src")
CACHE = os.path.join(os.path.dirname(HERE), ".cache")


class BuildError(Exception):
    pass


def _tree_hash(extra):
    h = hashlib.sha256()
    for p in sorted(glob.glob(CSRC + "/**/*", recursive=True)):
        if os.path.isfile(p):
            h.update(os.path.relpath(p, CSRC).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
    for p in ("driver.c", "seam.h"):
        with open(os.path.join(HERE, p), "rb") as f:
            h.update(f.read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


def build(aux=False, bounds_h=None, sanitize=True, defines=(), keep=True):
    """Return the path of a driver binary. aux: R2U2_AUX_STRING_SPECS; bounds_h: text replacing internals/bounds.h."""
    key = _tree_hash(repr((aux, bounds_h, sanitize, tuple(defines))))
    out = os.path.join(CACHE, "drv-" + key)
    if keep and os.path.exists(out):
        return out
    if not keep: out += "-%d" % os.getpid()
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="dstb-", dir=CACHE)
    try:
        src = os.path.join(tmp, "src")
        shutil.copytree(CSRC, src)
        if bounds_h is not None:
            with open(os.path.join(src, "internals/bounds.h"), "w") as f:
                f.write(bounds_h)
        flags = ["-std=gnu11", "-D_GNU_SOURCE", "-O1", "-g", "-w", "-fno-omit-frame-pointer",
                 "-fsanitize-coverage=trace-pc-guard", "-I" + src] + ["-I" + d for d in sorted(glob.glob(src + "/*/"))]
        if sanitize:
            flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                      # integer wrap/shift are covered as results, not as crashes of the shipped -O3 build
                      "-fno-sanitize=signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,shift"]
        if aux:
            flags.append("-DR2U2_AUX_STRING_SPECS=1")
        flags += ["-D" + d for d in defines]
        units = sorted(glob.glob(src + "/**/*.c", recursive=True))
        jobs = []
        for i, u in enumerate(units):
            o = os.path.join(tmp, "u%d.o" % i)
            extra = ["-include", os.path.join(HERE, "seam.h")] if "/cli/" in u else []
            # shipped sources are C99: keep that dialect, POSIX names visible through _GNU_SOURCE
            if u.endswith("/cli/main.c"): extra = extra + ["-DDST_FIXED_BOUNDS"]
            jobs.append((["clang"] + [f if f != "-std=gnu11" else "-std=c99" for f in flags] + extra + ["-c", u, "-o", o], o))
        jobs.append((["clang"] + [f for f in flags if "coverage" not in f] + ["-DDST_FIXED_BOUNDS", "-c", os.path.join(HERE, "driver.c"), "-o", os.path.join(tmp, "drv.o")],
                     os.path.join(tmp, "drv.o")))
        def one(job):
            r = subprocess.run(job[0], capture_output=True, text=True)
            return r.returncode, r.stderr
        with cf.ThreadPoolExecutor(8 if keep else 2) as ex:
            for (rc, err), job in zip(ex.map(one, jobs), jobs):
                if rc:
                    raise BuildError(err[-3000:])
        exe = os.path.join(tmp, "drv")
        r = subprocess.run(["clang"] + (["-fsanitize=address,undefined"] if sanitize else []) + ["-fsanitize-coverage=trace-pc-guard"] + [j[1] for j in jobs] + ["-lm", "-o", exe], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        os.replace(exe, out)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
