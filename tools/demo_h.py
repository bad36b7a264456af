"""Helpers for a demonstration; works in a scratch directory of its own."""
import glob, os, shutil, subprocess, sys, tempfile
R = os.getcwd()
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
D = tempfile.mkdtemp(prefix="demo-")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


def put(name, data):
    p = os.path.join(D, name)
    with open(p, "wb") as f: f.write(data if isinstance(data, bytes) else data.encode())
    return p


def c2po(spec, sigs, *opts, out="s.bin"):
    """Compile; returns (exit status, output text)."""
    args = [PY, R + "/compiler/c2po.py", "--spec", put("s.c2po", spec), "--map", put("s.map", "".join("%s:%d\n" % (n, i) for i, n in enumerate(sigs))),
            "-o", os.path.join(D, out), *opts]
    r = subprocess.run(args, capture_output=True, text=True, timeout=120, cwd=D)
    return r.returncode, r.stdout + r.stderr


def script(text):
    r = subprocess.run([PY, R + "/compiler/c2po.py", "-s", put("cmds", text)], capture_output=True, text=True, timeout=120, cwd=D)
    return r.returncode, r.stdout + r.stderr


def monitor(trace, exe=None, spec="s.bin", **kw):
    r = subprocess.run([exe or R + "/monitors/c/build/r2u2", os.path.join(D, spec), put("t.csv", trace)], capture_output=True, timeout=120, **kw)
    return r.returncode, r.stdout.decode()


def last(out):
    """Verdicts of each formula as a dense list, from output lines id:time,T/F."""
    v = {}
    for l in out.splitlines():
        f, tv = l.split(":", 1)
        t, b = tv.split(",")
        L = v.setdefault(f, [])
        while len(L) <= int(t): L.append(b)
    return v


def cprog(text, *flags, name="prog"):
    """Build a C program with the monitor library."""
    src = R + "/monitors/c/src"
    files = [f for f in glob.glob(src + "/**/*.c", recursive=True) if not f.endswith("cli/main.c")]
    inc = ["-I" + src] + ["-I" + d for d in glob.glob(src + "/*/")]
    exe = os.path.join(D, name)
    subprocess.run(["gcc", "-std=c99", "-D_POSIX_C_SOURCE=200112L", "-w", *flags, *inc, put(name + ".c", text), *files, "-lm", "-o", exe], check=True)
    return exe


def main(f):
    try:
        ok = f()
    finally:
        shutil.rmtree(D, ignore_errors=True)
    print("holds" if ok else "BROKEN")
    sys.exit(0 if ok else 1)
