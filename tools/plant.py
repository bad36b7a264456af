#!/usr/bin/env python3
"""Plants seeded bugs in private copies (never in /repo itself) and reports which checks catch them.
  plant.py make ID PROP FILE  -- stdin: python list of (file, old, new); writes seeded/ID/patch.diff
  plant.py test ID [PROP...]  -- build, stable tests, demo on both trees, then the checks (default: the property in meta.json)
  plant.py checks ID PROP...  -- only the checks
Each runs in a mount namespace of its own where the copy appears as /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "/tmp/pl"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy(name):
    d = os.path.join(T, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.makedirs(d + "/log")
    return d


def inside(d, cmd, timeout=900, verif=False):
    """Run cmd where d/repo is /repo and d/log is /opt/vp/log."""
    pre = "mount --bind %s/repo /repo && mount --bind %s/log /opt/vp/log && " % (d, d)
    return subprocess.run(["unshare", "-Urm", "sh", "-c", pre + cmd], capture_output=True, text=True, timeout=timeout)


def make(sid, prop, edits, what="", needs=""):
    d = copy("mk-" + sid)
    for f, old, new in edits:
        p = os.path.join(d, "repo", f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s/repo diff" % d).stdout
    out = os.path.join(V, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def stable(d):
    o = json.load(open(d + "/o.json"))["passed"]
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(b) - set(o))


def test(sid, props, tests=True, demo=True):
    sd = os.path.join(V, "seeded", sid)
    meta = json.load(open(sd + "/meta.json"))
    props = props or [meta["property"]]
    d = copy(sid)
    res = [sid]
    try:
        shutil.copytree(sd, d + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        if demo:
            r = inside(d, "bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && bash %s/demo/demo.sh" % d)
            res.append("demo-clean=%d" % r.returncode)
            if r.returncode: res.append(r.stdout[-600:] + r.stderr[-600:])
        a = sh("git -C %s/repo apply %s/patch.diff" % (d, sd))
        if a.returncode: return res + ["PATCH DOES NOT APPLY " + a.stderr]
        if demo:
            r = inside(d, "bash /opt/vp/build.sh >/dev/null 2>&1 && cd /repo && bash %s/demo/demo.sh" % d)
            res.append("demo-bug=%d" % r.returncode)
            if r.returncode == 0: res.append("DEMO MISSES")
        if tests:
            inside(d, "bash /opt/vp/test.sh %s/o.json" % d)
            f = stable(d)
            res.append("tests=%s" % ("ok" if not f else "FAIL %d %s" % (len(f), f[:3])))
        for p in props:
            r = inside(d, "cd %s && ./check %s --no-evidence --tier=quick" % (V, p), timeout=1500)
            lines = [l for l in r.stdout.splitlines() if l.startswith("  run ") or "VIOLATION" in l]
            res.append("%s=%s" % (p, "CAUGHT" if r.returncode == 1 and any("VIOLATION property=" + p in l for l in lines) else "MISSED rc=%d" % r.returncode))
            res.append((lines[0][:220] if lines else "") + (r.stderr[-400:] if r.returncode > 1 else ""))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] in ("test", "checks"):
        print("\n   ".join(str(x) for x in test(sys.argv[2], sys.argv[3:], tests=sys.argv[1] == "test", demo=sys.argv[1] == "test")))
