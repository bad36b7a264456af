"""A compiler process of its own (another hash seed, another working directory), serving jobs one after the other: `python -m dst.serve`.
Job (JSON line): {"files": .., "cmds": .., "cwd": bool} -> [[out, err, code]..., {file: digest}]"""
import json, os, subprocess, sys


class Server:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([sys.executable, "-m", "dst.serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def job(self, **j):
        self.p.stdin.write(json.dumps(j) + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l: raise RuntimeError("compiler process ended")
        return json.loads(l)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def main():
    sys.setrecursionlimit(10000)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from . import hist, msim
    try:
        for line in sys.stdin:
            j = json.loads(line)
            out.write(json.dumps(hist.job(j["files"], j["cmds"], j.get("cwd"))) + "\n")
            out.flush()
    finally:
        msim.cleanup()


if __name__ == "__main__":
    main()
