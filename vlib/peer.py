"""A second process with another build and other memory contents: python -m vlib.peer PKG
reads one JSON case per line, answers with the digests of every result."""
import json
import os
import subprocess
import sys


class Peer:
    def __init__(self, variant="pattern"):
        e = dict(os.environ)
        e.update(MALLOC_PERTURB_="165")
        e.pop("LD_PRELOAD", None)
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "vlib.peer", os.environ["VERIF_PKG_" + variant]], env=e,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, case):
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("the peer process died (%s)" % self.p.poll())
            if line.startswith("PEER "):
                return [tuple(x) for x in json.loads(line[5:])]


def main():
    pkg = sys.argv[1]
    sys.path.insert(0, pkg)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    out = os.dup(1)
    os.dup2(2, 1)       # the C code prints to stdout
    import pycold
    assert pycold.__file__.startswith(pkg)
    from checks import C05
    for line in sys.stdin:
        os.write(out, ("PEER " + json.dumps(C05.one(json.loads(line))) + "\n").encode())


if __name__ == "__main__":
    main()
