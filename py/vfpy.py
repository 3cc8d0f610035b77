"""Base of the monitors written in Python: same protocol as cpp/vf_base."""
import json
import os
import random
import shutil
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "python"))
sys.path.insert(1, VERIF)

from vf import genmodel as G  # noqa: E402


def h64(s):
    h = 1469598103934665603
    for c in s.encode("utf-8", "surrogatepass"):
        h = ((h ^ c) * 1099511628211) & (2**64 - 1)
    return h


class Mon:
    def __init__(self):
        a = dict(x.split("=", 1) for x in sys.argv[1:])
        self.args = a
        self.tier, self.seed = a.get("tier", "quick"), int(a.get("seed", "1"), 0)
        self.lo, self.hi = int(a.get("from", "0")), int(a.get("to", "1"))
        self.mode = a.get("mode", "")
        self.stats, self.maxs, self.dist, self.samples = {}, {}, {}, []
        self.nviol, self.case_viol, self.keys = 0, 0, {}
        self.idx, self.what, self.ops = 0, "", []

    thorough = property(lambda s: s.tier == "thorough")

    def emit(self, d):
        sys.stdout.write("@VF@" + json.dumps(d, separators=(",", ":")) + "\n")
        sys.stdout.flush()

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def stat_max(self, k, n):
        self.maxs[k] = max(n, self.maxs.get(k, 0))

    def distinct(self, k, s):
        self.dist.setdefault(k, set()).add(h64(s))

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s[:600])

    def note(self, s):
        self.ops.append(s if len(s) < 4000 else s[:4000] + "...")

    def violation(self, key, detail=""):
        self.nviol += 1
        self.case_viol += 1
        self.keys[key] = self.keys.get(key, 0) + 1
        if self.keys[key] <= 3:
            self.emit(dict(t="violation", key=key, detail=str(detail)[:3000], case=self.idx, what=self.what, ops=self.ops[-60:]))

    def check(self, ok, key, detail=""):
        self.stat("checks")
        if not ok:
            self.violation(key, detail() if callable(detail) else detail)
        return ok

    def eq(self, got, want, key, ctx=""):
        self.stat("checks")
        if got != want or type(got) is not type(want):
            self.violation(key, f"{ctx} got {got!r} expected {want!r}")
            return False
        return True

    def rng(self, salt=""):
        return random.Random(f"{self.seed}/{salt}/{self.idx}")

    def run(self, case):
        """case(mon) judges one case; exceptions that get here are the monitor's own"""
        self.tmp = tempfile.mkdtemp(prefix="vfpy")
        try:
            for self.idx in range(self.lo, self.hi):
                if self.nviol > 60:
                    break
                self.ops, self.case_viol = [], 0
                os.write(2, b"@VFCASE@%d\n" % self.idx)
                case(self)
        except Exception:
            self.emit({"t": "harness-error", "what": traceback.format_exc()[-3000:], "case": self.idx})
            sys.exit(3)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.emit({"t": "stats", "stats": self.stats, "max": self.maxs, "distinct": {k: sorted(v)[:50000] for k, v in self.dist.items()}, "samples": self.samples})
        self.emit({"t": "end", "early": False})
        sys.exit(1 if self.nviol else 0)
