"""Runs the monitors of one property: builds them from /repo's working tree, runs
them in shards, judges what they reported, writes evidence and replay files."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import build as B

VERIF = B.VERIF
REPLAY = os.path.join(VERIF, "replay")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NCPU = max(1, min(8, os.cpu_count() or 1))


class HarnessError(Exception):
    pass


def known_findings(prop):
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m[1] == prop:
                r.append((m[2], m[3]))
    return r


class Ctx:
    """collects what one check observed"""

    def __init__(self, prop, tier, seed, spec):
        self.prop, self.tier, self.seed, self.spec = prop, tier, seed, spec
        self.t0 = time.time()
        self.stats = {}
        self.maxs = {}
        self.distincts = {}
        self.samples = []
        self.violations = []  # dicts: key, detail, replay info
        self.notes = []
        self.known_hit = {}

    thorough = property(lambda s: s.tier == "thorough")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def distinct(self, k, v):
        self.distincts.setdefault(k, set()).add(v)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s if len(s) < 700 else s[:700] + "...")

    def violation(self, key, detail, **replay):
        for pat, desc in known_findings(self.prop):
            if key == pat:
                self.known_hit[key] = desc
                return
        self.violations.append(dict(key=key, detail=detail, **replay))

    def check(self, ok, key, detail="", **replay):
        self.stat("checks")
        if not ok:
            self.violation(key, detail, **replay)
        return ok


SAN_RE = [
    (re.compile(r"==\d+==ERROR: AddressSanitizer: (\S+)"), "asan"),
    (re.compile(r"^(\S+?):\d+:\d+: runtime error: (.*)$", re.M), "ubsan"),
    (re.compile(r"WARNING: ThreadSanitizer: ([^(\n]+)"), "tsan"),
    (re.compile(r"ERROR: ThreadSanitizer: (\S+)"), "tsan"),
    (re.compile(r"ERROR: LeakSanitizer: (\S+)"), "lsan"),
    (re.compile(r"(terminate called[^\n]*|libc\+\+abi[^\n]*)"), "terminate"),
    (re.compile(r"(Assertion [^\n]* failed)"), "assert"),
]


def frames(txt):
    """function names of frames in the library or generated code"""
    r = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) ((?:/repo|%s)\S*?/(?:include/podio|src|gen)/\S+?):\d+" % re.escape(VERIF), txt):
        fn = re.sub(r"\(.*", "", m[1])
        if fn not in r:
            r.append(fn)
    return r


def classify_crash(rc, err):
    for rx, kind in SAN_RE:
        m = rx.search(err)
        if m:
            fr = frames(err[m.start():m.start() + 20000])
            what = m[2][:80] if kind == "ubsan" else m[1].strip()
            what = re.sub(r"0x[0-9a-f]+", "ADDR", what)
            return f"{kind}:{what}:{fr[0] if fr else '?'}", err[m.start():m.start() + 6000]
    if rc < 0:
        return f"crash:signal{-rc}", err[-3000:]
    return f"crash:exit{rc}", err[-3000:]


ENV = dict(
    ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0:check_initialization_order=1:max_malloc_fill_size=4096:malloc_fill_byte=203",
    UBSAN_OPTIONS="print_stacktrace=1",
    TSAN_OPTIONS="halt_on_error=1:second_deadlock_stack=1:history_size=4",
    ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer", TSAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer",
    UBSAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer")


def run_proc(argv, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(ENV)
    e["ASAN_OPTIONS"] += ":external_symbolizer_path=/usr/bin/llvm-symbolizer"
    e["TSAN_OPTIONS"] += " external_symbolizer_path=/usr/bin/llvm-symbolizer"
    e.update(env or {})
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(argv, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
        try:
            rc = p.wait(timeout)
            to = False
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            rc = p.wait()
        fo.seek(0)
        fe.seek(0)
        out = fo.read().decode("latin-1")
        err = fe.read().decode("latin-1")
    return rc, to, out, err


def last_case(err):
    m = re.findall(r"@VFCASE@(\d+)", err)
    return int(m[-1]) if m else None


class Run:
    """one driver over a range of cases"""

    def __init__(self, exe, quick, thorough, args=None, shards=None, env=None, timeout=300, wrapper=()):
        self.exe, self.quick, self.thorough = exe, quick, thorough
        self.args = args or {}
        self.shards, self.env, self.timeout, self.wrapper = shards, env, timeout, list(wrapper)


def absorb(ctx, out, argv):
    ended = False
    for line in out.split("\n"):
        i = line.find("@VF@")
        if i < 0:
            continue
        try:
            d = json.loads(line[i + 4:])
        except ValueError:
            raise HarnessError("unreadable monitor line: " + line[:300])
        t = d["t"]
        if t == "violation":
            a = [x for x in argv if not x.startswith(("from=", "to="))]
            cmd = a + [f"from={d['case']}", f"to={d['case'] + 1}"]
            ctx.violation(d["key"], d["detail"], case=d["case"], what=d["what"], ops=d["ops"], cmd=cmd)
        elif t == "stats":
            for k, v in d["stats"].items():
                ctx.stat(k, v)
            for k, v in d["max"].items():
                ctx.maxs[k] = max(v, ctx.maxs.get(k, 0))
            for k, v in d["distinct"].items():
                ctx.distincts.setdefault(k, set()).update(v)
            for s in d["samples"]:
                ctx.sample(s)
        elif t == "harness-error":
            raise HarnessError(f"{argv}: {d['what']} (case {d['case']})")
        elif t == "end":
            ended = True
    return ended


def run_shard(ctx, exe, run, lo, hi):
    """returns list of (argv, rc, timeout, out, err); restarts behind crashes that are known findings"""
    base = run.wrapper + [exe, f"prop={ctx.prop}", f"tier={ctx.tier}", f"seed={ctx.seed}"] + [f"{k}={v}" for k, v in run.args.items()]
    tmo = run.timeout * (10 if ctx.thorough else 1)
    results = []
    cur = lo
    retried = set()
    for _ in range(40):
        argv = base + [f"from={cur}", f"to={hi}"]
        rc, to, out, err = run_proc(argv, tmo, run.env)
        if to:
            c = last_case(err)
            if c is not None and c not in retried:
                # judge the case alone: a hang only if it hangs again
                retried.add(c)
                argv1 = base + [f"from={c}", f"to={c + 1}"]
                rc1, to1, out1, err1 = run_proc(argv1, max(120, tmo // 2), run.env)
                if to1:
                    results.append(("hang", argv1, rc1, out, err1))
                    return results
                results.append(("partial", argv, rc, out, err))
                if '"t":"end"' in out1 or '"t":"harness-error"' in out1:
                    results.append(("ok", argv1, rc1, out1, err1))
                else:
                    results.append(("crash", argv1, rc1, out1, err1, *classify_crash(rc1, err1), c))
                return results
            results.append(("partial", argv, rc, out, err))
            return results
        if rc in (0, 1, 3) and '"t":"end"' in out or '"t":"harness-error"' in out:
            results.append(("ok", argv, rc, out, err))
            return results
        c = last_case(err)
        a1 = base + ([f"from={c}", f"to={c + 1}"] if c is not None else [f"from={cur}", f"to={hi}"])
        key, det = classify_crash(rc, err)
        m = re.search(r"@VFNOTES@ (.*)", err)
        if m:
            det = f"operations: {m[1]}\n{det}"
        results.append(("crash", a1, rc, out, err, key, det, c))
        if c is None or not any(k == key for k, _ in known_findings(ctx.prop)) or c + 1 >= hi:
            return results
        cur = c + 1
    return results


def run_driver(ctx, exe, run):
    n = run.thorough if ctx.thorough else run.quick
    shards = min(run.shards or NCPU, n)
    per = [(i * n // shards, (i + 1) * n // shards) for i in range(shards)]
    with ThreadPoolExecutor(max_workers=min(shards, NCPU)) as ex:
        futs = [ex.submit(run_shard, ctx, exe, run, lo, hi) for lo, hi in per]
        for f in futs:
            for res in f.result():
                kind, argv, rc, out, err = res[:5]
                ended = absorb(ctx, out, argv)
                if kind == "hang":
                    ctx.violation("hang", "the case did not finish twice; stderr tail: " + err[-1500:], cmd=argv)
                elif kind == "crash":
                    key, det, c = res[5:]
                    ctx.violation(key, det, case=c, cmd=argv)
                elif kind == "partial":
                    ctx.notes.append(f"stopped by the watchdog: {argv}")
                    ctx.stat("shards_stopped_by_watchdog")
                elif not ended:
                    raise HarnessError(f"{argv}: no end marker, exit {rc}, stderr {err[-2000:]}")


COMPILE_ERR = re.compile(r"^(\S+?:\d+:\d+): (?:fatal )?error: (.*)$", re.M)


def do_build(ctx, spec):
    exes = {}
    for b in spec.get("build", []):
        bl = B.Builder(b.get("flavour", "asan"), b.get("model", False), b.get("defines", ()))
        for attempt in (0, 1):
            try:
                exes.update(bl.build(b["exes"], core=b.get("core", True), libs=b.get("libs", ())))
                break
            except B.GeneratorError as e:
                ctx.violation("generator:fails-on-valid-model", str(e), cmd=["build"])
                return None
            except B.BuildError as e:
                if attempt == 0:
                    continue
                m = COMPILE_ERR.search(str(e)) or re.search(r"(ld\S*|undefined reference|multiple definition)()", str(e))
                if m and "No such file" not in str(e)[:200] + (m[2] or ""):
                    ctx.violation("build:valid-use-does-not-compile", str(e)[max(0, m.start() - 200):][:6000], cmd=["build"])
                    return None
                raise HarnessError("build failed: " + str(e)[-4000:])
    return exes


def finish(ctx, level="exploration"):
    spec = ctx.spec
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(evaluations=ctx.stats.get(spec.get("evaluations", "evaluations"), 0),
               distinct_nontrivial=len(ctx.distincts.get(spec.get("nontrivial", "nontrivial"), ())),
               rule=spec["rule"], samples=ctx.samples[:5] or ["(none)"])
    cov["observed"] = dict(sorted(ctx.stats.items()))
    cov["observed_max"] = dict(sorted(ctx.maxs.items()))
    cov["observed_distinct"] = {k: len(v) for k, v in sorted(ctx.distincts.items())}
    if ctx.notes:
        cov["notes"] = ctx.notes[:20]
    if ctx.known_hit:
        cov["known_findings_seen"] = ctx.known_hit
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.violations))
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{ctx.prop}.json"), "w"), indent=1, sort_keys=True)
    for pat, desc in known_findings(ctx.prop):
        print(f"KNOWN-FINDING: property={ctx.prop} {desc}")
    if not ctx.violations:
        if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
            print(f"ERROR: the check of {ctx.prop} observed nothing", file=sys.stderr)
            return 2
        print(f"held: property={ctx.prop} evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} checks={ctx.stats.get('checks', 0)} wall={ev['wall_s']}s")
        return 0
    os.makedirs(REPLAY, exist_ok=True)
    seen = {}
    for v in ctx.violations:
        seen.setdefault(v["key"], v)
    for i, (k, v) in enumerate(list(seen.items())[:12]):
        p = os.path.join(REPLAY, f"{ctx.prop}-{ctx.seed}-{i}.json")
        json.dump(dict(property=ctx.prop, seed=ctx.seed, tier=ctx.tier, **v), open(p, "w"), indent=1, default=str)
        print(f"  {k}: {str(v['detail'])[:400]}")
        print(f"VIOLATION property={ctx.prop} replay={p}")
    return 1


def main(checks, argv):
    prop = argv[0]
    if prop not in checks:
        print("unknown property", prop, file=sys.stderr)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks[prop]
    ctx = Ctx(prop, tier, seed, spec)
    try:
        exes = do_build(ctx, spec)
        ctx.exes = exes
        if exes is not None:
            ctx.stat("build_seconds", int(time.time() - ctx.t0))
            for run in spec.get("runs", []):
                if run.exe.endswith(".py"):
                    run.wrapper = [sys.executable, "-B"]
                    run_driver(ctx, os.path.join(VERIF, "py", run.exe), run)
                else:
                    run_driver(ctx, exes[run.exe], run)
            for f in spec.get("python", []):
                f(ctx)
        return finish(ctx)
    except HarnessError as e:
        print("HARNESS ERROR:", e, file=sys.stderr)
        return 2
