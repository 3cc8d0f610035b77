#!/usr/bin/env python3
"""Development tool: tries planted bugs in scratch copies of /repo and /verif, each shown at its
real path in a mount namespace of its own.
  seedtest.py [-j N] [--no-tests] [--checks C01,C02] ID...      (no ID: all)"""
import argparse
import json
import os
import subprocess
import sys
import threading
import time

V = "/verif"
SW = "/tmp/sw"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(slot, cmd, timeout=3000):
    inner = f"mount --bind {slot}/repo /repo && mount --bind {slot}/verif /verif && cd /repo && {cmd}"
    return subprocess.run(["unshare", "-Urm", "bash", "-c", inner], capture_output=True, text=True, errors="backslashreplace", timeout=timeout,
                          env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))


def one(slot, sid, a):
    src = f"{V}/seeded/{sid}" if os.path.exists(f"{V}/seeded/{sid}") else f"{V}/mutants/{sid}"
    meta = json.load(open(f"{src}/meta.json"))
    t0 = time.time()
    out = []
    d = f"{slot}/demo-{sid}"
    subprocess.run(["cp", "-a", src, d])
    subprocess.run(f"git -C {slot}/repo checkout -q -- . ", shell=True)
    r = subprocess.run(["git", "-C", f"{slot}/repo", "apply", f"{src}/patch.diff"], capture_output=True, text=True, errors="backslashreplace")
    if r.returncode:
        return f"{sid}: DOES NOT APPLY {r.stderr}"
    try:
        if not a.no_tests:
            r = sh(slot, f"bash /opt/vp/test.sh {slot}/t.json")
            try:
                p = set(json.load(open(f"{slot}/t.json"))["passed"])
            except Exception:
                p = set()
            miss = BASE - p
            out.append("tests ok" if not miss else f"TESTS FAIL {sorted(miss)[:4]} {r.stdout[-600:] if not p else ''}")
            r = sh(slot, f"bash {d}/demo.sh", 400)
            out.append(f"demo {'fails (good)' if r.returncode else 'PASSES WITH PATCH'}: {(r.stdout + r.stderr)[-150:].strip()!r}")
        for c in (a.checks.split(",") if a.checks else [meta["property"]]):
            if c == "none":
                continue
            t1 = time.time()
            r = sh(slot, f"cd /verif && python3 check.py {c} quick")
            hit = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
            first = (r.stdout.strip().split("\n")[0] if hit else (r.stdout + r.stderr)[-300:]).strip()
            out.append(f"{c}: {'caught' if hit else 'MISSED rc=%d' % r.returncode} ({time.time() - t1:.0f}s) {first[:160]}")
        if a.clean:
            subprocess.run(f"git -C {slot}/repo checkout -q -- . ", shell=True)
            r = sh(slot, f"bash /opt/vp/build.sh >/dev/null 2>&1; bash {d}/demo.sh", 3000)
            out.append("clean demo ok" if r.returncode == 0 else f"CLEAN DEMO FAILS {(r.stdout + r.stderr)[-300:]}")
    finally:
        subprocess.run(f"git -C {slot}/repo checkout -q -- . ", shell=True)
        subprocess.run(["rm", "-rf", d])
    return f"{sid} [{time.time() - t0:.0f}s]: " + "\n     ".join(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--clean", action="store_true", help="also run the demo on the unchanged tree")
    ap.add_argument("--checks")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(f"{V}/seeded"))
    lock = threading.Lock()
    todo = list(ids)

    def work(k):
        slot = f"{SW}/{k}"
        os.makedirs(slot, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "/repo/", f"{slot}/repo/"]) if os.path.exists("/usr/bin/rsync") else subprocess.run(
            f"[ -d {slot}/repo ] || cp -a /repo {slot}/repo; git -C {slot}/repo fetch -q /repo HEAD && git -C {slot}/repo checkout -q -f FETCH_HEAD", shell=True)
        os.makedirs(f"{slot}/verif", exist_ok=True)
        subprocess.run(f"cd {V} && for x in *; do [ $x = seeded ] || [ $x = mutants ] || {{ rm -rf {slot}/verif/$x; cp -a $x {slot}/verif/; }}; done; [ -d {slot}/verif/.build ] || cp -a .build {slot}/verif/", shell=True)
        while True:
            with lock:
                if not todo:
                    return
                sid = todo.pop(0)
            try:
                s = one(slot, sid, a)
            except Exception as e:
                s = f"{sid}: EXCEPTION {e!r}"
            with lock:
                print(s, flush=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(1, a.j + 1)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
