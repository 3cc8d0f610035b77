"""Runs a python script while recording what it does to files.
audited.py LOG CRASH script args...: with CRASH > 0 the process dies at that write."""
import json
import os
import sys

log = open(sys.argv[1], "w", buffering=1)
crash = int(sys.argv[2])
sys.argv = sys.argv[3:]
sys.path[0] = os.path.dirname(os.path.abspath(sys.argv[0]))
n = 0
WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ONE = {"os.mkdir", "os.remove", "os.rmdir", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.mkfifo", "os.mknod"}
TWO = {"os.rename", "os.link", "os.symlink"}


def hook(ev, args):
    global n
    paths = ()
    if ev == "open":
        if isinstance(args[0], (str, bytes)) and (args[2] or 0) & WR:
            paths = args[:1]
    elif ev in ONE:
        paths = args[:1]
    elif ev in TWO:
        paths = args[:2]
    if not paths:
        return
    for p in paths:
        if not isinstance(p, (str, bytes)):
            continue
        p = os.path.abspath(os.fsdecode(p))
        if ev == "open" and crash and "jinja2_cache" not in p and p != "/dev/null":
            n += 1
            if n == crash:
                log.write(json.dumps(["crash", p]) + "\n")
                log.flush()
                os._exit(99)
        log.write(json.dumps([ev, p]) + "\n")


import runpy  # noqa: E402

sys.addaudithook(hook)
runpy.run_path(sys.argv[0], run_name="__main__")
