#!/usr/bin/env python3
"""Build the harness of one property from /repo's working tree, run it, and map the outcome.

Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: inconclusive / error.
"""
import os
import signal
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
from props import PROPS  # noqa: E402

CRASH = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def main():
    prop = sys.argv[1]
    extra = sys.argv[2:]
    spec = PROPS[prop]
    if "script" in spec:
        mod = __import__(spec["script"])
        sys.exit(mod.main(prop, extra))
    exe = common.build(spec["crate"])
    if exe is None:
        print(f"{prop}: the harness does not build", file=sys.stderr)
        return 2
    rc = run(prop, [exe, prop] + extra)
    if rc == 0 and not extra and "then" in spec:
        mod = __import__(spec["then"])
        rc = mod.main(prop, extra)
    return rc


def run(prop, cmd, env=None):
    inflight = os.path.join(common.BUILD, f"inflight-{prop}")
    e = dict(os.environ, VMON_INFLIGHT=inflight, VERIF_ROOT=common.ROOT, RUST_BACKTRACE="0")
    e.update(env or {})
    p = subprocess.run(cmd, env=e)
    if p.returncode in (0, 1, 2):
        return p.returncode
    if p.returncode < 0 and signal.Signals(-p.returncode) in CRASH:
        name = signal.Signals(-p.returncode).name
        fl = ""
        if os.path.exists(inflight):
            fl = open(inflight, errors="replace").read()
        active = [l.replace("\0", "").strip() for l in fl.splitlines()]
        active = [l for l in active if l and not l.startswith("idle")]
        if active:
            os.makedirs(os.path.join(common.ROOT, "replays"), exist_ok=True)
            path = os.path.join(common.ROOT, "replays", f"{prop}-crash.txt")
            seed = os.environ.get("VERIF_SEED", "1")
            tier = os.environ.get("VERIF_TIER", "quick")
            with open(path, "w") as f:
                f.write(f"property: {prop}\nthe process died with {name} while these cases were in flight "
                        f"(stream index, one per thread):\n" + "\n".join(active) +
                        f"\nreplay each: VERIF_SEED={seed} VERIF_TIER={tier} bash run.sh {prop} --only STREAM INDEX\n")
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  the code under test killed the process with {name}; in flight: {'; '.join(active)}")
            return 1
    print(f"{prop}: harness ended with status {p.returncode}", file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main())
