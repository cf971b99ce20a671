import json
import os
import subprocess
import sys

ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
os.environ["VERIF_ROOT"] = ROOT


def cargo_env(target=None, extra=None):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(
        RUSTUP_TOOLCHAIN="stable",
        RUSTC_WRAPPER="",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=target or os.path.join(BUILD, "target"),
        RUSTFLAGS="--cap-lints warn -Awarnings",
    )
    e.update(extra or {})
    return e


def generate():
    """(Re)generate the buildable mirror of /repo's crates under build/ws."""
    import mkws
    mkws.generate()


def build(crate, bin_name=None):
    """Build harness/<crate>; return the path of its executable, or None."""
    os.makedirs(BUILD, exist_ok=True)
    generate()
    d = os.path.join(ROOT, "harness", crate)
    p = subprocess.run(
        ["cargo", "build", "--offline", "--quiet", "--message-format=json-render-diagnostics"],
        cwd=d, env=cargo_env(), stdout=subprocess.PIPE, text=True)
    if p.returncode != 0:
        return None
    exe = None
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            if bin_name is None or m["target"]["name"] == bin_name:
                exe = m["executable"]
    return exe


if __name__ == "__main__":
    for c in sys.argv[1:]:
        print(c, build(c))
