"""Build every harness. A harness that does not build is reported by its own check, not here."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
from props import PROPS  # noqa: E402

for crate in sorted({p["crate"] for p in PROPS.values()}):
    exe = common.build(crate)
    print(("built " if exe else "FAILED ") + crate, flush=True)
