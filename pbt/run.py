"""Entry point: builds /repo's tree, then runs one property's check."""

import importlib
import os
import sys
import traceback
import warnings
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))

import build  # noqa: E402


def main() -> int:
    prop = sys.argv[1]
    warnings.simplefilter("ignore")
    try:
        pkg = build.build()
    except build.BuildError as exc:
        print(exc, file=sys.stderr)
        return 2
    sys.path.insert(0, str(pkg))
    import pyvrp

    if not pyvrp.__file__.startswith(str(pkg)):
        print(f"wrong pyvrp: {pyvrp.__file__}", file=sys.stderr)
        return 2

    import engine

    try:
        mod = importlib.import_module(f"props.{prop.lower()}")
    except ImportError:
        traceback.print_exc()
        return 2
    return engine.main(
        prop,
        mod.SUBS,
        mod.RULE,
        getattr(mod, "ASSUMPTIONS", ()),
        sys.argv[2:],
    )


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
