"""Run the check of one property: python3-vt check.py <ID> [--thorough]."""

import importlib
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

from sa.report import main  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    m = importlib.import_module(f"rules.{pid.lower()}")
    sys.exit(main(pid, m.run, m.TECHNIQUE, m.RULE, getattr(m, "ASSUMPTIONS", ()), sys.argv[2:]))
