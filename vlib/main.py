"""Entry point: ``./check <ID>``.  See DESIGN.md, section "Framework"."""
from __future__ import annotations

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

# the tree under test first, the tool venv last: numpy, scipy, pymbolic, pytools
# are those modepy is built against; only hypothesis/mpmath come from TOOLS
sys.path.insert(0, REPO)
sys.path.append(TOOLS)

from vlib.core import main  # noqa: E402


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
