#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles what it needs from /repo's working tree.
This only verifies that the tools the checks call are present."""
import shutil, sys
missing = [t for t in ("gcc", "python3", "clang-14") if shutil.which(t) is None]
if missing:
    sys.exit("missing: " + ", ".join(missing))
