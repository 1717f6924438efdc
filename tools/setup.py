#!/usr/bin/env python3
"""Nothing needs to be installed; checks build what they need. This only confirms that the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "java", "javac") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok"); sys.exit(1 if missing else 0)
