#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs. This only verifies that the tools are there."""
import shutil, sys, os
missing = [t for t in ("gcc", "ar", "java") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    missing.append("tla2tools.jar")
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
