#!/usr/bin/env python3
"""Nothing to prebuild: checks compile from /repo's working tree. Verifies that the tools they need are present."""
import shutil, subprocess, sys
bad = [t for t in ("g++", "clang++") if not shutil.which(t)]
if bad:
    print("missing tools:", bad); sys.exit(1)
print(subprocess.run(["g++", "--version"], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0])
