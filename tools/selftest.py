#!/usr/bin/env python3
"""Checks that the tools the framework needs are there. Builds nothing."""
import subprocess, sys
for c in (["cbmc", "--version"], ["goto-cc", "--version"], ["gcc", "--version"], ["pkg-config", "--exists", "glib-2.0", "gobject-2.0"]):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode:
        print("missing:", c[0]); sys.exit(1)
print("ok")
