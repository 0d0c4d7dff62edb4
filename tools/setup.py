#!/usr/bin/env python3
"""Nothing is built ahead: every check compiles /repo's current tree. This only tests the tools."""
import subprocess, sys
for cmd in (["cargo", "kani", "--version"], ["cbmc", "--version"]):
    subprocess.run(cmd, check=True)
