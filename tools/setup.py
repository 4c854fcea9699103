#!/usr/bin/env python3
"""Nothing needs building ahead: every check compiles what it needs from
/repo's working tree.  This only verifies that the tools are there and that
the specifications parse."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "cargo", "rustup"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".tla"):
        p = subprocess.run(["java", "-cp", J, "tla2sany.SANY", f], cwd=os.path.join(V, "spec"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.exit(p.stdout)
print("ok")
