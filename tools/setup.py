"""Checks that the toolchain works: compiles the preload library and parses all specifications."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vp import core
core.shim()
d = core._specdir()
for f in sorted(os.listdir(d)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", core.JAR, "tla2sany.SANY", f], cwd=d, capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-2000:])
            sys.exit("specification %s does not parse" % f)
print("ok")
