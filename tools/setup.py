#!/usr/bin/env python3
"""Nothing is built ahead of the checks (each builds from /repo's tree); this makes sure the tools are there."""
import glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import vp
for t in ("java", "clang++", "python3-config"):
    if not shutil.which(t):
        sys.exit("missing " + t)
if not os.path.exists(vp.JAR):
    sys.exit("missing " + vp.JAR)
import tempfile
d = tempfile.mkdtemp()
try:
    for f in glob.glob(os.path.join(V, "spec", "*.tla")):
        shutil.copy(f, d)
    for f in sorted(glob.glob(os.path.join(d, "*.tla"))):
        r = subprocess.run(["java", "-cp", vp.JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", f], cwd=d, capture_output=True, text=True)
        if r.returncode != 0:
            sys.exit("the specification does not parse: %s\n%s" % (f, r.stdout[-2000:]))
finally:
    shutil.rmtree(d)
print("ready")
