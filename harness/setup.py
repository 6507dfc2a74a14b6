"""Nothing to build: checks that the pre-installed tools are there."""
import os, subprocess, sys
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/venv/bin/python"):
    if not os.path.exists(f):
        sys.exit("missing " + f)
subprocess.check_call(["java", "-version"])
