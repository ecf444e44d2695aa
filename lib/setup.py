"""Verifies that the tools the checks need are present (nothing has to be built in advance)."""
import os
import subprocess
import sys
for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar",
          "/opt/venv/bin/python", "/opt/vp/env.sh"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
print("ok")
