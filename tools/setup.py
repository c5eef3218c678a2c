"""Nothing has to be built: check that the tools are there."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in sorted(os.listdir(os.path.join(HERE, "spec"))):
    if m.endswith(".tla"):
        p = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", m],
                           cwd=os.path.join(HERE, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            print(p.stdout.decode())
            sys.exit("cannot parse " + m)
print("ok")
