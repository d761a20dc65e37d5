"""Nothing to build: checks that the interpreter and protoc the checks use exist."""
import os
import subprocess
import sys

for tool in ('/opt/venv/bin/python', '/usr/bin/protoc'):
  if not os.access(tool, os.X_OK):
    sys.exit('missing ' + tool)
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy, dm_env'], check=True)
