#!/usr/bin/env python3
"""Nothing is compiled: check that the interpreters, z3 and the repository can be used."""
import subprocess
import sys

import z3

print("z3", z3.get_version_string(), "python", sys.version.split()[0])
out = subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, '/repo'); import httplint; print(httplint.__file__)"],
                     capture_output=True, text=True)
print(out.stdout, out.stderr)
sys.exit(out.returncode)
