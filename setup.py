"""Builds the harness (with and without the serde feature), and looks at the specification once."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'driver'))
import core  # noqa: E402

core.build(True)
core.build(False)
for m in ('NrbfMC', 'NrbfTrace', 'NrbfSession', 'NrbfEffort'):
    r = subprocess.run(['java', '-cp', core.JAR + ':' + core.community(), 'tla2sany.SANY', os.path.join(core.SPEC, m + '.tla')], cwd=core.SPEC, capture_output=True, text=True)
    if r.returncode != 0:
        sys.exit(r.stdout + r.stderr)
