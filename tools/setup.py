"""Nothing is built: checks that the tools the framework needs are there."""
import subprocess, sys
for cmd in (['/usr/local/bin/python3-vt', '-c', 'import z3'], ['/opt/venv/bin/python', '-c', 'import numpy, xarray, pint'], ['cvc5', '--version']):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        print(cmd, p.stderr)
        sys.exit(1)
print('ok')
