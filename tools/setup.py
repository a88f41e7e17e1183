"""Nothing to build: checks read /repo on every run.  Verifies the tools are there."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
