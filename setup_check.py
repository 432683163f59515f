"""Nothing to compile: checks that the tools are there."""
import os, subprocess, sys
import z3
HERE = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import Crypto, M2Crypto, pyasn1'])
print('z3', z3.get_version_string())
