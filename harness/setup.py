"""Checks that the tools the checks need are there and that every specification module parses."""
import glob
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run(['/opt/venv/bin/python', '-c', 'import pysat, numpy'], check=True)
cp = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
mods = sorted(os.path.basename(p) for p in glob.glob(os.path.join(here, 'spec', '*.tla')))
p = subprocess.run(['java', '-cp', cp, 'tla2sany.SANY', *mods], cwd=os.path.join(here, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = p.stdout.decode()
if p.returncode or '*** Errors' in out or 'Fatal' in out:
    print(out[-3000:])
    sys.exit(1)
print('%d specification modules parsed' % len(mods))
