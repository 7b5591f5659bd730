"""Nothing has to be built ahead of the checks: this only makes sure that the
tools are there and that the specification parses."""
import os
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
for t in ('java', 'cargo', 'rustc'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
for m in sorted(os.listdir(ROOT + '/spec')):
    if m.endswith('.tla'):
        p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', m], cwd=ROOT + '/spec', capture_output=True, text=True)
        if p.returncode:
            sys.exit(p.stdout + p.stderr)
print('ok')
