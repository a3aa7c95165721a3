#!/usr/bin/env python3
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import buildir, natrep
os.makedirs(V + '/.work', exist_ok=True)
subprocess.check_call(['cargo', 'build', '--release', '--offline', '-q'], cwd=V + '/engine')
ok = buildir.build() is not None
ok = natrep.build() and ok
sys.exit(0 if ok else 1)
