"""Replaces the table of planted bugs at the end of DESIGN.md (development only)."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(os.path.dirname(here), 'DESIGN.md')
s = open(p).read()
i = s.index('| bug | needs |')
j = i
lines = s[i:].split('\n')
n = next((k for k, l in enumerate(lines) if not l.startswith('|')), len(lines))
table = subprocess.run([sys.executable, os.path.join(here, 'planted_table.py')], stdout=subprocess.PIPE, text=True).stdout.strip()
open(p, 'w').write(s[:i] + '\n'.join([table] + lines[n:]))
