#!/usr/bin/env python3
"""Nothing to build ahead of time (every check builds /repo's current sources itself); verifies that the tools are there."""
import subprocess, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
for c in (['g++', '--version'], ['gcc', '--version']):
    if subprocess.run(c, capture_output=True).returncode: sys.exit('missing tool: ' + c[0])
print('ok')
