#!/usr/bin/env python3
"""setup_cmd: builds the harnesses of all checks, so that a check only rebuilds what a change touches."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

missing = [t for t in ('/usr/bin/clang++', 'ninja', 'python3', 'j2') if not shutil.which(t)]
if missing:
    print('missing: %s' % missing)
    sys.exit(1)
for cid, spec in CHECKS.items():
    try:
        for part in spec['parts']:
            b = part['build']
            vbuild.build(b['name'], b['srcs'], b.get('flavor', 'asan'), b.get('group', 'all'), b.get('shim', True),
                         b.get('libs', ''), b.get('flags', ''))
        if spec.get('templates'):
            vbuild.templates_dir()
    except RuntimeError as e:      # the check itself will say so
        print('%s: %s' % (cid, e))
