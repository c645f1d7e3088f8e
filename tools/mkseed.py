"""mk(id, property, edits, demo, needs, breaks): write seeded/<id>/ from edits [(file, old, new)]."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import copy
import os
import random
import sys
import tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node
from concept_formation.trestle import TrestleTree
from concept_formation.dummy import DummyTree
'''


def mk(id, prop, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix='mk')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    for f, old, new in edits:
        p = os.path.join(r, 'concept_formation', f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w', newline='').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=r)
    shutil.rmtree(d)
    o = os.path.join(HERE, 'seeded', id)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(o, 'demo.py'), 'w').write(PRE + demo)
    open(os.path.join(o, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
