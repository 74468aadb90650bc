"""mkbug.py <id> <property> <file> : reads JSON {edits:[[old,new],...], needs, what, demo} from stdin and writes seeded/<id>/ (patch against /repo HEAD)."""
import sys, json, os, subprocess, tempfile, shutil
def make(id_, prop, edits, needs, what, demo):
    d = '/verif/seeded/%s' % id_
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='/tmp/mkbug')
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for f, old, new in edits:
        p = t + '/r/' + f
        s = open(p).read()
        assert s.count(old) == 1, (id_, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
