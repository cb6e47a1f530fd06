#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from SPECS: applies the edits to a scratch copy of /repo, checks that the tests pass and that the
demonstration fails with the change and passes without it. Usage: mk.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from specs import SPECS  # noqa


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    want = sys.argv[1:]
    for id_, (prop, edits, needs, breaks, demo) in SPECS.items():
        if want and id_ not in want:
            continue
        tmp = tempfile.mkdtemp(prefix='mkseed_')
        out = os.path.join(VER, 'seeded', id_)
        os.makedirs(out, exist_ok=True)
        try:
            rp = os.path.join(tmp, 'repo')
            sh(['git', 'clone', '-q', '/repo', rp])
            with open(os.path.join(out, 'demo.py'), 'w') as f:
                f.write('from seedlib import *\n' + demo.lstrip('\n'))
            shutil.copy(os.path.join(HERE, 'seedlib.py'), out)
            with open(os.path.join(out, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\n# cwd: the repository. Exit 0: behaves as stated, otherwise not.\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(dirname "$0"):$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            a = sh(['bash', out + '/demo.sh'], cwd=rp)
            for fn, old, new in edits:
                p = os.path.join(rp, 'esp_idf_size', fn)
                s = open(p).read()
                assert s.count(old) == 1, (id_, fn, old, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            open(os.path.join(out, 'patch.diff'), 'w').write(sh(['git', 'diff'], cwd=rp).stdout)
            mine = 0
            for fn, old, new in edits:
                bl = sh(['git', 'blame', '-s', 'HEAD', '--', 'esp_idf_size/' + fn], cwd='/repo').stdout.splitlines()
                d = sh(['git', 'diff', '-U0', '--', 'esp_idf_size/' + fn], cwd=rp).stdout
                import re
                for a_, n_ in re.findall(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                    n_ = int(n_ or 1)
                    mine += sum(not bl[i - 1].startswith('^') for i in range(int(a_), int(a_) + max(n_, 1)))
            b = sh(['bash', out + '/demo.sh'], cwd=rp)
            t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=test/test_formats.py', '--ignore=test/test_memmap.py', '--ignore=test/test_parser.py', 'test'], cwd=rp, env=dict(os.environ, PYTHONPATH=rp))
            ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
            print('ok ' if ok else 'BAD', id_, prop, 'clean', a.returncode, 'bug', b.returncode, 'tests', t.returncode, 'OWN LINES' if mine else '', (b.stderr.strip().splitlines() or [''])[-1][:140])
            if a.returncode:
                print(a.stderr[-1500:])
        finally:
            shutil.rmtree(tmp)
main()
