#!/opt/venv/bin/python
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (patch made against /repo's HEAD).
usage: mkseed.py [id...]"""
import sys, os, json, subprocess, tempfile, shutil, glob, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
PRE = open(os.path.join(HERE, 'seeds', 'prelude.txt')).read()

def main():
    want = set(sys.argv[1:])
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds', 's*.py'))):
        for s in runpy.run_path(f)['SEEDS']:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    for sid, s in seeds.items():
        if want and sid not in want: continue
        tmp = tempfile.mkdtemp(prefix='mkseed')
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
            for path, old, new in s['edits']:
                p = os.path.join(tmp, 'r', path)
                t = open(p, newline='').read()
                crlf = '\r\n' in t
                if crlf: t = t.replace('\r\n', '\n')
                assert t.count(old) == 1, (sid, path, t.count(old), old)
                t = t.replace(old, new)
                if crlf: t = t.replace('\n', '\r\n')
                open(p, 'w', newline='').write(t)
            d = subprocess.run(['git', '-C', tmp + '/r', 'diff', '--binary'], stdout=subprocess.PIPE, check=True).stdout
        finally:
            shutil.rmtree(tmp)
        o = os.path.join(OUT, sid)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'wb').write(d)
        open(o + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
            'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(o + '/demo.sh', 0o755)
        open(o + '/demo.py', 'w').write(PRE + '\n' + s['demo'].strip('\n') + '\n')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(o + '/meta.json', 'w'), indent=1)
        print(sid, len(d))
main()
