#!/usr/bin/env python3
"""Makes planted bugs: seed.py SPEC.py [id ...]. SPEC defines SEEDS: list of dicts
 id, property, needs, what, edits [(file, old, new)], demo (C++ text), src [files under src], files {name: text}, flags.
Each is kept only if it builds, passes the stable tests and its demo separates the trees."""
import sys, os, subprocess, json, shutil, runpy, tempfile
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property holds for the inputs tried; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 %s -I"$D" -Isrc -Isrc/port "$D/demo.cpp" %s -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 120 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    spec = runpy.run_path(sys.argv[1]); want = sys.argv[2:]
    for s in spec['SEEDS']:
        if want and s['id'] not in want: continue
        d = tempfile.mkdtemp(prefix='seed-'); w = d + '/repo'
        sh(f'cp -a /repo {w}')
        assert not sh('git status --porcelain', cwd=w).stdout
        for f, a, b in s['edits']:
            t = open(f'{w}/{f}').read()
            assert t.count(a) == 1, (s['id'], f, a, t.count(a))
            open(f'{w}/{f}', 'w').write(t.replace(a, b))
        patch = sh('git diff', cwd=w).stdout
        o = f'{OUT}/{s["id"]}'
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(patch)
        open(o + '/demo.cpp', 'w').write(s['demo'])
        for n, t in s.get('files', {}).items():
            os.makedirs(os.path.dirname(f'{o}/{n}'), exist_ok=True)
            open(f'{o}/{n}', 'w').write(t)
        open(o + '/demo.sh', 'w').write(DEMO % (s.get('flags', ''), ' '.join('src/' + x for x in s.get('src', []))))
        os.chmod(o + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(o + '/meta.json', 'w'), indent=1)
        ok = []
        # the tests run from /repo paths: use the real tree, restored straight afterwards
        r0 = sh(f'bash {o}/demo.sh', cwd='/repo')
        ok.append(r0.returncode == 0)
        r1 = sh(f'bash {o}/demo.sh', cwd=w)
        ok.append(r1.returncode not in (0, 3))
        if '--notest' not in os.environ.get('SEED', ''):
            try:
                a = sh(f'git -C /repo apply {o}/patch.diff')
                t = sh('bash /opt/vp/test.sh /tmp/seed-out.json')
                res = json.load(open('/tmp/seed-out.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                names = base.get('passed') or base.get('tests') or base.get('stable') or base
                ok.append(a.returncode == 0 and res['failed'] in (0, []) and (res['passed'] if isinstance(res['passed'], int) else len(res['passed'])) >= 19)
            finally:
                sh('git -C /repo checkout -- .')
        print(s['id'], s['property'], 'OK' if all(ok) else f'BAD {ok}')
        if not all(ok):
            print('   base:', r0.stdout[-600:], '\n   mutant:', r1.returncode, r1.stdout[-400:])
            if len(ok) > 2 and not ok[2]: print(t.stdout[-1500:], res)
        shutil.rmtree(d)
if __name__ == '__main__':
    main()
