#!/usr/bin/env python3
"""plant.py SPEC.py...: turns a specification of a planted bug (ID, PROP, EDITS, MAIN, NEEDS, BREAKS) into
/verif/seeded/<id> after confirming it in a scratch copy of the repository, /tmp/pr."""
import sys, os, subprocess, json, shutil, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/pr'
KIT = os.path.join(ROOT, 'tools/demo')

def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout

def plant(path):
    spec = {}
    exec(open(path).read(), spec)
    id = spec['ID']
    if not os.path.isdir(SCRATCH):
        shutil.copytree('/repo', SCRATCH, symlinks=True)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', SCRATCH)
    d = os.path.join(ROOT, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ('Cargo.toml.in', 'Cargo.lock', 'common.rs', 'demo.sh'):
        shutil.copy(os.path.join(KIT, f), d)
    open(os.path.join(d, 'main.rs'), 'w').write('mod common;\nuse common::*;\n' + spec['MAIN'])
    if 'DEMO' in spec:
        open(os.path.join(d, 'demo.sh'), 'w').write(spec['DEMO'])
    json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    problems = []
    rc, out = sh(f'bash {d}/demo.sh', SCRATCH)
    if rc != 0:
        problems.append(f'demo fails unpatched ({rc}): ' + out[-3000:])
    for f, old, new in spec['EDITS']:
        p = os.path.join(SCRATCH, f)
        s = open(p).read()
        if s.count(old) != 1:
            problems.append(f'{s.count(old)} matches of {old!r}')
            continue
        open(p, 'w').write(s.replace(old, new))
    rc, out = sh('git diff', SCRATCH)
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    test = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {SCRATCH}').replace('/opt/vp/test.log', '/tmp/pr-test.log')
    open('/tmp/pr-test.sh', 'w').write(test)
    rc, out = sh('bash /tmp/pr-test.sh /tmp/pr-test.json; grep "^test result" /tmp/pr-test.log', SCRATCH)
    if '13 passed; 0 failed' not in out:
        problems.append('tests: ' + out[-3000:])
    rc, out = sh('cargo check --offline --locked 2>&1 && cargo check --offline --locked --no-default-features 2>&1', SCRATCH)
    if rc != 0:
        problems.append('features: ' + out[-3000:])
    rc, out = sh(f'bash {d}/demo.sh', SCRATCH)
    if rc in (0, 3):
        problems.append(f'demo with patch gives {rc}: ' + out[-2500:])
    else:
        print(id, 'demo:', rc, out.strip().splitlines()[-1][:150])
    sh('git checkout -q -- .', SCRATCH)
    if problems:
        shutil.rmtree(d)
    print(id, 'PLANTED' if not problems else '\n'.join(problems))

for p in sys.argv[1:]:
    plant(p)
