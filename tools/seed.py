#!/usr/bin/env python3
"""seed.py ID: builds seeded/ID from tools/seeds/ID/ (seed.py-readable spec) and confirms it.

tools/seeds/ID/spec.json  {"property","needs","what_it_breaks","edits":[[file, old, new],...]}
tools/seeds/ID/*_demo.go.txt   the demonstration
"""
import json, os, shutil, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, executable='/bin/bash', **kw)

def one(id):
    spec_dir = f'{root}/tools/seeds/{id}'
    spec = json.load(open(spec_dir + '/spec.json'))
    out = f'{root}/seeded/{id}'
    copy = f'/tmp/seed-{id}'
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['cp', '-a', os.environ.get('SQV_REPO', '/repo'), copy])
    try:
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=copy)
        base = sh('git rev-list --max-parents=0 HEAD', copy).stdout.strip()
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.remove(out + '/' + f)
        for f in os.listdir(spec_dir):
            if f != 'spec.json':
                shutil.copy(spec_dir + '/' + f, out)
        if spec.get('harness', True):
            shutil.copy(root + '/tools/demo/harness_demo.go.txt', out)
        if not os.path.exists(out + '/demo.sh'):
            shutil.copy(root + '/tools/demo/demo.sh', out)
        os.chmod(out + '/demo.sh', 0o755)
        r = sh(f'bash {out}/demo.sh', copy)
        if r.returncode != 0:
            print(id, 'DEMO FAILS ON UNCHANGED TREE\n', r.stdout[-3000:], r.stderr[-2000:]); return False
        for f, old, new in spec['edits']:
            s = open(f'{copy}/{f}').read()
            if s.count(old) != 1:
                print(id, 'edit does not match once', f, s.count(old), repr(old)); return False
            orig = sh(f'git show {base}:{f}', copy).stdout
            if old not in orig:
                print(id, 'WARNING: edited text is not original', repr(old[:60]))
            open(f'{copy}/{f}', 'w').write(s.replace(old, new))
        d = sh('git diff', copy).stdout
        open(out + '/patch.diff', 'w').write(d)
        json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(out + '/meta.json', 'w'), indent=1)
        r = sh('source /opt/vp/env.sh; go build -tags=fts5 ./... && go vet -tags=fts5 ./... >/dev/null 2>&1; go build -tags=fts5 ./...', copy)
        if r.returncode != 0:
            print(id, 'DOES NOT BUILD', r.stderr); return False
        r = sh("source /opt/vp/env.sh; go test -tags=fts5 -vet=off -count=1 -skip '^(TestPostgres|TestMySQL|TestSQLServer)$' ./...", copy)
        if r.returncode != 0:
            print(id, 'TESTS FAIL', r.stdout[-3000:]); return False
        r = sh(f'bash {out}/demo.sh', copy)
        if r.returncode == 0:
            print(id, 'DEMO PASSES WITH THE PATCH', r.stdout[-500:]); return False
        print(id, 'ok;', [l for l in r.stdout.splitlines() if 'zz_' in l or 'FAIL' in l or 'panic' in l][:3])
        return True
    finally:
        shutil.rmtree(copy, ignore_errors=True)

bad = [i for i in sys.argv[1:] if not one(i)]
sys.exit(1 if bad else 0)
