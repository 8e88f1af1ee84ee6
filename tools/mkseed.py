#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a seed description and confirms it in a scratch copy of /repo.

usage: mkseed.py SEED.py...     each file defines: id, prop, needs, breaks, pkg,
       edits = [(file, old, new)], demo = Go test source (func TestDemo)
"""
import json, os, re, subprocess, sys, shutil, tempfile, fcntl

BASE = '9c4e297'
DEMO = r'''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the tree in the current directory.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}\n' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/o.json"
go test%(race)s -vet=off -overlay "$tmp/o.json" -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd=None, timeout=400):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def testenv(cwd):
    return sh(". /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 $(go list -e ./... | grep -v /example/)", cwd)

def main():
    ok = True
    for path in sys.argv[1:]:
        d = {}
        exec(open(path).read(), d)
        out = '/verif/seeded/' + d['id']
        wt = tempfile.mkdtemp(prefix='seed-', dir='/tmp') + '/repo'
        try:
            sh('cp -a /repo ' + wt); sh('git checkout -q -- . && git clean -fdq', wt)
            for f, old, new in d['edits']:
                s = open(wt + '/' + f).read()
                n = s.count(old)
                if n != 1 and not d.get('all'):
                    raise Exception('%s: %d matches of %r' % (f, n, old))
                if n == 0: raise Exception('no match')
                open(wt + '/' + f, 'w').write(s.replace(old, new))
            patch = sh('git diff', wt).stdout
            # removed lines must be original
            orig = 0
            for f in set(e[0] for e in d['edits']):
                blame = sh('git blame -s HEAD -- ' + f, wt).stdout.split('\n')
                baserev = set(sh('git rev-list ' + BASE, wt).stdout.split())
                removed = set()
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- ' + f, wt).stdout, re.M):
                    c = int(m.group(2) or 1)
                    removed |= set(range(int(m.group(1)), int(m.group(1)) + c))
                for i in removed:
                    h = blame[i-1].split()[0].lstrip('^')
                    if any(r.startswith(h) for r in baserev): orig += 1
            if orig == 0: raise Exception('no original line changed')
            if os.path.exists(out): shutil.rmtree(out)
            os.makedirs(out)
            open(out + '/demo_test.go', 'w').write(d['demo'])
            open(out + '/demo.sh', 'w').write(DEMO % dict(d, race=' -race' if d.get('race') else ''))
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/patch.diff', 'w').write(patch)
            json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            r = testenv(wt)
            if r.returncode: raise Exception('tests fail with patch:\n' + r.stdout)
            rp = sh('bash %s/demo.sh' % out, wt)
            sh('git checkout -q -- .', wt)
            rc = sh('bash %s/demo.sh' % out, wt)
            if rc.returncode: raise Exception('demo fails unpatched:\n' + rc.stdout)
            if rp.returncode == 0: raise Exception('demo passes patched:\n' + rp.stdout)
            if 'build failed' in rp.stdout: raise Exception('demo does not build:\n' + rp.stdout)
            print(d['id'], 'OK', ' | '.join(l.strip() for l in rp.stdout.split('\n') if 'demo_test.go' in l or 'panic:' in l)[:200], flush=True)
        except Exception as e:
            ok = False
            print(d['id'], 'FAILED:', str(e)[:1800], flush=True)
            if os.path.exists(out): shutil.rmtree(out)
        finally:
            shutil.rmtree(os.path.dirname(wt))
    sys.exit(0 if ok else 1)
main()
