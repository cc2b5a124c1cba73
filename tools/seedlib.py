#!/usr/bin/env python3
"""Creates and validates planted bugs.
seedlib.seed(id, prop, edits=[(file, old, new)], demo=go test source, pkg=package dir, needs=, breaks=) writes /verif/seeded/<id>.
seedlib.validate(ids) runs, in scratch copies of /repo under /tmp: build, demo with and without, the stable tests.
"""
import json, os, shutil, subprocess, sys, tempfile, difflib
ROOT = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
cd "$PWD" && TMPDIR=$t timeout 250 go test %(flags)s-overlay "$t/overlay.json" -vet=off -count=1 -run '^TestDemo' "./%(pkg)s"
'''

def seed(id, prop, edits, demo, pkg='trie', needs='', breaks='', flags=''):
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open('/repo/' + f).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s of %r' % (id, s.count(old), f, old))
        files[f] = s.replace(old, new)
    for f, s in files.items():
        a = open('/repo/' + f).read().splitlines(True)
        b = s.splitlines(True)
        out += ''.join(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo_test.go', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg, flags=flags))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)

def run(cmd, cwd, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

def blame_ok(id):
    """lines the patch removes must be lines of the original commit"""
    bad = []
    cur = None
    ln = 0
    for l in open('%s/%s/patch.diff' % (ROOT, id)):
        if l.startswith('--- a/'):
            cur = l[6:].strip()
        elif l.startswith('@@'):
            ln = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('+'):
            continue
        elif l.startswith('-'):
            rc, o = run('git blame -s -l -L %d,%d HEAD -- %s' % (ln, ln, cur), '/repo')
            c = o.split()[0].lstrip('^')
            rc, _ = run('git merge-base --is-ancestor %s 15c56a7' % c, '/repo')
            if rc != 0:
                bad.append('%s:%d' % (cur, ln))
            ln += 1
        else:
            ln += 1
    return bad

def validate(id, tests=True):
    w = tempfile.mkdtemp(prefix='seedwt.', dir='/tmp')
    r = w + '/repo'
    res = {}
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        run('git checkout -- . && git clean -fdq', r)
        d = '%s/%s' % (ROOT, id)
        bad = blame_ok(id)
        if bad: res['not original'] = bad
        rc, o = run('bash %s/demo.sh' % d, r)
        res['demo unchanged'] = rc
        if rc: res['out0'] = o[-1500:]
        rc, o = run('git apply %s/patch.diff' % d, r)
        if rc: res['apply'] = o
        rc, o = run('. /opt/vp/env.sh; go build ./... && go vet ./trie ./hive_adaptor ./models/...', r)
        if rc: res['build'] = o[-800:]
        rc, o = run('bash %s/demo.sh' % d, r)
        res['demo changed'] = rc
        res['out1'] = o[-400:]
        if tests:
            s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + r).replace('/opt/vp/logs', w + '/logs')
            open(w + '/test.sh', 'w').write(s)
            rc, o = run('bash %s/test.sh %s/out.json' % (w, w), r)
            out = json.load(open(w + '/out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            res['tests'] = compare(base, out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res

def compare(base, out):
    stable = base.get('stable') or base.get('passed') or base.get('tests') or base
    names = list(stable)
    passed = set(out.get('passed', []))
    miss = [n for n in names if n not in passed]
    return 'all %d pass' % len(names) if not miss else 'NOT PASSED %d: %s' % (len(miss), miss[:5])

if __name__ == '__main__':
    tests = '--no-tests' not in sys.argv
    for id in [a for a in sys.argv[1:] if not a.startswith('--')]:
        print(id, json.dumps(validate(id, tests), indent=1), flush=True)
