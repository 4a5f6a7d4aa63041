#!/usr/bin/env python3
"""try.py [NAME...] < spec: tries hand-written mutants of /repo.

spec: "@@ NAME CHECK..." then any number of "=== edit FILE", old text, a line
"---", new text. Each is applied to a copy, built, tested with the existing
tests and given to the checks until one reports it.
"""
import sys, re, os, subprocess, tempfile, shutil
spec = sys.stdin.read()
want = sys.argv[1:]
env = dict(os.environ, HV_FIRST='1', VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'), VERIF_SEED='1')
sh = lambda c, d, t=900: subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + c], cwd=d, env=env, capture_output=True, text=True, timeout=t)
for m in re.split(r'^@@ ', spec, flags=re.M)[1:]:
    head, body = m.split('\n', 1)
    name, *checks = head.split()
    if want and name not in want: continue
    d = tempfile.mkdtemp(prefix='/tmp/try.')
    try:
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        r = d + '/repo'
        bad = None
        parts = re.split(r'^=== edit (.*)\n', body, flags=re.M)[1:]
        for f, b in zip(parts[::2], parts[1::2]):
            old, new = re.split(r'^---\n', b, flags=re.M)
            s = open(r + '/' + f.strip()).read()
            if s.count(old) == 0: old, new = old[:-1], new[:-1]
            if s.count(old) != 1:
                bad = '%s: %d times' % (f, s.count(old)); break
            open(r + '/' + f.strip(), 'w').write(s.replace(old, new))
        if bad: print(name, 'SPEC', bad, flush=True); continue
        open('/tmp/try-%s.diff' % name, 'w').write(subprocess.check_output(['git', '-C', r, 'diff']).decode())
        p = sh('go build ./...', r)
        if p.returncode: print(name, 'NOBUILD', p.stderr[:300], flush=True); continue
        p = sh('go test ./... 2>&1 | grep -v "^ok\\|no test files" | head -5', r)
        if p.stdout.strip(): print(name, 'TESTS', p.stdout[:200].replace('\n', ' '), flush=True); continue
        res = []
        for c in checks:
            env['VERIF_REPO'] = r; env['VERIF_EVIDENCE'] = d + '/ev'
            p = sh('/verif/check ' + c, '/verif')
            line = ([l for l in p.stdout.split('\n') if l.startswith('  ')] + [p.stderr[-200:]])[0].strip()[:160]
            res.append('%s:%d' % (c, p.returncode))
            if p.returncode == 1:
                res.append(line); break
            if p.returncode == 2: res.append(line)
        print(name, 'caught' if any(':1' in x[-2:] for x in res) else 'SURVIVED', *res, flush=True)
    finally:
        shutil.rmtree(d)
