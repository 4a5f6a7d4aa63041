#!/usr/bin/env python3
"""Usage: mutate.py OUT FILE CHECK... [--skip N --step K]
Tries every small change of /repo/FILE: those that build and pass the tests
are given to the checks in turn, until one reports a violation. Appends a JSON
line per change to OUT. Nothing here is used by a check."""
import json, os, re, subprocess, sys, shutil, tempfile, time
out, file, checks = sys.argv[1], sys.argv[2], [a for a in sys.argv[3:] if not a.startswith('--')]
opt = dict(a[2:].split('=') for a in sys.argv[3:] if a.startswith('--'))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', HV_FIRST='1')
d = tempfile.mkdtemp(prefix='mutate.', dir='/tmp')
try:
    repo = d + '/repo'
    shutil.copytree('/repo', repo, symlinks=True)
    env['VERIF_REPO'] = repo; env['VERIF_EVIDENCE'] = d + '/ev'
    os.mkdir(d + '/ev')
    src = open(f'{repo}/{file}', 'rb').read()
    subprocess.run(f'cd {V}/tools/mutate && go build -o {d}/mutate main.go', shell=True, check=True)
    muts = [json.loads(l) for l in subprocess.run([d + '/mutate', f'{repo}/{file}'], capture_output=True, text=True, check=True).stdout.splitlines()]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r['file'], r['n']))
    step, skip = int(opt.get('step', 1)), int(opt.get('skip', 0))
    for n, m in enumerate(muts):
        if n % step != skip or (file, n) in done: continue
        if opt.get('func') and m['Desc'].split()[0] not in opt['func'].split(','): continue
        kind = m['Desc'].split(':')[0].split()[-1]
        if kind == 'swap' and not (file in ('p2p/pool.go', 'p2p/peer.go', 'p2p/sync.go') and re.search(r'ock\(|lose\(|atomic|<-|Status|\bgo |Done\(|Add\(|delete\(|Wait|Ban|Start|Send|WriteMessage', m['Repl'])): continue
        if kind == 'literal' and m['Repl'].endswith('-1)') and n % 3: continue
        open(f'{repo}/{file}', 'wb').write(src[:m['Start']] + m['Repl'].encode() + src[m['End']:])
        r = {'file': file, 'n': n, 'line': m['Line'], 'desc': m['Desc']}
        t0 = time.time()
        def sh(c, t, **k):
            p = subprocess.Popen(c, shell=True, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
            try:
                o, _ = p.communicate(timeout=t); return p.returncode, o
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.communicate(); return -1, ''
        rc, o = sh('go build ./...', 120)
        if rc: r['res'] = 'nobuild'
        else:
            rc, o = sh('go test -vet=off -count=1 -timeout 60s ./...', 120)
            if rc: r['res'] = 'tests'
            else:
                r['res'] = 'SURVIVED'
                for c in checks:
                    rc, o = sh(f'{V}/check {c}', 900, env=env)
                    if rc == 1: r['res'] = 'caught ' + c; r['how'] = ([l for l in o.splitlines() if l.startswith('  ')] or [''])[0][:200]; break
                    if rc != 0: r['res'] = f'rc {rc} {c}'; r['how'] = o[-300:]; break
        r['t'] = round(time.time() - t0, 1)
        open(out, 'a').write(json.dumps(r) + '\n')
finally:
    shutil.rmtree(d)
