#!/usr/bin/env python3
"""newseed.py ID PKG PROPERTY < spec: helper that writes /verif/seeded/ID.

spec: sections separated by lines "=== name": needs, breaks, edit FILE (old,
then a line "---", then new; repeatable), demo.
"""
import sys, os, json, re, subprocess, shutil, tempfile
id, pkg, prop = sys.argv[1:4]
parts = re.split(r'^=== (.*)\n', sys.stdin.read(), flags=re.M)[1:]
d = '/verif/seeded/' + id
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='/tmp/newseed.')
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (tmp, tmp), shell=True)
meta = {'property': prop}
for name, body in zip(parts[::2], parts[1::2]):
    if name == 'needs': meta['needs'] = ' '.join(body.split())
    elif name == 'breaks': meta['what_it_breaks'] = ' '.join(body.split())
    elif name == 'demo': open(d + '/demo_test.go.txt', 'w').write(body)
    else:
        f = tmp + '/' + name.split()[1]
        old, new = re.split(r'^---\n', body, flags=re.M)
        s = open(f).read()
        if s.count(old) == 0: old, new = old[:-1], new[:-1]
        assert s.count(old) == 1, (name, s.count(old), old)
        open(f, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', tmp, 'diff']).decode())
json.dump(meta, open(d + '/meta.json', 'w'), indent=1)
open(d + '/pkg', 'w').write(pkg + '\n')
shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
shutil.rmtree(tmp)
# every changed line must be one of the original repository
base = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True).decode().strip()
cur = None; ours = orig = 0
for line in open(d + '/patch.diff'):
    m = re.match(r'--- a/(.*)', line)
    if m: cur = m.group(1); blame = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', '--root', cur]).decode().split('\n')
    m = re.match(r'@@ -(\d+)', line)
    if m: n = int(m.group(1)); continue
    if line.startswith('-') and not line.startswith('---'):
        if base[:39] in blame[n - 1][:41]: orig += 1
        else: ours += 1; print('NOT ORIGINAL:', line.rstrip())
        n += 1
    elif line.startswith(' '): n += 1
print(id, 'original lines changed:', orig, 'ours:', ours)
