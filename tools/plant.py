#!/usr/bin/env python3
"""Plants a bug: python3 tools/plant.py SPEC.py

SPEC.py defines id, prop, needs, breaks, edits = [(file, old, new)], main (Rust program: exits 0 iff
the property holds for what it shows). The edit is made in a scratch copy of /repo's HEAD, which is
built and tested there; the demonstration is run against /repo and against the copy. Only if all
that is as it must be, the bug is kept in seeded/<id>/. Development tool; no check uses it."""
import os, shutil, subprocess, sys, json, runpy
spec = runpy.run_path(sys.argv[1])
V = '/verif/seeded/' + spec['id']
W = '/tmp/plant/wt'
env = dict(os.environ, CARGO_NET_OFFLINE='true')
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs('/tmp/plant', exist_ok=True)
if not os.path.isdir(W):
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
subprocess.check_call(['git', '-C', W, 'fetch', '-q', 'origin'])
head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '-f', head])
subprocess.check_call(['git', '-C', W, 'clean', '-qfd', '-e', 'target'])
fixed = set()
for f, old, new in spec['edits']:
    p = os.path.join(W, f)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit(f'{f}: {s.count(old)} occurrences of {old!r}')
    open(p, 'w').write(s.replace(old, new))
for f in {e[0] for e in spec['edits']}:
    mine = {l.split(')',1)[1] for l in subprocess.check_output(['git','-C','/repo','blame','-s','8896a64..HEAD',f],text=True).splitlines() if not l.startswith('^')}
    d = subprocess.check_output(['git','-C',W,'diff','-U0',f],text=True)
    hit = [l for l in d.splitlines() if l.startswith('-') and not l.startswith('---') and ' '+l[1:] in mine and l[1:].strip() not in ('','}','{','};',')','),')]
    if hit: sys.exit('changes lines of fix commits: %r' % hit)
diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
tenv = dict(env, CARGO_TARGET_DIR='/tmp/plant/target')
r = run(['cargo', 'test', '--workspace', '--offline', '--quiet'], W, env=tenv)
if r.returncode:
    print([l for l in r.stdout.splitlines() if 'FAILED' in l or l.startswith('error')][:8]); sys.exit('the tests fail with the change (or it does not build)')
n = sum(int(l.split()[3]) for l in r.stdout.splitlines() if l.startswith('test result: ok.'))
print('tests passed:', n)
os.makedirs(V, exist_ok=True)
open(V + '/patch.diff', 'w').write(diff)
open(V + '/main.rs', 'w').write(spec['main'])
json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(V + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/tools/demo.sh', V + '/demo.sh')
os.chmod(V + '/demo.sh', 0o755)
ok = True
a = run(['bash', V + '/demo.sh'], '/repo', env=env)
print('unchanged:', a.returncode, a.stdout[-300:] if a.returncode else '')
b = run(['bash', V + '/demo.sh'], W, env=env)
print('planted:', b.returncode, b.stdout[:200])
if a.returncode != 0 or b.returncode == 0:
    shutil.rmtree(V); sys.exit('NOT KEPT')
print('kept', spec['id'])
