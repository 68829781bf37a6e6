"""mkseed.py ID PROPERTY FILE: plant one bug.  stdin: JSON {old, new, needs, breaks, demo} (demo: python source).
Makes /verif/seeded/ID, verifies it: applies to HEAD, tests pass, demo passes unchanged and fails patched, and runs the check."""
import json, os, subprocess as sp, sys, shutil
ID, prop, path = sys.argv[1:4]
d = json.load(sys.stdin)
out = os.environ.get('SEEDOUT', '/verif/seeded') + '/' + ID; os.makedirs(out, exist_ok=True)
W = '/tmp/seedw%d' % os.getpid(); shutil.rmtree(W, ignore_errors=True)
sp.check_call(['cp', '-a', '/repo', W])
edits = d['edits'] if 'edits' in d else [[path, d['old'], d['new']]]
for f, a, b in edits:
    s = open(W + '/' + f).read(); assert s.count(a) == 1, (f, s.count(a)); open(W + '/' + f, 'w').write(s.replace(a, b))
diff = sp.check_output(['git', '-C', W, 'diff'], text=True); open(out + '/patch.diff', 'w').write(diff)
open(out + '/demo.py', 'w').write('import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n' + d['demo'])
open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'); os.chmod(out + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
ok = sp.call(['bash', out + '/demo.sh'], cwd='/repo'); bad = sp.call(['bash', out + '/demo.sh'], cwd=W, stderr=sp.DEVNULL)
print('demo unchanged', ok, 'patched', bad)
sp.check_call(['git', '-C', '/repo', 'apply', '--check', out + '/patch.diff'])
t = open('/opt/vp/test.sh').read().replace('/repo', W); open(W + '.test.sh', 'w').write(t)
sp.call(['bash', W + '.test.sh', W + '.json'], stdout=sp.DEVNULL, stderr=sp.DEVNULL)
r = json.load(open(W + '.json')); print('tests', len(r['passed']), len(r['failed']), r['failed'][:3])
for p in [prop] + d.get('also', []):
    c = sp.run(['python3-vt', 'check.py', p], cwd='/verif', stdout=sp.PIPE, stderr=sp.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=W)); print(p, 'exit', c.returncode); print('\n'.join(l[:250] for l in c.stdout.splitlines()[-6:]))
shutil.rmtree(W, ignore_errors=True); os.remove(W + '.json'); os.remove(W + '.test.sh')
assert ok == 0 and bad != 0 and len(r['passed']) == 46, 'NOT VALID'
