"""plant.py ID...: build /tmp/seeded_new/<id> from /tmp/plant/*.py definitions, check demo clean/patched + stable tests"""
import sys, os, shutil, subprocess, glob, json, re, textwrap
P = {}
def bug(id, prop, needs, breaks, demo, *edits): P[id] = (prop, needs, breaks, demo, edits)
PRE = '''import atexit, os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
os.environ["TQDM_DISABLE"] = "1"
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)
import torch
torch.set_num_threads(1)

def check(ok, what):
    if not ok:
        print("WRONG:", what, flush=True)
        sys.stdout.flush(); shutil.rmtree(TMP, True)
        os._exit(1)

'''
for f in sorted(glob.glob('/tmp/plant/*.py')):
    exec(open(f).read())
ids = [i for i in P if any(re.fullmatch(a, i) for a in sys.argv[1:])]
TESTS = '-t' in sys.argv
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for i in ids:
    prop, needs, breaks, demo, edits = P[i]
    d = f'/tmp/seeded_new/{i}'; os.makedirs(d, exist_ok=True)
    open(f'{d}/demo.py', 'w').write(PRE + textwrap.dedent(demo).lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    w = f'/tmp/pw/{i}'; shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/pw', exist_ok=True)
    sh(f'git -C /repo worktree prune; cp -a /repo/. {w}')
    for file, old, new in edits:
        p = f'{w}/{file}'; s = open(p).read()
        assert s.count(old) == 1, (i, file, s.count(old), old)
        s = s.replace(old, new); compile(s, p, 'exec'); open(p, 'w').write(s)
    diff = sh(f'git -C {w} diff -- dattri').stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    # original lines?
    bl = ''
    for file, old, new in edits:
        r = sh(f'git -C {w} blame -s HEAD -- {file}').stdout.splitlines()
        # removed lines of diff
    import io
    cur = None; own = 0; rem = 0
    blame = {}
    for l in diff.splitlines():
        m = re.match(r'--- a/(.*)', l)
        if m:
            cur = m[1]; blame[cur] = sh(f'git -C /repo blame -s 230b03c..HEAD -- {cur}').stdout.splitlines()
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m[1]); continue
        if cur and l.startswith('-') and not l.startswith('---'):
            rem += 1; own += not blame[cur][n-1].startswith('^230b'); n += 1
        elif cur and l.startswith(' '): n += 1
    r0 = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo'); r1 = sh(f'timeout 300 bash {d}/demo.sh', cwd=w)
    print(f'{i} {prop} removed={rem} own={own} clean={r0.returncode} patched={r1.returncode} {r1.stdout.strip()[-200:]!r}', (r0.stdout + r0.stderr)[-1500:] if r0.returncode else '', (r1.stderr[-300:] if not r1.stdout else ''), flush=True)
    if TESTS:
        sh(f"sed 's#/repo#{w}#g' /opt/vp/test.sh > /tmp/pw/test-{i}.sh")
        t = sh(f'bash /tmp/pw/test-{i}.sh /tmp/pw/{i}.json', cwd=w)
        c = sh(f'python3 /tmp/cmp.py /tmp/pw/{i}.json'); print('   tests', c.stdout.strip(), c.stderr[-200:], flush=True)
    shutil.rmtree(w)
