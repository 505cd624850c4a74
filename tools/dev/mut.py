"""usage: mut.py [-j] ID...   run mutants (from /tmp/mut/*.py) against their checks"""
import sys, os, shutil, subprocess, glob, time, re
M = {}
def mut(id, props, *edits): M[id] = (props.split(), edits)
for f in sorted(glob.glob('/tmp/mut/*.py')):
    exec(open(f).read())
def tree(id):
    dst = f'/tmp/mt/{id}'
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    subprocess.run(f'cp -a /repo/. {dst}/', shell=True, check=True)
    for file, old, new in M[id][1]:
        p = f'{dst}/{file}'
        s = open(p).read()
        assert s.count(old) == 1, (id, file, s.count(old), old)
        s = s.replace(old, new)
        compile(s, p, 'exec')
        open(p, 'w').write(s)
    return dst
def main():
    ids = [i for i in M if any(re.fullmatch(a, i) for a in sys.argv[1:])]
    for i in ids:
        dst = tree(i)
        for p in M[i][0]:
            t = time.time()
            r = subprocess.run(['timeout', '900', './check', p, '--tier', 'quick'], cwd='/verif',
                env=dict(os.environ, SIM_REPO=dst, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            w = [l for l in r.stdout.splitlines() if 'violation in run' in l][:1]
            print(f'{i:28s} {p} rc={r.returncode} {"CAUGHT" if v and r.returncode==1 else "MISSED"} {time.time()-t:.0f}s', (v+w)[:2] , (r.stdout+r.stderr)[-300:] if r.returncode not in (0,1) else '', flush=True)
        shutil.rmtree(dst)
if __name__ == '__main__': main()
