"""Dev tool: applies each planted bug to /repo, runs the check of its property, undoes it. seeded.py [ID...] [-p Cxx]"""
import json, os, re, subprocess, sys, time
# In a lab (tools/lab.sh) these are copies, so that /repo stays as it is.
R = os.environ.get('LAB_REPO', '/repo')
V = os.environ.get('LAB_VERIF', '/verif')
S = os.environ.get('LAB_SEEDED', '/verif/seeded')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def original(patch):
    """Whether the patch changes a line that the base commit has."""
    base = sh('git -C ' + R + ' rev-list --max-parents=0 HEAD').stdout.split()[-1]
    f, n, ok = None, 0, False
    for l in open(patch):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); continue
        if f is None or l.startswith(('+++', '---', 'diff', 'index')): continue
        if l.startswith('-'):
            b = sh('git -C ' + R + ' blame -s -l -L %d,%d HEAD -- %s' % (n, n, f)).stdout.split()[0].lstrip('^')
            if base.startswith(b[:30]): ok = True
        if l[0] in ' -': n += 1
    return ok
args = sys.argv[1:]
prop = None
if '-p' in args:
    i = args.index('-p'); prop = args[i + 1]; del args[i:i + 2]
for d in args or sorted(os.listdir(S)):
    p = '%s/%s/patch.diff' % (S, d)
    meta = json.load(open('%s/%s/meta.json' % (S, d)))
    if sh('git -C ' + R + ' status --short').stdout.strip(): sys.exit('dirty')
    if sh('git -C ' + R + ' apply ' + p).returncode: print(d, 'does not apply'); continue
    t = time.time()
    q = prop or meta['property']
    try:
        r = sh('VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py --property ' + q, cwd=V)
    finally:
        sh('git -C ' + R + ' checkout -- .')
    head = [l for l in r.stdout.splitlines() if 'calls differ' in l]
    print('%-28s %s rc=%d %3.0fs %s %s %s' % (d, q, r.returncode, time.time() - t, 'original' if original(p) else 'NOT ORIGINAL', (head or [''])[0][:110], r.stderr[-200:] if r.returncode == 2 else ''), flush=True)
