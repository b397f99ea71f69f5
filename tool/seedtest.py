#!/usr/bin/env python3
"""Development aid: confirms planted bugs in scratch copies of /repo (bind-mounted over /repo in a private
mount namespace): the patch applies, builds, passes the stable tests; demo.sh passes without and fails with it.
usage: seedtest.py [--notest] [--checks] ID..."""
import sys, os, subprocess, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NT = '--notest' in sys.argv; CK = '--checks' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
base = json.load(open('/opt/vp/BASELINE.json'))
stable = set(base.get('passed') or base.get('stable') or base)
sys.path.insert(0, V + '/tool')
def ns(copy, cmd, t=900):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)],
                          capture_output=True, text=True, timeout=t)
def run(i):
    d = V + '/seeded/' + i
    c = '/tmp/seed_' + i
    if os.path.exists(c): shutil.rmtree(c)
    subprocess.run(['cp', '-a', '/repo', c], check=True)
    demo = '/tmp/seeddemo_' + i
    if os.path.exists(demo): shutil.rmtree(demo)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    out = []
    try:
        r = ns(c, 'bash %s/demo.sh' % demo)
        out.append('demo-clean=%d' % r.returncode)
        if r.returncode: out.append(r.stdout[-1500:] + r.stderr[-1500:])
        r = subprocess.run(['git', '-C', c, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode: return i, ['PATCH ' + r.stderr]
        r = ns(c, 'bash /opt/vp/build.sh')
        if r.returncode: return i, out + ['BUILD ' + r.stdout[-2500:] + r.stderr[-500:]]
        r = ns(c, 'bash %s/demo.sh' % demo)
        out.append('demo-bug=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:].replace('\n', ' | ')))
        if not NT:
            o = '/tmp/seed_%s.json' % i
            r = ns(c, 'bash /opt/vp/test.sh ' + o)
            p = set(json.load(open(o))['passed'])
            miss = stable - p
            out.append('tests: %d passed, %d stable missing %s' % (len(p), len(miss), sorted(miss)[:5]))
            os.remove(o)
        if CK:
            import re
            src = open(V + '/tool/mkmanifest.py').read()
            mods = dict(re.findall(r"'(P\d\d)': \('(\w+)'", src))
            for pid, m in mods.items():
                if not CKALL and pid != json.load(open(d + '/meta.json'))['property']: continue
                r = subprocess.run(['python3', V + '/checks/%s.py' % m], capture_output=True, text=True, env=dict(os.environ, Z5_REPO=c))
                if r.returncode or pid == json.load(open(d + '/meta.json'))['property']:
                    l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'violat' in x]
                    out.append('check %s rc=%d %s' % (pid, r.returncode, (l[:1] or [r.stderr[-300:]])[0][:300]))
    finally:
        shutil.rmtree(c, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
    return i, out
CKALL = '--all' in sys.argv
with ThreadPoolExecutor(3) as ex:
    for i, o in ex.map(run, ids):
        print(i); [print('   ', x) for x in o]; sys.stdout.flush()
