#!/usr/bin/env python3
"""Development tool: confirms planted bugs (builds, stable tests pass, demo
fails with the patch and passes without) and which check catches them, all in a
scratch copy.   seed.py verify ID... | catch ID... | demo-clean ID..."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get('SEED_SCRATCH', '/tmp/sr')
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)

def prepare():
    if not os.path.isdir(SCR):
        sh('cp -a /repo %s' % SCR)
        for f in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + f).read().replace('/opt/vp/build.sh', SCR + '/_b.sh').replace('/repo', SCR)
            open(SCR + ('/_b.sh' if f == 'build.sh' else '/_t.sh'), 'w').write(s)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD' % (SCR, SCR))

def reset():
    sh('git -C %s checkout -q -- .' % SCR)

def demo(i):
    tmp = '/tmp/demo_%s_%d' % (i, os.getpid())
    shutil.copytree(os.path.join(HERE, 'seeded', i), tmp)
    r = sh('timeout 300 bash %s/demo.sh' % tmp, cwd=SCR)
    shutil.rmtree(tmp)
    return r

def main():
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    prepare()
    if mode in ('verify', 'demo-clean'):
        reset(); b = sh('bash %s/_b.sh' % SCR)
        for i in ids:
            r = demo(i)
            print(i, 'clean demo exit', r.returncode, '' if r.returncode == 0 else 'BAD\n' + r.stdout[-1500:], flush=True)
    for i in ids if mode != 'demo-clean' else []:
        reset(); meta = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
        a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (SCR, HERE, i))
        if a.returncode: print(i, 'PATCH DOES NOT APPLY', a.stdout); continue
        if mode == 'verify':
            t = sh('bash %s/_t.sh /tmp/seed_t.json' % SCR)
            got = json.load(open('/tmp/seed_t.json')); miss = stable - set(got['passed'])
            b = sh('bash %s/_b.sh' % SCR)
            r = demo(i)
            print(i, 'build', b.returncode, 'tests missing', sorted(miss)[:5], 'patched demo exit', r.returncode,
                  'OK' if r.returncode and not miss and b.returncode == 0 else 'BAD', r.stdout.strip().splitlines()[-1:] , flush=True)
        else:
            t0 = time.time()
            r = sh('timeout 900 python3 check.py %s quick' % meta['property'], cwd=HERE + '', )if False else subprocess.run(
                ['python3', 'check.py', meta['property'], 'quick'], cwd=HERE, env=dict(ENV, VERIF_REPO=SCR, VERIF_CACHE='1', VERIF_SEED='1', VERIF_TIER='quick'),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            nxt = [l for l in r.stdout.splitlines() if l.startswith('  ')]
            print(i, meta['property'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0f s' % (time.time() - t0), nxt[0][:200] if nxt else '', flush=True)
    reset()
main()
