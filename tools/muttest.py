#!/usr/bin/env python3
"""muttest.py WORKER [-secs N] [-props C01,..] [-notest] PATCH...
Applies each patch to a scratch copy of /repo (/tmp/mut/WORKER), runs the stable
tests there, builds the simulator from it, and runs the checks."""
import sys, os, subprocess, json, time
args = sys.argv[1:]
worker = args.pop(0)
secs, props, notest, rev = '5', None, False, False
while args and args[0].startswith('-'):
    a = args.pop(0)
    if a == '-secs': secs = args.pop(0)
    elif a == '-props': props = args.pop(0).split(',')
    elif a == '-notest': notest = True
    elif a == '-R': rev = True
ALL = ['C%02d' % i for i in range(1, 16)]
W = '/tmp/mut/' + worker
if not os.path.isdir(W):
    os.makedirs('/tmp/mut', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', W])
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='',
           GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod', GOPATH='/root/go')
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(cmd, cwd=W, timeout=300, **e):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(env, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, 'timeout'
def tests():
    mods = subprocess.check_output(['go', 'list', '-m'], cwd=W, env=dict(env, GOWORK=W + '/go.work'), text=True).split()
    rc, out = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '3m'] + [m + '/...' for m in mods], GOWORK=W + '/go.work')
    ok, bad = set(), []
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'build-fail': bad.append('build')
        if e.get('Test') and e.get('Action') == 'pass': ok.add(e['Package'] + '/' + e['Test'])
    return [t for t in base if t not in ok]
def one(patch):
    sh(['git', 'checkout', '-q', '--', '.'])
    sh(['git', 'reset', '-q', '--hard', subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()])
    rc, out = sh(['git', 'apply'] + (['-R'] if rev else []) + [patch])
    if rc: return 'NOAPPLY ' + out.strip()[:200]
    rc, out = sh(['go', 'build', './...'], GOWORK=W + '/go.work')
    if rc: return 'NOBUILD ' + out.strip()[-200:]
    if not notest:
        m = tests()
        sh(['git', 'checkout', '-q', '--', 'testdata'])
        if m: return 'TESTS ' + ' '.join(m[:2])
    o = '/tmp/mut/' + worker + '.o'
    subprocess.call(['find', o, '-mindepth', '1', '-delete'], stderr=subprocess.DEVNULL)
    os.makedirs(o + '/o', exist_ok=True)
    sim = '/verif/sim'
    rc, out = sh(['go', 'build', '-o', o + '/instr', './instr'], cwd=sim, GOWORK='off')
    if rc: return 'INSTR ' + out[-300:]
    rc, out = sh([o + '/instr', '-repo', W, '-out', o + '/o'], cwd=sim)
    if rc: return 'INSTR ' + out[-300:]
    rc, out = sh(['go', 'build', '-overlay', o + '/o/overlay.json', '-o', o + '/simcheck', './cmd/simcheck'], cwd=sim, GOWORK=o + '/o/go.work')
    if rc: return 'SIMBUILD ' + out[-400:]
    caught = []
    for p in props or ALL:
        rc, out = sh([o + '/simcheck', 'run', '-prop', p, '-secs', secs, '-evidence', o + '/ev.json', '-replays', o + '/rep'], cwd=sim)
        if rc == 1 and 'VIOLATION' in out:
            caught.append(p + '(' + out.split('\n')[0][:90] + ')')
        elif rc: caught.append('%s(rc=%d %s)' % (p, rc, out.strip()[-150:]))
    return ('CAUGHT ' + ' '.join(caught)) if caught else 'SURVIVED'
for patch in args:
    t = time.time()
    print(os.path.basename(os.path.dirname(patch)) + '/' + os.path.basename(patch), one(os.path.abspath(patch)), '%.0fs' % (time.time() - t), flush=True)
