#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ from a spec that defines
id, prop, needs, breaks, edits=[(file, old, new)], demo (Go test source),
pkg (directory of /repo the demo test belongs to, default '.')."""
import sys, os, subprocess, json
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: broken. cwd is /repo.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'find "$t" -depth -delete' EXIT
printf '{"Replace":{"/repo/%%s/zz_demo_test.go":"%%s/demo_test.go"}}' '%s' "$here" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run TestDemo ./%s
'''
for spec in sys.argv[1:]:
    g = {'pkg': '.'}
    exec(open(spec).read(), g)
    d = os.path.join(here, 'seeded', g['id'])
    os.makedirs(d, exist_ok=True)
    assert subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'], text=True) == '', 'dirty'
    try:
        for f, old, new in g['edits']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) == 1, (g['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (g['pkg'], g['pkg']))
    open(os.path.join(d, 'demo_test.go'), 'w').write(g['demo'].lstrip())
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', d)
