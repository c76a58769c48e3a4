#!/usr/bin/env python3
"""mk.py SPEC.py: SPEC defines SEEDS = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new)...], demo=GO)]; writes /tmp/seed/<id>/."""
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = '/tmp/seed/' + s['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = '/tmp/seedwork'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', w])
    for f, old, new in s['edits']:
        p = os.path.join(w, f); t = open(p).read()
        if t.count(old) != 1: sys.exit('%s: %d matches of %r in %s' % (s['id'], t.count(old), old, f))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    shutil.rmtree(w)
    body = s['demo']
    hdr = 'package neffos_test\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in s.get('imports', [])) + '\t"testing"\n\n\t"github.com/kataras/neffos"\n)\n\nvar _ = neffos.OnAnyEvent\n'
    open(d + '/demo_test.go', 'w').write(hdr + body)
    subprocess.call(['gofmt', '-w', d + '/demo_test.go'])
    if s.get('race'): open(d + '/race', 'w').write('go test -race\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    sys.stdout.flush()
    subprocess.call(['bash', os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'try.sh'), s['id']])
