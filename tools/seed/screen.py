# screen.py SPECS.py OUT [par] [id...]: makes a patch of each spec (id, prop, edits=[(file, old, new[, nth])]) in OUT and runs the property's check on it.
import sys, subprocess, os, re, concurrent.futures as cf
specs, out = sys.argv[1], sys.argv[2]
par = int(sys.argv[3]) if len(sys.argv) > 3 else 2
only = sys.argv[4:]
S = []
exec(open(specs).read())
os.makedirs(out, exist_ok=True)
def mk(s):
    files = {}
    for e in s['edits']:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else 1
        t = files.get(f) or open('/repo/'+f).read()
        i = -1
        for _ in range(nth):
            i = t.find(old, i+1)
            if i < 0: return 'NOT FOUND: %s: %r' % (f, old)
        files[f] = t[:i]+new+t[i+len(old):]
    d = ''
    for f, t in files.items():
        p = out+'/'+s['id']+'.tmp'
        open(p, 'w').write(t)
        r = subprocess.run(['diff', '-u', '--label', 'a/'+f, '--label', 'b/'+f, '/repo/'+f, p], capture_output=True, text=True).stdout
        d += 'diff --git a/%s b/%s\n' % (f, f)+r
        os.remove(p)
    open(out+'/'+s['id']+'.diff', 'w').write(d)
def run(s):
    e = mk(s)
    if e: return s['id']+' '+e
    r = subprocess.run(['/verif/tools/seed/hitc.sh', out+'/'+s['id']+'.diff'], capture_output=True, text=True, env=dict(os.environ, PROPS=s['prop']))
    return (r.stdout+r.stderr).strip()
with cf.ThreadPoolExecutor(par) as ex:
    for r in ex.map(run, [s for s in S if not only or s['id'] in only]):
        print(r, flush=True)
