#!/usr/bin/env python3
"""run.py LIST.jsonl RESULTS.jsonl [WORKERS [CASES]]: applies every change of the list to a scratch copy of /repo, and for those that
compile and pass the repository's tests runs the checks (reduced, without noise) until one of them reports it."""
import sys, os, json, random, subprocess, shutil, threading, signal
lst, res = sys.argv[1], sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 5
N = sys.argv[4] if len(sys.argv) > 4 else '60'
ONLY = os.environ.get('MUT_PROPS', '').split()
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off', VH_PAR='3')
muts = [json.loads(l) for l in open(lst)]
done = set()
if os.path.exists(res):
    for l in open(res):
        d = json.loads(l); done.add((d['File'], d['Start'], d['End'], d['New']))
random.Random(7).shuffle(muts)
muts = [m for m in muts if (m['File'], m['Start'], m['End'], m['New']) not in done]
lock = threading.Lock()
ALL = ['C16','C10','C08','C09','C25','C05','C03','C02','C01','C12','C13','C11','C06','C04','C22','C23','C28','C14','C07','C24','C17','C26','C27','C18','C21','C19','C20']
def order(f):
    first = []
    if 'stackexchange' in f: first = ['C21','C19','C20']
    elif 'gobwas' in f or 'gorilla' in f: first = ['C17','C26','C27','C01']
    elif f == 'reflect.go': first = ['C24','C26']
    elif f == 'message.go': first = ['C01','C02','C14','C28']
    elif f == 'broadcaster.go': first = ['C06','C07']
    elif f == 'conn_handler.go': first = ['C25','C24','C26']
    elif f == 'server.go': first = ['C12','C06','C11','C27','C22']
    o = first + [p for p in ALL if p not in first]
    return [p for p in o if not ONLY or p in ONLY]
def run(cmd, cwd, to):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=to); rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = 'timeout'; out = b''
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait()
    return rc, out.decode(errors='replace')
def work(i):
    base = '/tmp/mut/w%d' % i
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    shutil.copytree('/repo', base + '/repo', symlinks=True); shutil.copytree('/verif/harness', base + '/harness')
    gm = open(base + '/harness/go.mod').read().replace('=> /repo', '=> ' + base + '/repo'); open(base + '/harness/go.mod', 'w').write(gm)
    while True:
        with lock:
            if not muts: return
            m = muts.pop()
        p = base + '/repo/' + m['File']; src = open(p, 'rb').read()
        if src != open('/repo/' + m['File'], 'rb').read(): src = open('/repo/' + m['File'], 'rb').read()
        open(p, 'wb').write(src[:m['Start']] + m['New'].encode() + src[m['End']:])
        r = dict(m); r['log'] = []
        rc, out = run(['go', 'build', '-o', base + '/vh', '.'], base + '/harness', 200)
        if rc: r['status'] = 'nobuild'
        else:
            rc, out = run(['unshare', '-Urn', 'bash', '-c', 'ip link set lo up; exec go test -vet=off -count=1 -cpu=1 -timeout 60s .'], base + '/repo', 200)
            if rc: r['status'] = 'test'
            else:
                r['status'] = 'SURVIVED'
                for q in order(m['File']):
                    rc, out = run([base + '/vh', 'drive', '-prop', q, '-tier', 'quick', '-out', base + '/ev', '-max', N], base, 600)
                    if rc == 1:
                        r['status'] = 'killed ' + q
                        r['log'] = [l for l in out.split('\n') if l.startswith('case')][:1]; break
                    if rc != 0: r['log'].append('%s rc=%s %s' % (q, rc, out[-200:]))
        open(p, 'wb').write(src)
        with lock:
            with open(res, 'a') as f: f.write(json.dumps(r) + '\n')
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
for t in ts: t.start()
for t in ts: t.join()
for i in range(W): shutil.rmtree('/tmp/mut/w%d' % i, ignore_errors=True)
