#!/usr/bin/env python3
"""Runs checks against automatically made mutants of /repo, in scratch copies, to find blind spots.
usage: run.py ALL.jsonl RESULTS.jsonl WORKERS SCALE SEED PERFILE
Results: state in {nobuild, tests, killed, survived}, with the killing check.
"""
import json, os, random, subprocess, sys, threading, queue, shutil, pathlib, time
allf, resf, nw, scale, seed, perfile = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
W = pathlib.Path('/tmp/w/mut')
ORDER = 'C06 C12 C10 C08 C07 C09 C14 C15 C16 C02 C01 C03 C04 C05 C17 C18 C11 C13'.split()
muts = [json.loads(l) for l in open(allf)]
by = {}
for m in muts: by.setdefault(m['file'], []).append(m)
rnd = random.Random(seed)
todo = []
for f, ms in sorted(by.items()):
    if perfile:
        ms = rnd.sample(ms, min(len(ms), perfile + len(ms)//8))
    todo += ms
rnd.shuffle(todo)
key = lambda m: (m['file'], m['off'], m['old'], m['new'])
done = set()
if os.path.exists(resf):
    done = {key(json.loads(l)) for l in open(resf)}
q = queue.Queue()
for m in todo:
    if key(m) not in done: q.put(m)
print(len(todo), 'mutants,', q.qsize(), 'to do', flush=True)
lock = threading.Lock()
base = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, t, cwd=None):
    p = subprocess.Popen(['setsid', 'bash', '-c', '. /opt/vp/env.sh; export GOMAXPROCS=2; ' + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.kill(); p.communicate()
        return 124, ''

def passed(d):
    for k in ('passed', 'pass'):
        if isinstance(d, dict) and k in d: return set(d[k])
    if isinstance(d, dict):
        return {k for k, v in d.items() if v in (True, 'pass', 'PASS', 'passed')}
    return set(d)
stable = base['stable'] if isinstance(base, dict) and 'stable' in base else base
stable = set(stable) if isinstance(stable, list) else passed(stable)

def worker(k):
    D = W / f'w{k}'; R = D / 'repo'; H = D / 'harness'
    shutil.rmtree(D, ignore_errors=True); D.mkdir(parents=True)
    subprocess.check_call(['cp', '-a', '/repo', str(R)])
    subprocess.check_call(['cp', '-a', '/verif/harness', str(H)])
    g = (H/'go.mod').read_text().replace('=> /repo', f'=> {R}'); (H/'go.mod').write_text(g)
    t = open('/opt/vp/test.sh').read().replace('/repo', str(R)).replace('timeout -k 5 60', 'timeout -k 1 5')
    (D/'test.sh').write_text(t)
    json.dump({'Replace': {f'{R}/internal/tok/vh_verif_test.go': f'{H}/overlay/tok_verif_test.go'}}, open(D/'ov.json', 'w'))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = R / m['file']; src = p.read_bytes()
        o = m['off']; old = m['old'].encode()
        assert src[o:o+len(old)] == old
        p.write_bytes(src[:o] + m['new'].encode() + src[o+len(old):])
        r = dict(m); r['state'] = 'survived'; t0 = time.time()
        try:
            rc, out = sh(f'cd {R} && go build ./... && go vet ./{os.path.dirname(m["file"])} && go build -o fbdl ./cmd/fbdl', 120)
            if rc: r['state'] = 'nobuild'; continue
            rc, out = sh(f'ulimit -v 16000000; rm -f {D}/t.json; timeout -k 1 100 bash {D}/test.sh {D}/t.json', 110)
            ok = set()
            if (D/'t.json').exists():
                try: ok = passed(json.load(open(D/'t.json')))
                except Exception: pass
            if not stable <= ok: r['state'] = 'tests'; continue
            rc, out = sh(f'export GOFLAGS=-mod=mod; cd {H} && go build -o {D}/vhlib ./lib', 120)
            lib = f'{D}/vhlib' if rc == 0 else ''
            order = ORDER
            for c in order:
                tok = ''
                if c == 'C11':
                    rc, out = sh(f'cd {R} && go test -overlay {D}/ov.json -c -o {D}/toktest ./internal/tok', 120)
                    tok = f'{D}/toktest' if rc == 0 else ''
                shutil.rmtree(D/'s', ignore_errors=True); (D/'s').mkdir()
                rc, out = sh(f"/tmp/w/mut/vh run -prop {c} -fbdl {R}/fbdl -lib '{lib}' -tok '{tok}' -scratch {D}/s -replays {D}/replays -known /verif/known-findings.jsonl -shards 1 -scale {scale} -seed 1", 600)
                if rc == 1:
                    v = [l for l in out.splitlines() if l.startswith('violation of')]
                    r['state'] = 'killed'; r['by'] = c; r['msg'] = v[0][:300] if v else ''
                    break
                if rc not in (0, 1):
                    r.setdefault('odd', []).append([c, rc, out[-300:]])
        except Exception as e:
            r['state'] = 'error'; r['msg'] = repr(e)
        finally:
            p.write_bytes(src)
            r['t'] = round(time.time() - t0, 1)
            with lock:
                with open(resf, 'a') as f: f.write(json.dumps(r) + '\n')
ts = [threading.Thread(target=worker, args=(k,)) for k in range(nw)]
for t in ts: t.start()
for t in ts: t.join()
