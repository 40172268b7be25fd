#!/usr/bin/env python3
"""Builds and validates planted bugs described in tools/bugs.py.

usage: mkbugs.py [ID...]   (scratch copy of /repo in /tmp/w/bugrepo)
For every bug: applies the edit, makes the patch, checks that every removed line is a line of the
original repository, builds, runs stable tests, runs the demonstration on the clean and changed tree.
Only bugs which pass everything are kept in /verif/seeded.
"""
import json, os, shutil, subprocess, sys, pathlib, re
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import bugs
SB = pathlib.Path('/tmp/w/bugrepo')
BASE = '4764d38'
SEEDED = HERE.parent / 'seeded'

def sh(cmd, cwd=None, env=None):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)

def fresh():
    if not SB.exists():
        subprocess.check_call(['cp', '-a', '/repo', str(SB)])
    subprocess.check_call('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=SB)

def demo_text(b):
    t = '#!/bin/bash\n# %s\nR=$(pwd)\nH=$(cd "$(dirname "$0")" && pwd)\nD=$(mktemp -d) || exit 2\ntrap \'rm -rf "$D"\' EXIT\ncd "$D" || exit 2\n' % b['what'].split('\n')[0]
    for name, text in b.get('files', {}).items():
        if '/' in name:
            t += "mkdir -p '%s'\n" % os.path.dirname(name)
        t += "cat >'%s' <<'EOF'\n%sEOF\n" % (name, text)
    if 'sh' in b:
        return t + b['sh']
    t += 'timeout 60 "$R/fbdl" %s bus.fbd >out.json 2>err.txt || { cat err.txt; exit 1; }\n' % b.get('args', '')
    t += "python3 - <<'EOF'\nimport json\nb = json.load(open('out.json'))\n" + b['py'] + "EOF\n"
    return t

def blame_ok(file, removed):
    """removed: line numbers in HEAD"""
    out = subprocess.run(['git', 'blame', '-s', '-l', 'HEAD', '--', file], cwd=SB, capture_output=True, text=True).stdout.split('\n')
    base = subprocess.run(['git', 'rev-list', BASE], cwd=SB, capture_output=True, text=True).stdout.split()
    base = set(base)
    bad = []
    for n in removed:
        h = out[n-1].split()[0].lstrip('^')
        if not any(x.startswith(h) for x in base):
            bad.append(n)
    return bad

def build(b):
    fresh()
    for f, old, new in b['edits']:
        p = SB / f
        s = p.read_text()
        if s.count(old) != 1:
            return 'edit of %s matches %d times' % (f, s.count(old))
        p.write_text(s.replace(old, new))
    patch = subprocess.run(['git', 'diff'], cwd=SB, capture_output=True, text=True).stdout
    # blame
    zero = subprocess.run(['git', 'diff', '-U0'], cwd=SB, capture_output=True, text=True).stdout
    file = None; n_removed = 0
    for line in zero.split('\n'):
        if line.startswith('--- a/'):
            file = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            start = int(m[1]); cnt = int(m[2]) if m[2] is not None else 1
            n_removed += cnt
            bad = blame_ok(file, range(start, start+cnt))
            if bad:
                return 'changes lines of own commits: %s %s' % (file, bad)
    if n_removed == 0:
        return 'no original line changed'
    r = sh('gofmt -l internal pkg cmd; go vet ./internal/... ./pkg/... ./cmd/... && go build ./... && go build -o fbdl ./cmd/fbdl', cwd=SB)
    if r.returncode or r.stdout.strip():
        return 'build: ' + r.stdout + r.stderr[-800:]
    t = open('/opt/vp/test.sh').read().replace('/repo', str(SB))
    open('/tmp/w/btest.sh', 'w').write(t)
    sh('bash /tmp/w/btest.sh /tmp/w/btest.json', cwd=SB)
    res = json.load(open('/tmp/w/btest.json'))
    basel = json.load(open('/opt/vp/BASELINE.json'))
    names = basel['stable'] if 'stable' in basel else basel
    fails = failing(res, names)
    if fails:
        return 'stable tests fail: %s' % fails[:6]
    # demo
    d = pathlib.Path('/tmp/w/bdemo'); shutil.rmtree(d, ignore_errors=True); d.mkdir()
    (d/'demo.sh').write_text(demo_text(b))
    for name, text in b.get('beside', {}).items():
        (d/name).write_text(text)
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=SB)
    if r.returncode == 0:
        return 'demo passes with the change'
    badout = (r.stdout + r.stderr)[-300:]
    subprocess.check_call('git checkout -q -- .', shell=True, cwd=SB)
    sh('go build -o fbdl ./cmd/fbdl', cwd=SB)
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=SB)
    if r.returncode != 0:
        return 'demo fails on clean tree: ' + (r.stdout + r.stderr)[-600:]
    out = SEEDED / b['id']; shutil.rmtree(out, ignore_errors=True); out.mkdir(parents=True)
    (out/'patch.diff').write_text(patch)
    shutil.copy(d/'demo.sh', out/'demo.sh'); os.chmod(out/'demo.sh', 0o755)
    for name in b.get('beside', {}):
        shutil.copy(d/name, out/name)
    (out/'meta.json').write_text(json.dumps({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, indent=1) + '\n')
    return 'ok (%s)' % badout.strip().split('\n')[-1][:150]

def failing(res, names):
    def get(d):
        if isinstance(d, dict):
            for k in ('passed', 'pass'):
                if k in d: return set(d[k])
            return {k for k, v in d.items() if v in (True, 'pass', 'PASS', 'passed')}
        return set(d)
    ok = get(res)
    want = names if isinstance(names, list) else get(names)
    return [n for n in want if n not in ok]

def main():
    want = sys.argv[1:]
    for b in bugs.BUGS:
        if want and b['id'] not in want and not any(b['id'].startswith(w) for w in want):
            continue
        print(b['id'], build(b), flush=True)
main()
