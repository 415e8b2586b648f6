"""Helper for planting a bug: seed(id, prop, needs, breaks, edits, demo) edits /repo, builds, runs the stable tests and the
demonstration, undoes the edit, and keeps seeded/<id>/ when everything behaves as required."""
import subprocess, os, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
SH = '''#!/bin/bash
# exits 0 when the behaviour is intact; run in the repository after its build
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g1 %(san)s -w -I include -I src_lua_interface/lua-5.4.6/src "$d/demo.cc" %(link)s -o "$t/demo" || exit 99
cd "$t" && ASAN_OPTIONS=detect_leaks=%(leak)d timeout 120 ./demo >/dev/null
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def bt():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode: return 'build: ' + (r.stdout + r.stderr)[-1500:]
    sh('bash /opt/vp/test.sh /tmp/seed_o.json'); o = json.load(open('/tmp/seed_o.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    m = set(b['stable']) - set(o['passed'])
    return 'tests: %s' % m if m else ''
def seed(id, prop, needs, breaks, edits, demo, asan=None, leak=0):
    d = f'{V}/seeded/{id}'; assert not sh('git status --porcelain', cwd=R).stdout.strip(), 'repo dirty'
    for p, a, b in edits:
        s = open(f'{R}/{p}').read(); 
        if s.count(a) != 1: print(id, 'EDIT COUNT', s.count(a), p, a); sh('git checkout -- .', cwd=R); return
        open(f'{R}/{p}', 'w').write(s.replace(a, b))
    for p, a, b in edits:
        n = open(f'{R}/{p}').read(); bl = sh(f'git blame -s a99f380..HEAD -- {p}', cwd=R).stdout
        old = [l for l in a.splitlines() if l not in b.splitlines()]
        if not any(x.startswith('^') and any(o.strip() in x for o in old) for x in bl.splitlines() if ') ' in x): print(id, 'NO ORIGINAL LINE CHANGED', p)
    os.makedirs(d, exist_ok=True); patch = sh('git diff', cwd=R).stdout; open(f'{d}/patch.diff', 'w').write(patch)
    pre = '#include "GenericContainer/GenericContainer.hh"\n' if 'GenericContainer/GenericContainer' not in demo.split('int main')[0] else ''
    open(f'{d}/demo.cc', 'w').write(pre + demo)
    link = '_build/lib/libGenericContainer_Static.a _build/lib/libLua.a -ldl' if not asan else asan
    open(f'{d}/demo.sh', 'w').write(SH % dict(link=link, san='-fsanitize=address' if asan else '', leak=leak)); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    e = bt(); r1 = sh(f'bash {d}/demo.sh', cwd=R)
    sh('git checkout -- .', cwd=R); e2 = bt(); r2 = sh(f'bash {d}/demo.sh', cwd=R)
    ok = not e and not e2 and r1.returncode not in (0, 99) and r2.returncode == 0
    print(id, 'OK' if ok else 'REJECTED', e, e2, 'with', r1.returncode, 'without', r2.returncode, '' if ok else (r1.stderr + r2.stderr)[-800:], flush=True)
    if not ok: sh(f'rm -rf {d}')
