"""writes known_findings.json's "fixed" list from /repo's fix: commits (run by hand); property per commit in FIXP below"""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = V + '/known_findings.json'
k = json.load(open(f)); props = json.load(open(V + '/tools/fixprop.json'))
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    p = [v for q, v in props.items() if q in s]
    if not p: print('no property for', s); continue
    out.append(f'fixed: property={p[0]} {h} {s[5:]}')
k['fixed'] = out; json.dump(k, open(f, 'w'), indent=1); open(f, 'a').write('\n'); print(len(out))
