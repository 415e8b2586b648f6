#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; the outputs are committed)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'src/GenericContainer.cc'; PR = 'src/GenericContainerPromote.cc'; H = 'include/GenericContainer/GenericContainer.hh'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, note=''):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a}, note))
exec(open(os.path.join(HERE, 'tools', 'props.inc.py')).read())
claimed = [p for p, _ in P if glob.glob(os.path.join(HERE, 'harness', p['id'] + '_*.cc'))]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in P: f.write(json.dumps(p, ensure_ascii=True) + '\n')
LN = ('Bounded: the real functions are executed symbolically from LLVM IR compiled from /repo on every run; within the bounds printed in the evidence every path is explored and every '
      'assertion and memory access is decided by Z3 for all values. Trusted: clang -O1 front end, the gcsym interpreter and its models of the C++/C runtime (streams, iostream formatting, allocation), '
      'Z3; counterexamples are believed only after they reproduce natively under AddressSanitizer, and samples of proved paths are replayed natively.')
man = {'version': 1, 'setup_cmd': 'python3 check.py build', 'checks': [], 'not_applicable': NA}
for p, note in P:
    if p not in claimed: continue
    man['checks'].append({'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} --tier quick", 'thorough_cmd': f"python3 check.py {p['id']} --tier thorough",
        'technique': 'symbolic execution of the compiled IR of the real code, every assertion decided by an SMT solver (Z3) over all inputs in the bounds', 'level': 'model_checking', 'level_note': (LN + ' ' + note).strip()})
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
miss = [p['id'] for p, _ in P if p not in claimed and p['id'] not in [n['property'] for n in NA]]
print('claimed', [p['id'] for p in claimed], 'missing', miss)

# DESIGN.md: table of properties/harnesses and of planted bugs
import re
def direct(fn):
    d = {}
    for l in open(fn):
        m = re.match(r'//@ (\w+): *(.*)', l)
        if m: d[m[1]] = (d[m[1]] + ' ' if m[1] in d else '') + m[2].strip()
    return d
rows = []
for p, _ in P:
    hs = sorted(glob.glob(os.path.join(HERE, 'harness', p['id'] + '_*.cc')))
    rows.append(f"**{p['id']} {p['title']}** (anchored in {', '.join(p['anchors']['files'])})")
    for h in hs:
        d = direct(h)
        rows.append(f"- `{os.path.basename(h)}`: {d.get('bounds', '')} Quick `{d.get('quick', '')}`, thorough `{d.get('thorough', '')}`." + (f" Stubs: {d['stubs']}" if 'stubs' in d else ''))
    rows.append('')
cf = os.path.join(HERE, 'tools', 'caught.json'); caught = json.load(open(cf)) if os.path.exists(cf) else {}
bugs = ['| bug | property | what it breaks | needs | caught by quick check |', '|---|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    bugs.append(f"| {i} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {caught.get(i, '?')} |".replace('\n', ' '))
f = os.path.join(HERE, 'DESIGN.md'); s = open(f).read()
for k, v in (('table', rows), ('bugs', bugs)):
    s = re.sub(f'<!-- {k} -->.*?<!-- /{k} -->', lambda _: f'<!-- {k} -->\n' + '\n'.join(v) + f'\n<!-- /{k} -->', s, flags=re.S)
open(f, 'w').write(s)
