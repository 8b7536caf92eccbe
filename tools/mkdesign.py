#!/usr/bin/env python3
"""Assembles DESIGN.md from its hand-written parts and the evidence."""
import collections, json, os, re
V = '/verif'
ps = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
m = json.load(open(f'{V}/MANIFEST.json'))
man = {c['property']: c for c in m['checks']}
nai = {n['property']: n['reason'] for n in m['not_applicable']}
notes = {}
cur = None
for l in open(f'{V}/tools/design_notes.md'):
    if l.startswith('@'):
        cur = l[1:].strip()
        notes[cur] = ''
    elif cur:
        notes[cur] += l
out = open(f'{V}/tools/design_head.md').read()
for p in ps:
    i = p['id']
    out += f"### {i} {p['title']}\n\n"
    if i in nai:
        out += f"Not applicable. {nai[i]}\n\n"
        continue
    e = json.load(open(f'{V}/evidence/{i}.json'))
    cov = e['coverage']
    out += f"*{man[i]['technique'].replace('static analysis: ', '')}.*\n\n"
    if notes.get(i):
        out += notes[i].strip() + '\n\n'
    for r in cov['rules']:
        out += f"- **{r['rule']}** ({r['obligations_discharged']}): {r['says']}\n"
    out += f"\n{cov['obligations_discharged']} obligations on {cov['paths_analysed']} path classes of {len(cov['functions_analysed'])} functions.\n\n"
tail = open(f'{V}/tools/design_tail.md').read()

fixed = ''
for l in open(f'{V}/KNOWN-FINDINGS.txt'):
    g = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if g:
        fixed += f"- {g[1]} `{g[2][:10]}`: {g[3]}\n"
seeds = ''
n = 0
hits = {}
for l in open(f'{V}/tools/seed_results.txt'):
    g = re.match(r'(\S+) \((C\d+)\): .*alarms=\[(.*?)\] (\w+)', l)
    if g and os.path.isdir(f'{V}/seeded/{g[1]}'):
        hits[g[1]] = g
for s in sorted(os.listdir(f'{V}/seeded')):
    if not os.path.isdir(f'{V}/seeded/{s}'):
        continue
    meta = json.load(open(f'{V}/seeded/{s}/meta.json'))
    g = hits.get(s)
    also = ' '.join(x for x in g[3].split() if x != g[2]) if g else '?'
    what = meta['what_it_breaks'].rstrip('.')
    seeds += f"| {s} | {what} (needs {meta['needs']}) | {g[2] + ' ' + g[4] if g else meta['property']} | {also or '-'} |\n"
    n += 1
bugs = refs = 0
per = collections.Counter()
odd = []
for l in open(f'{V}/tools/muts/RESULTS.txt'):
    g = re.match(r"(ok|MISSED|ALARM)\s+(\S+) (bug|ref) \[(.*)\]", l)
    if not g:
        continue
    if g[3] == 'bug':
        bugs += 1
        for c in re.findall(r'C\d+', g[4]):
            per[c] += 1
    else:
        refs += 1
    if g[1] != 'ok':
        odd.append(f"{g[2]} ({g[1].lower()})")
tail = (tail.replace('@@FIXED@@\n', fixed).replace('@@SEEDS@@\n', seeds).replace('@@BUGS@@', str(bugs)).replace('@@REFS@@', str(refs))
        .replace('@@MATRIX@@', ', '.join(f'{c} {per[c]}' for c in sorted(per)) + ('; not as expected: ' + ', '.join(odd) if odd else '')))
assert '@@' not in tail
open(f'{V}/DESIGN.md', 'w').write(out + tail)
