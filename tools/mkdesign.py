"""writes DESIGN.md"""
import ast, glob, json, os
V = '/verif'
out = [open(f'{V}/tools/design_head.md').read()]
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
exec(open(f'{V}/tools/claims.py').read())
NOTES = {}
if os.path.exists(f'{V}/tools/design_notes.py'):
    exec(open(f'{V}/tools/design_notes.py').read())
bugs = json.load(open(f'{V}/tools/bugs.json'))
kf = json.load(open(f'{V}/known_findings.json'))
out.append('## 4. Properties\n')
out.append('Per property: the statement is in `properties.jsonl`; below, how it is decided. *evaluations* are runs of the '
           'quick tier (the thorough tier multiplies them and uses further seeds).\n')
for p in props:
    i = p['id']
    lvl, note = CLAIMS.get(i, ('', NA.get(i, '')))
    out.append(f"### {i} {p['title']}\n")
    out.append(f"Level **{lvl}**. {note.replace(BASE, '')}\n")
    out.append(f"Why tests cannot settle it: {p['why_tests_cant']}\n")
    if i in NOTES:
        out.append(NOTES[i] + '\n')
    src = f'{V}/contracts/{i.lower()}.py'
    docs = {}
    for n in ast.walk(ast.parse(open(src).read())):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'contract' and len(d.args) > 1 and isinstance(d.args[1], ast.Constant):
                    docs[d.args[1].value] = (ast.get_docstring(n) or '').split('\n\n')[0].replace('\n', ' ')
    mdoc = ast.get_docstring(ast.parse(open(src).read()))
    if mdoc:
        out.append('Specification: ' + ' '.join(mdoc.split()) + '\n')
    try:
        ev = json.load(open(f'{V}/evidence/{i}.json'))['coverage']['contracts']
    except OSError:
        ev = []
    rows, fam = [], {}
    for c in ev:
        key = c['name'].split(' ')[0].split('[')[0] if len(ev) > 12 else c['name']
        fam.setdefault((key, c['kind']), []).append(c)
    out.append('| contract | kind | on | bound | clauses |\n|---|---|---|---|---|')
    for (k, kind), cs in fam.items():
        t = sorted({'.'.join(x.replace('pelicun.', '').split('.')[-2:]) for c in cs for x in c['targets']})
        b = '; '.join(dict.fromkeys(c.get('bound') or '' for c in cs if c.get('bound')))
        nm = k + (f' (×{len(cs)})' if len(cs) > 1 else '')
        d = docs.get(k, '')
        cl = len({x for c in cs for x in c.get('clauses', {})})
        n = sum(c.get('obligations', 0) for c in cs)
        e = sum(c.get('evaluations', 0) for c in cs)
        tx = (f'{n} obligations ({cl} clauses), ' if n else '') + f'{e} evaluations'
        out.append(f"| {nm}{': ' + d if d else ''} | {kind} | {', '.join(f'`{x}`' for x in t)} | {b or ('none' if kind == 'proof' else '')} | {tx} |".replace('\n', ' '))
    out.append('')
    f = [x for x in kf if x['property'] == i]
    fx = [x for x in f if x['status'] == 'fixed']
    if fx:
        out.append('Defects found and repaired: ' + '; '.join(f"{x['what']} ({x['commit']})" for x in fx) + '.\n')
    for x in f:
        if x['status'] != 'fixed':
            out.append(f"Known finding: {x['what']}\n")
    c = [(b, v['caught'][i]) for b, v in bugs.items() if i in v['caught']]
    s = [os.path.basename(d) for d in sorted(glob.glob(f'{V}/seeded/*')) if json.load(open(d + '/meta.json'))['property'] == i]
    if s or c:
        out.append('Planted changes caught: ' + ', '.join([f'**{x}** (seeded)' for x in s] + [x for x, _ in c]) + '.\n')
out.append('## 5. Planted bugs\n')
out.append('Seeded changes with a demonstration (`/verif/seeded/<id>`), each confirmed: applies, passes the stable tests, demo 0/nonzero, caught by its check:\n')
for d in sorted(glob.glob(f'{V}/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    out.append(f"* **{os.path.basename(d)}** ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}.")
out.append('\nFurther exploratory changes (all pass the stable tests; `tools/mutants.py`), with the first violated obligation:\n')
out.append('| change | file | caught by |\n|---|---|---|')
for b, v in sorted(bugs.items()):
    if v['caught']:
        out.append(f"| {b} | {v['file']} | " + '; '.join(f"{c}: {o.replace('|', '/')[:90]}" for c, o in v['caught'].items()) + ' |')
MISS = globals().get('MISSED', {})
miss = [b for b, v in sorted(bugs.items()) if not v['caught']]
out.append('\nChanges that no check reports, and why:\n')
for b in miss:
    out.append(f"* {b} ({bugs[b]['file']}; checks run: {', '.join(bugs[b]['quiet'])}): {MISS.get(b, 'no input was found on which it breaks the statement of a property')}")
out.append('')
out.append(globals().get('TAIL', ''))
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out)), 'chars')
