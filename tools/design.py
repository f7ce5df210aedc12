# Writes DESIGN.md: tools/design_head.md, then one section per property from tools/props.py and the bounds stated in checks/ID.cpp,
# then the planted changes of seeded/ with the checks that catch them (tools/caught.txt).
import re, os, json, glob, runpy
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = runpy.run_path(here + '/tools/props.py')['PROPS']
LIT = re.compile(r'"((?:[^"\\]|\\.)*)"')

def text(src, field):
    m = re.search(r'i\.' + field + r'\s*=\s*(.*?);\n', src, re.S)
    if not m: return None
    body = m.group(1)
    if body.lstrip().startswith('{'):
        items, cur, depth = [], '', 0
        out, last = [], 0
        for x in LIT.finditer(body):
            if out and ',' not in body[last:x.start()]: out[-1] += x.group(1)
            else: out.append(x.group(1))
            last = x.end()
        return [o.replace('\\"', '"').replace('\\\\', '\\') for o in out]
    return ''.join(LIT.findall(body)).replace('\\"', '"').replace('\\\\', '\\')

cost = {}
if os.path.exists(here + '/tools/cost.txt'):
    for l in open(here + '/tools/cost.txt'):
        f = l.split()
        if len(f) >= 3: cost[f[0]] = (f[1], f[2])
fixed = {}
for l in open(here + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', l)
o = open(here + '/tools/design_head.md').read().rstrip() + '\n\n## The properties\n\n'
for p in props:
    src = open(here + '/checks/' + p['id'] + '.cpp').read()
    o += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    o += '- **Method**: ' + p['technique'] + '.\n'
    o += '- **Enumerated, and the oracle**: ' + text(src, 'rule') + '.\n'
    o += '- **Bounds, quick**: ' + '; '.join(text(src, 'bounds_quick') or []) + '.\n'
    o += '- **Bounds, thorough**: ' + '; '.join(text(src, 'bounds_thorough') or []) + '.\n'
    a = text(src, 'assumptions')
    if a: o += '- **Assumptions**: ' + '; '.join(a) + '.\n'
    o += '- **Reach**: ' + p['why_tests_cant'] + ' ' + p['note'] + '\n'
    if p['id'] in cost: o += '- **Cost** (8 cores, without compiling): quick %s s, thorough %s s.\n' % cost[p['id']]
    o += '- **Code**: ' + ', '.join(p['anchors']['files']) + '\n'
    if p['id'] in fixed:
        o += '- **Defects it found, repaired in /repo**: ' + '; '.join('%s %s' % (h, t) for h, t in fixed[p['id']]) + '.\n'
    o += '\n'
o += '## Planted changes and the checks that catch them\n\nEach was written from the text of its property and the code; "caught by" was measured with the quick checks (tools/plant.sh).\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
caught = {}
if os.path.exists(here + '/tools/caught.txt'):
    for l in open(here + '/tools/caught.txt'):
        f = l.strip().split(' ', 1)
        if len(f) == 2: caught[f[0]] = f[1]
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['what_it_breaks'], m['needs'], caught.get(i, 'not measured'))
tail = here + '/tools/design_tail.md'
if os.path.exists(tail): o += '\n' + open(tail).read()
open(here + '/DESIGN.md', 'w').write(o)
