"""Writes DESIGN.md: the texts below, with the scenarios of every check (from the code) and the measured counts (from evidence/)."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, '/repo']
PROPS = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
HEAD = open(ROOT + '/tools/design_head.md').read()
TAIL = open(ROOT + '/tools/design_tail.md').read()
TEXT = {}
cur = None
for line in open(ROOT + '/tools/design_props.md'):
    if line.startswith('## C'): cur = line.split()[1]; TEXT[cur] = ''
    elif cur: TEXT[cur] += line


def main():
    out = [HEAD.strip(), '', '## 4. The properties', '']
    for p in PROPS:
        i = p['id']
        mod = importlib.import_module('mc.checks.' + i.lower())
        sc = mod.scenarios('quick'); th = mod.scenarios('thorough')
        try: ev = json.load(open(f'{ROOT}/evidence/{i}.json'))['coverage']
        except OSError: ev = {}
        out += [f'### {i} {p["title"]}', '', TEXT[i].strip(), '']
        out += ['Scenarios: ' + '; '.join('**' + s['name'] + '**' + (': ' + ' '.join((s['fn'].__doc__ or '').split()).rstrip('.') if s['fn'].__doc__ else '') + (f' (deviation budget {s["budget"]})' if s.get('budget') else '') for s in sc) + '.']
        more = [s['name'] for s in th if s['name'] not in {x['name'] for x in sc}]
        if more: out += ['Thorough adds: ' + ', '.join(more) + ' (and wider bounds in the others).']
        out += ['']
    out += [TAIL.strip(), '']
    open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))


main()
