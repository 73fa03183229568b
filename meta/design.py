"""DESIGN.md from the head, the property list, the rules of the checks, the findings and the planted bugs."""
import re, os, glob, json


def design(H, props, nas):
    out = [open(os.path.join(H, 'meta', 'design_head.md')).read().rstrip(), '', '## 3. Properties and how each is decided', '']
    seeds = {}
    for m in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
    nad = {x['property']: x['reason'] for x in nas}
    for p, tech, note in props:
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '', p['statement'], '', '*Quantifies over* %s. *Tests:* %s.' % (p['quantifier']['text'], p['why_tests_cant'])]
        out += ['*Anchored in* ' + '; '.join('%s (%s)' % (m['name'], m['where'].replace('include/lexertl/', '')) for m in p['anchors']['mechanism']) + '.', '']
        if i in nad:
            out += ['**Not applicable.** ' + nad[i], '']
            continue
        f = glob.glob(os.path.join(H, 'checks', i.lower() + '_*.py'))
        if not f:
            continue
        src = open(f[0]).read()
        out += ['*Decided by* `checks/%s`: %s.' % (os.path.basename(f[0]), tech or 'abstract interpretation'), '', (note or '').strip(), '']
        rules = re.findall(r"ctx\.rule\('([^']*)',\s*['\"](.*?)['\"],\s*(\d+)\)", src)
        for n, t, k in rules:
            out.append('- `%s` (at least %s instances): %s' % (n, k, t.replace('\\\\', '\\').replace("\\'", "'")))
        if rules:
            out.append('')
        if i in seeds:
            out += ['*Planted bugs it catches:* ' + ', '.join('`%s` (%s)' % (n, d['what_it_breaks'].rstrip('.')) for n, d in seeds[i]) + '.', '']
    out += [open(os.path.join(H, 'meta', 'design_tail.md')).read().rstrip(), '']
    fixed = [l.strip() for l in open(os.path.join(H, 'known_findings.txt')) if l.startswith(('fixed:', 'known:'))]
    out += ['### Defects found in lexertl17 and repaired (`fix:` commits)', '']
    for l in fixed:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m:
            out.append('- %s (`%s`): %s' % m.groups())
        else:
            out.append('- ' + l)
    return '\n'.join(out) + '\n'
