#!/usr/bin/env python3
# Regenerates the two generated sections at the end of DESIGN.md.
import json, os, re, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(H + '/DESIGN.md').read()
M = '<!-- generated by tools/mkdesign.py -->\n'
d = d.split(M)[0].rstrip('\n') + '\n\n'
k = json.load(open(H + '/known_findings.json'))
out = [M, '## Defects found and fixed\n\n']
out.append('%d `fix:` commits in /repo, each found by (or while building) the check of the property named; reverting one\nmakes its check report it again (`tools/revert.sh COMMIT PROPERTY`).\n\n' % len(k['fixed']))
for f in sorted(k['fixed']):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f, re.S)
    out.append('\n'.join(textwrap.wrap('%s `%s` %s' % (m[1], m[2][:7], m[3]), 118, initial_indent='* ', subsequent_indent='  ')) + '\n')
out.append('\n## Seeded changes\n\nEach is in `seeded/<id>` with a demonstration; made by `tools/seeds/*.py`; `tools/seedtest.sh ID` runs one. All are caught by the\nquick check of their property.\n\n')
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/' + i + '/meta.json'))
    out.append('\n'.join(textwrap.wrap('**%s** (%s): %s Needs: %s' % (i, m['property'], m['what_it_breaks'].strip().rstrip('.') + '.', m['needs']), 118, initial_indent='* ', subsequent_indent='  ')) + '\n')
open(H + '/DESIGN.md', 'w').write(d + ''.join(out))
