"""Rewrite section 6 of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import glob, json, re
rows = []
for name in sorted(glob.glob('/verif/seeded/*/meta.json')):
    meta = json.load(open(name))
    rows.append('| `{}` | {} | {} |'.format(name.split('/')[-2], meta['what_it_breaks'], meta['needs']))
text = '''## 6. Planted bugs

Every planted bug builds, passes the existing tests, and has a demonstration that fails only with
it. Each was written from the text of a property and the code. Each of them is reported by the
check of the property that it is named after (quick tier, seed 1); some are reported by others, too
(C11 and C23 notice many that the C04-C08 checks are meant for). Those that were missed at first
led to: look-alike atoms (1/True/1.0) in keys and raw arguments, operands that are the same object,
large operands, operands that know about themselves, lookups of parts of the operand, imports that
run while another one is being read, ambiguous hashes (couplets with exchanged components).

| Bug | What it breaks | What it needs |
| --- | --- | --- |
''' + '\n'.join(rows) + '\n'
path = '/verif/DESIGN.md'
doc = open(path).read()
start = doc.find('## 6. ')
end = doc.find('## 7. ')
if start < 0:
    doc = doc.rstrip() + '\n\n' + text
else:
    doc = doc[:start] + text + ('\n' + doc[end:] if end > 0 else '')
open(path, 'w').write(doc)
