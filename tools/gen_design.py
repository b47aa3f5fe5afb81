"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
mark = '## Planted changes'
text = (root / 'DESIGN.md').read_text().split(mark)[0].rstrip()
rows = []
for p in sorted((root / 'seeded').glob('*/meta.json')):
  m = json.loads(p.read_text())
  rows.append('| %s | %s | %s |' % (p.parent.name, m['property'],
                                    m['what_it_breaks'].replace('|', '/')))
text += f'''

{mark}

Each passes the 371 tests and is detected by the check of the property named (run
`tools/run_seeds.sh` to repeat); `seeded/<id>/demo.sh` shows the wrong behaviour.

| id | caught by | what it breaks |
|---|---|---|
''' + '\n'.join(rows) + '\n'
(root / 'DESIGN.md').write_text(text)
