"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')):
    by.setdefault(json.load(open(f))['property'], []).append(
        os.path.basename(os.path.dirname(f)))
rows = ['| check | planted bugs it catches (quick tier) |', '| --- | --- |']
rows += ['| %s | %s |' % (p, ', '.join(sorted(by[p]))) for p in sorted(by)]
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
text = re.sub(r'(?s)\| check \| planted.*?\n\n', '\n'.join(rows) + '\n\n',
              text)
open(path, 'w').write(text)
