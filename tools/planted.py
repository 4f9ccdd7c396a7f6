"""Rewrite the table of planted bugs of DESIGN.md, from seeded/*/meta.json (development only):  python3 tools/planted.py"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs'


def main():
    rows = []
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        meta = json.load(open(path))
        rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(path)), meta['property'], meta['needs'], meta.get('caught_by', meta['property'])))
    name = os.path.join(HERE, 'DESIGN.md')
    text = open(name).read()
    if MARK in text:
        text = text[:text.index(MARK)]
    text += MARK + '\n\n%d changes of kalepy that pass its existing tests (`seeded/`). "Caught by" names the checks that reported it in the quick tier.\n\n' % len(rows)
    text += '| id | property | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
    open(name, 'w').write(text)


if __name__ == '__main__':
    main()
