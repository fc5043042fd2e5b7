#!/opt/venv/bin/python
"""Writes DESIGN.md: tools/design.md, the properties, the bounds of the harnesses and the table of planted bugs."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(node, env):
    return eval(compile(ast.Expression(node), '', 'eval'), {}, env)


def harness(pid):
    src = open(os.path.join(HERE, 'harness', pid.lower() + '.py')).read()
    tree = ast.parse(src)
    out = {'DOC': (ast.get_docstring(tree) or '').split(': ', 1)[-1]}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'ASSUME'):
            out[n.targets[0].id] = const(n.value, {})
    return out


def main():
    text = open(os.path.join(HERE, 'tools', 'design.md')).read()
    notes = {}
    parts = open(os.path.join(HERE, 'tools', 'design_notes.md')).read().split('\n# ')
    for p in parts:
        head, _, body = p.strip('# \n').partition('\n')
        notes[head.strip()] = body.strip()
    out = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        h = harness(p['id'])
        out.append('### %s: %s\n' % (p['id'], p['title']))
        out.append(notes.get(p['id'], '') + '\n')
        q = h['BOUNDS']['quick']
        if p['id'] == 'C19':
            q = q.replace('every one of %d row operations', 'every one of about 90 row operations').replace('of %d of them', 'of 22 of them')
        out.append('- Bounds (quick): %s.\n- Thorough: %s.\n- Assumed / outside: %s.\n' % (q, h['BOUNDS']['thorough'], '; '.join(h['ASSUME'])))
    rows = []
    res = json.load(open(os.path.join(HERE, 'tools', 'seeded_results.json')))
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), res.get(i, 'not run')))
    text = text.replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(rows))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)


if __name__ == '__main__':
    main()
