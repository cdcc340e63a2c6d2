"""Writes DESIGN.md from tools/design/ and what the modules say of themselves."""
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)


def read(name):
    with open(os.path.join(HERE, 'design', name)) as f:
        return f.read()


def wrap(s, ind='', sub=None):
    return textwrap.fill(
        ' '.join(s.split()), 78, initial_indent=ind,
        subsequent_indent=ind if sub is None else sub)


def main():
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        props = [json.loads(line) for line in f]
    extra = json.loads(read('extra.json'))
    out = [read('head.md')]
    for p in props:
        m = importlib.import_module('harness.props.' + p['id'].lower())
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append(wrap('**Generated, oracle, non-trivial.** ' + m.RULE))
        out.append('')
        ex = extra.get(p['id'], {})
        if ex.get('why'):
            out.append(wrap('**Why beyond the tests.** ' + ex['why']) + '\n')
        a = list(m.ASSUMPTIONS) + ex.get('out', [])
        if a:
            out.append(wrap('**Domain and exclusions.** ' + '; '.join(a) +
                            '.') + '\n')
        out.append(wrap('**Bounds.** ' + ', '.join(
            '%s %d quick / %d thorough' % (s.name, s.quick, s.thorough)
            for s in m.SUBS) + ' generated cases.') + '\n')
    out.append(read('tail.md'))
    out.append('''## Planted bugs

Each is in `seeded/<id>/`, confirmed to pass the test suite, and reported by the
quick check of its property with seed 1 unless said otherwise here.  "at first"
marks those that the check of the time missed; it was strengthened (other
alphabets, denser histories, another accessor compared), never special-cased.
''')
    missed = set(read('missed.txt').split())
    still = set(read('still.txt').split())
    seeded = os.path.join(VERIF, 'seeded')
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, 'meta.json')) as f:
            meta = json.load(f)
        how = 'caught by %s' % meta['property']
        if name in still:
            how = 'MISSED'
        elif name in missed:
            how += ', missed at first'
        what = ' '.join((meta['needs'] + ' -- ' +
                         meta['what_it_breaks']).split())
        if len(what) > 220:
            what = what[:what.rfind(' ', 0, 217)] + ' ...'
        out.append(wrap('* %s (%s): %s' % (name, how, what), '', '  '))
    out.append('')
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
