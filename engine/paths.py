"""Items are known to the rules by the path they are defined at.  An item that was moved to another module (and
re-exported) keeps its name: it is found again by that name, if it is unique, and called by its known path."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, 'paths.json')


def own(d):
    """paths of the crate's own types, traits and free functions"""
    c = d['crate'] + '::'
    out = {a['path'] for a in d['adts'] if a['path'].startswith(c)}
    out |= {i['trait'] for i in d['impls'] if i['trait'] and i['trait'].startswith(c)}
    out |= {r['path'] for r in d['roots'] if r['path'].startswith(c) and '<' not in r['path'] and not r.get('impl_self') and '{' not in r['path']}
    return {p for p in out if re.fullmatch(r'[\w:]+', p)}


def load(f):
    text = open(f).read()
    # an inherent impl written in another module than its type
    text, n = re.subn(r'\bopenid4vp[\w:]*::<impl (openid4vp[\w:]*)(<[^<>"]*>)?>::', lambda m: m[1] + (f'::{m[2]}' if m[2] else '') + '::', text)
    d = json.loads(text)
    known = set(json.load(open(FILE)).get(d['crate'], []))
    have = own(d)
    gone = known - have
    if not gone:
        return d
    new, last = {}, lambda p: p.rsplit('::', 1)[-1]
    for p in have - known:
        new.setdefault(last(p), []).append(p)
    moved = {}
    for p in gone:
        cs = [q for q in new.get(last(p), ())]
        if len(cs) == 1 and len([g for g in gone if last(g) == last(p)]) == 1:
            moved[cs[0]] = p
    if not moved:
        return d
    rx = re.compile('|'.join(r'(?<![\w:])' + re.escape(q) + r'(?!\w)' for q in sorted(moved, key=len, reverse=True)))
    return json.loads(rx.sub(lambda m: moved[m.group()], text))


if __name__ == '__main__':
    import sys
    r = {}
    for f in sys.argv[1:]:
        d = json.load(open(f))
        r[d['crate']] = sorted(own(d))
    json.dump(r, open(FILE, 'w'), indent=0)
    print({k: len(v) for k, v in r.items()})
