import re
from rules.common import *
from engine.core import State

NE = 'openid4vp::utils::NonEmptyVec'
V, T = arg('list'), arg('t')


QUICK_ELEMS = 3
def inner(v):
    return f0(v)


def nonempty(q, x):
    """the list term x has an element on this path"""
    if x[0] in ('arr', 'seq'):
        return bool(x[1])
    if q.e.truth(q.st, ('isempty', x)) is False or q.e.truth(q.st, M.has_index(x, 0)) is True:
        return True
    return q.e.truth(q.st, ('isempty', x)) is not True and grown(q, x)


def grown(q, x):
    """x is a non-empty list with elements added"""
    return x[0] == 'app' and x[1] in ('push', 'append', 'concat') and any(nonempty(q, y) for y in x[2:] if y[0] != 's') or x[0] == 'app' and (x[1] == 'push' or x[1].startswith('mut:std::vec::Vec') and x[1].endswith('::insert'))


def values(q, v):
    """the non-empty lists inside a returned value"""
    if v[0] == 'adt' and v[1] == NE:
        return [v]
    if v[0] == 'adt':
        return [y for x in v[3] for y in values(q, x)]
    if v[0] in ('tup', 'arr'):
        return [y for x in v[1] for y in values(q, x)]
    return []


def check(c):
    e = c.e
    info = e.adt_info(NE)
    if not c.fact('anchor', info is not None, 'NonEmptyVec is not in the analysed program', NE):
        return
    for f in info['variants'][0]['fields']:
        c.fact('private', not f['pub'], f"field {f['name']} of NonEmptyVec is public: safe code can empty it", NE)
    mod = NE.rsplit('::', 1)[0] + '::'
    idx = next(i for i, a in enumerate(e.A) if a['path'] == NE)
    # who can touch the representation
    n = 0
    for b in e.bodies.values() if isinstance(e.bodies, dict) else e.bodies:
        for blk in b.get('blocks') or []:
            for s in (blk or [[]])[0]:
                rv = s[1]
                if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] == idx:
                    n += 1
                    c.fact('constructed-in-module', mod in b['path'] or NE in b['path'], f"a NonEmptyVec is constructed directly in {b['path']}", b['path'])
    c.fact('constructors', n > 0, 'no construction of a NonEmptyVec found', NE)

    # every operation of the type keeps it non-empty and hands out no view that could empty it
    ops = [r for r in e.roots if (NE in (r.get('impl_self') or '') or NE in r['path'].split('>::')[0]) and r['name'] not in ('deserialize', 'serialize')]
    c.fact('operations', len(ops) >= 8, f'only {len(ops)} operations of NonEmptyVec found', NE)
    for r in ops:
        ins = [e.ts(i) for i in r['inputs']]
        out = e.ts(r['output'])
        c.fact('no-mutable-view', not re.search(r"&('\w+ )?mut std::vec::Vec<|std::vec::Drain|std::vec::ExtractIf", out), f"{r['path']} hands out {out}, through which the list can be emptied", r['path'])
        args, muts = [], []
        for i, t in enumerate(ins):
            a = arg(f'a{i}')
            if re.match(r"&('\w+ )?mut " + re.escape(NE), t):
                args.append(mut(f'a{i}', a))
                muts.append(f'a{i}')
            else:
                args.append(a)
        st = assume(c, ins)

        def keeps(q):
            for m in muts:
                q.need(nonempty(q, inner(q.after(m))), f'may leave the list empty: {show(q.after(m))[:200]}')
            for v in values(q, q.val):
                q.need(nonempty(q, inner(v)), f'may give an empty list: {show(v)[:200]}')
            return True
        c.check('never-empty', r['path'], keeps, args, st=st, min_ok=1)

    # conversion fails exactly on empty input and keeps the elements
    def conv(q, v):
        if q.e.truth(q.st, ('isempty', V)) is None:
            q.ask(('isempty', V))
        if q.e.truth(q.st, ('isempty', V)):
            q.need(v is None, 'an empty list is converted')
        else:
            q.need(v is not None, 'a list with elements is refused')
            q.same(inner(v), V, 'elements')
        return True
    c.check('conversion', f'<{NE}<T> as std::convert::TryFrom<std::vec::Vec<T>>>::try_from', lambda q: conv(q, q.okval if q.is_ok else None), [V], min_ok=2)
    c.check('conversion', NE + '::<T>::maybe_new', lambda q: conv(q, pl(q.val, 'Some') if q.some(q.val) else None), [V], min_ok=2)
    c.check('single', NE + '::<T>::new', lambda q: q.same(inner(q.val), ('arr', (T,)), 'elements') or True, [T])
    c.check('back', NE + '::<T>::into_inner', lambda q: q.same(q.val, inner(V), 'elements') or True, [V])
    c.check('back', f'<impl std::convert::From<{NE}<T>> for std::vec::Vec<T>>::from', lambda q: q.same(q.val, inner(V), 'elements') or True, [V])
    c.check('view', f'<{NE}<T> as std::ops::Deref>::deref', lambda q: q.same(q.val, inner(V), 'elements') or True, [V])
    c.check('view', f'<{NE}<T> as std::convert::AsRef<[T]>>::as_ref', lambda q: q.same(q.val, inner(V), 'elements') or True, [V])
    for xs in ((arg('x'),), (arg('x'), arg('y')), (arg('x'), arg('y'), arg('z'))):
        def pushed(q):
            q.same(inner(q.after('list')), ('arr', xs + (T,)), 'elements after pushing')
            return True
        c.check('push', NE + '::<T>::push', pushed, [mut('list', adt(NE, 'NonEmptyVec', ('arr', xs))), T])

    # JSON
    J, X = arg('json'), arg('value')

    def de(q):
        if not q.is_ok:
            return False
        v = inner(q.okval)
        q.need(nonempty(q, v), f'an empty list is deserialized: {show(v)[:200]}')
        q.need(v[0] == 'pl' and v[1][:2] == ('app', 'from_value') and v[1][3] == J or v == pl(J, 'Array'), f'not the elements of the JSON array: {show(v)[:200]}')
        return True
    c.wire('deserialize', 'NonEmptyVec<std::string::String>', 'de', de, J)

    def ser(q):
        q.need(q.is_ok, 'serialization fails')
        j = q.okval
        q.need(j[:2] == ('app', 'value') and j[3] == inner(X) or j[0] == 'adt' and j[3] == (inner(X),), f'not the elements as a JSON array: {show(j)[:200]}')
        return True
    c.wire('serialize', 'NonEmptyVec<std::string::String>', 'ser', ser, X)


def assume(c, ins):
    """arguments of the type are non-empty"""
    st = State()
    for i, t in enumerate(ins):
        if NE in t:
            a = inner(arg(f'a{i}'))
            st = next(s for s, b in c.e.fork(st, ('isempty', a)) if not b)
    return st
