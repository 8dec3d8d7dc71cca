"""Every typed parameter: what is put into an object is what is read from it."""
from rules.common import *

J, X = arg('json'), arg('value')
QUICK_ELEMS = 2
TECHNIQUE = 'static dataflow over MIR: for every implementor of TypedParameter, its conversion to JSON composed with its conversion from JSON, as terms over an arbitrary value'


def types(e):
    return sorted({i['self'] for i in e.impls if (i['trait'] or '').endswith('object::TypedParameter')})


def to_json(c, ty):
    """(path, fallible) of the conversion to JSON"""
    p = into_json(ty)
    if c.e.root(p):
        return p, False
    return f'<impl std::convert::TryFrom<{ty}> for serde_json::Value>::try_from', True


def named(q):
    """the catch-all variant holds a known name (reading never gives that: C24)"""
    return any(k[0] == 'pl' and k[2] in ('Other', 'Unsupported') and v[0] == 's' for k, v in q.st.pos.items())


def odd(q):
    # 'Unsupported(name)' and 'Other(name)' stand for no known name; a non-empty list is not empty (C25)
    return any(k[0] == 'is' and v in (S('Other'), S('Unsupported')) or k[0] == 'isempty' and v == TRUE for k, v in q.st.pos.items())


def inverse(t):
    """(T, v) when t reads as T what was written from a value v of T (C42 decides that for the types of the crate)"""
    if t[:2] == ('app', 'from_value') and t[3][0] == 'pl' and t[3][2] == 'Ok' and t[3][1][:3] == ('app', 'to_value', t[2]):
        return t[3][1][3]
    if t[:2] == ('app', 'from_value') and t[3][:2] == ('app', 'value') and t[3][2] in (t[2], None):
        return t[3][3]
    if t[:3] == ('app', 'parse', 'url::Url') and t[3][:2] == ('app', 'str'):
        return t[3][2]
    return None


def impossible(q):
    """the path has a written value refused by its own type's reader"""
    return any(k[0] == 'is' and v == S('Err') and inverse(k[1]) is not None for k, v in q.st.pos.items())


def equal(q, a, b):
    if a == b:
        return True
    if a[0] == 'pl' and a[2] == 'Ok' and inverse(a[1]) is not None:
        return equal(q, inverse(a[1]), b)
    if a[0] == 'arr':
        if b[0] == 'arr':
            return len(a[1]) == len(b[1]) and all(equal(q, x, y) for x, y in zip(a[1], b[1]))
        return q.whole(b, len(a[1])) and all(equal(q, x, ('el', b, i)) for i, x in enumerate(a[1]))
    if b[0] == 'arr':
        return equal(q, b, a)
    if a[0] == 'adt' and q.e.adt_info(a[1]) and q.e.adt_info(a[1])['kind'] == 'struct' and a[3]:
        names = [f['name'] for f in q.e.adt_info(a[1])['variants'][0]['fields']]
        return all(equal(q, x, q.e.field(b, i, names[i])) for i, x in enumerate(a[3]))
    return q.eqv(a, b) or q.norm(a) == q.norm(b)


def same(q, a, b):
    q.need(equal(q, a, b), f'what is read is {show(a)[:300]}, not the value written, {show(b)[:300]}')


def check(c):
    c.e.wire = True
    for ty in types(c.e):
        w, fails = to_json(c, ty)
        r = try_from_json(ty)

        def put(q, fails=fails, r=r):
            if q.kind != 'ret' or fails and not q.is_ok or odd(q):
                return False
            b = q.run(r, q.okval if fails else q.val)
            if odd(q):
                return False
            if not q.ok(b) and impossible(q):
                return False
            q.need(q.ok(b), f'{show(q.okval if fails else q.val)[:300]} is put into the object and refused when read')
            same(q, pl(b, 'Ok'), X)
            return True
        c.check('put-get', w, put, [X])

        def get(q, fails=fails, w=w, r=r):
            if not q.is_ok:
                return False
            x = q.okval
            j = q.run(w, x)
            if fails:
                if not q.ok(j):    # that formats serialise is C31 and C42
                    return False
                j = pl(j, 'Ok')
            if named(q):
                return False
            b = q.run(r, j)
            if named(q):
                return False
            if not q.ok(b) and impossible(q):
                return False
            q.need(q.ok(b), f'a value that was read is written as {show(j)[:300]}, which is refused')
            same(q, pl(b, 'Ok'), x)
            return True
        c.check('get-put-get', r, get, [J])
