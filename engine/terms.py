"""Value-provenance terms of the abstract domain.

A term says where a value comes from: an input, a constant, a projection of another term, or the result of a
named operation on terms.  Terms are plain tuples, so equality is structural.
"""
OPT = 'std::option::Option'
RES = 'std::result::Result'
JV = 'serde_json::Value'

UNIT = ('tup', ())


def S(x): return ('s', x)
def N(x): return ('n', x)
def B(x): return ('b', bool(x))


TRUE, FALSE = B(True), B(False)
CONSTS = ('s', 'n', 'b', 'by')


def is_const(t): return isinstance(t, tuple) and t and t[0] in CONSTS


def adt(path, vname, *fields): return ('adt', path, vname, tuple(fields))


NONE = adt(OPT, 'None')
def SOME(x): return adt(OPT, 'Some', x)
def OK(x): return adt(RES, 'Ok', x)
def ERR(x): return adt(RES, 'Err', x)


ANYERR = ('anyerr',)


def app(name, *args): return ('app', name) + tuple(args)


def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            sub = p[1]
        elif p == ('arr', ()):
            sub = ()
        else:
            sub = (p,)
        for q in sub:
            if q[0] == 's' and not q[1]:
                continue
            if out and q[0] == 's' and out[-1][0] == 's':
                out[-1] = S(out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return S('')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def pl(v, vname, i=0):
    """payload i of variant vname"""
    if v[0] == 'adt':
        return v[3][i] if v[2] == vname and i < len(v[3]) else ('bad', v, vname)
    if v[0] == 'upd':
        for (k, x) in v[2]:
            if k == (vname, i):
                return x
        return pl(v[1], vname, i)
    return ('pl', v, vname, i)


def fld(v, name):
    if v[0] == 'upd':
        for (k, x) in v[2]:
            if k == name:
                return x
        return fld(v[1], name)
    return ('fld', v, name)


class H:
    """shared argument list of an external call: compared by content, hashed once, not searched by walk"""
    __slots__ = ('v', 'h')
    tab = {}

    def __new__(cls, v):
        r = cls.tab.get(v)
        if r is None:
            r = object.__new__(cls)
            r.v, r.h = v, hash(v)
            cls.tab[v] = r
        return r

    def __hash__(s): return s.h
    def __eq__(s, o): return s is o
    def __repr__(s): return f'H{s.h}'


def jstr(x): return adt(JV, 'String', x)


def walk(t):
    """all sub-terms"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub):
    return any(x == sub for x in walk(t))


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def show(t, depth=0):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return '()'
    k = t[0]
    if k == 's':
        return repr(t[1])
    if k in ('n', 'b'):
        return str(t[1])
    if depth > 12:
        return '…'
    d = depth + 1
    if k == 'adt':
        nm = t[1].split('::')[-1]
        h = t[2] if nm in ('Option', 'Result') or t[2] == nm else nm + '::' + t[2]
        return h + ('(' + ', '.join(show(x, d) for x in t[3]) + ')' if t[3] else '')
    if k == 'pl':
        return f'{show(t[1], d)}.{t[2]}{"" if t[3] == 0 else t[3]}'
    if k == 'fld':
        return f'{show(t[1], d)}.{t[2]}'
    if k == 'app':
        a = t[3:] if len(t) > 2 and isinstance(t[2], str) and '::' in t[1] else t[2:]
        return f'{t[1].split("::")[-1]}(' + ', '.join(show(x, d) for x in a) + ')'
    if k == 'cat':
        return ' ++ '.join(show(x, d) for x in t[1])
    if k in ('tup', 'arr'):
        return ('(' if k == 'tup' else '[') + ', '.join(show(x, d) for x in t[1]) + (')' if k == 'tup' else ']')
    if k == 'arg':
        return t[1]
    if k == 'call':
        return f'{t[1]}(' + ', '.join(show(x, depth + 6) for x in t[2].v) + ')' + (f'#{t[3]}' if t[3] else '')
    if k == 'get':
        return f'{show(t[1], d)}[{show(t[2], d)}]'
    if k == 'obj':
        return '{' + (show(t[1], d) + ' with ' if t[1] else '') + ', '.join(
            f'{show(a, d)}: {show(b, d) if b else "deleted"}' for a, b in t[2]) + '}'
    return str(k) + '(' + ', '.join(show(x, d) for x in t[1:]) + ')'
