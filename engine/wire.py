"""Wire formats: the bodies of Serialize / Deserialize (derived or written by hand) analysed against a data-model
serializer and deserializer.

Serialising gives a term of the serde data model, written with the constructors of serde_json::Value (plus Bytes);
deserialising starts from such a term.  The names a type has on the wire, the members it leaves out, the variants it
accepts are therefore read off the code the compiler generated, not off attributes.

Tokens:  ('ser', fl)            a Serializer             ('sst', map, fl) / ('ssq', items, fl)   its compound states
         ('de', x, fl)          a Deserializer of x      ('ma', map, names, i, cur, fl)          MapAccess
         ('sa', arr, i, fl)     SeqAccess                ('ea', x, fl), ('va', x, fl)            EnumAccess, VariantAccess
         ('content', x, fl)     serde's buffered Content
fl is the format: 'json', 'form' (members are strings) or 'cbor'.
"""
import re
from .terms import *
from .models import model, osplit, rsplit, is_stringy, strip_ref, map_put, map_get, jsplit, has_index, MODELS, TRAIT_MODELS, JVARS, UNDEF
from . import models as M
from .core import Outcome

FLAT = 'FlatMapSerializer'
DERR = ('errof', ('de',))


def names(e):
    """indices into the program: (de)serialisation bodies by the ADT they are for"""
    r = getattr(e, '_wire', None)
    if r is None:
        r = e._wire = {'de': {}, 'ser': {}, 'vis': {}, 'fv': {}}
        for x in e.roots:
            t = x.get('trait')
            if t == 'serde::Deserialize' and x['name'] == 'deserialize':
                k = adt_of(e, e.T[x['output']].get('args', [None])[0])
                if k is not None:
                    r['de'][k] = x['id']
            elif t == 'serde::Serialize' and x['name'] == 'serialize':
                k = adt_of(e, x['inputs'][0])
                if k is not None:
                    r['ser'][k] = x['id']
            elif t == 'serde::de::Visitor':
                k = adt_of(e, x['inputs'][0])
                r['vis'][(k, x['name'])] = x['id']
                if x['name'] in ('visit_str', 'visit_borrowed_str'):
                    o = adt_of(e, (e.T[x['output']].get('args') or [None])[0])
                    r['fv'].setdefault(o, {})[x['name']] = (k, x['id'])
            elif t == 'serde::de::DeserializeSeed':
                r['vis'][(adt_of(e, x['inputs'][0]), 'seed')] = x['id']
    return r


def adt_of(e, t):
    if t is None or not isinstance(t, int):
        return None
    t = e.T[t]
    while t['k'] == 'ref':
        t = e.T[t['t']]
    return t.get('adt') if t['k'] == 'adt' else None


def tyid(e, s):
    """type id of a printed type"""
    c = getattr(e, '_tyid', None)
    if c is None:
        c = e._tyid = {t['s']: i for i, t in enumerate(e.T)}
    return c.get(s)


def genv(e, s):
    for env in reversed(getattr(e, '_genv', ())):
        for k, v in env.items():
            s = re.sub(r'(?<![\w:])' + k + r'(?![\w:])', lambda m: v, s)
    return s


def local(e, ty, which):
    """the body that (de)serialises a type of the repository, or None"""
    s = strip_ref(ty)
    i = tyid(e, s)
    k = adt_of(e, i) if i is not None else None
    if k is None:
        b = s.split('<')[0]
        c = [j for j, a in enumerate(e.A) if a['path'] == b and a['local']]
        k = c[0] if len(c) == 1 else None
    if k is None or not e.A[k]['local']:
        return None
    return names(e)[which].get(k)


def scoped(e, ty, fn):
    """run fn with the generic parameters of a local type bound"""
    s = strip_ref(ty)
    env = {}
    if s.endswith('>') and '<' in s:
        b = s.split('<')[0]
        args = split_args(s[s.index('<') + 1:-1])
        args = [a for a in args if not a.startswith("'")]
        ps = getattr(e, '_params', None)
        if ps is None:
            ps = e._params = {}
            for x in e.roots:
                m = re.match(r"(?:.* for |<)?([\w:]+)<([^<>]*)>", x.get('impl_self') or '')
                if m:
                    ps.setdefault(m.group(1), [p.strip() for p in m.group(2).split(',') if not p.strip().startswith("'")])
        for p, a in zip(ps.get(b, []), args):
            if p != a:
                env[p] = a
    if not env:
        return fn()
    g = e._genv = list(getattr(e, '_genv', ())) + [env]
    try:
        return fn()
    finally:
        e._genv = g[:-1]


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def inner(t):
    return t[t.index('<') + 1:-1]


def expand(e, ty):
    """is this local type written out on the wire, or left as an opaque sub-document?"""
    w = e.wire
    if w is True:
        return True
    s = strip_ref(ty).split('<')[0]
    return any(s == x or s.endswith('::' + x) for x in w)


# ------------------------------------------------------------------ deserialising
def de(e, st, ty, d):
    """[(state, Result)] of deserialising a value of type ty"""
    ty = genv(e, ty)
    if ty == 'serde::de::IgnoredAny':
        return [(st, OK(UNIT))]
    if d[0] != 'de':
        return [(st, ('app', 'deserialize', ty, e.deep(st, d)))]
    x, fl = e.deref(st, d[1]), d[2]
    if ty.startswith('std::option::Option<'):
        out = []
        if fl == 'form':
            return bindok(e, de(e, st, inner(ty), d), lambda s, v: [(s, OK(SOME(v)))])
        for s, n in jsplit(e, st, x, 'Null'):
            if n == 'Null':
                out.append((s, OK(NONE)))
            else:
                out += bindok(e, de(e, s, inner(ty), d), lambda s2, v: [(s2, OK(SOME(v)))])
        return out
    if ty.startswith(('std::boxed::Box<', 'std::sync::Arc<', 'std::borrow::Cow<')):
        return de(e, st, split_args(inner(ty))[-1], d)
    if fl == 'cbor' and ty in ('serde_bytes::ByteBuf',):
        return [(s, OK(pl(x, 'Bytes')) if n == 'Bytes' else ERR(DERR)) for s, n in e.split_eq(st, x, 'Bytes', JVARS + ('Bytes',))]
    if ty in ('()',):
        return [(s, OK(UNIT) if n == 'Null' else ERR(DERR)) for s, n in jsplit(e, st, x, 'Null')]
    b = local(e, ty, 'de')
    if b is not None and expand(e, ty):
        return scoped(e, ty, lambda: e.inline(st, b, [d]))
    if x[:2] == ('app', 'value') and x[2] == ty:
        return [(st, OK(x[3]))]
    if ty.startswith('std::vec::Vec<') and inner(ty) != JV:
        out = []
        for s, n in jsplit(e, st, x, 'Array'):
            if n != 'Array':
                out.append((s, ERR(DERR))); continue
            arr = pl(x, 'Array')
            if arr[0] != 'arr':
                out.append((s, ('app', 'from_value', ty, x)))
                continue
            cur = [(s, ())]
            for y in arr[1]:
                nxt = []
                for s2, acc in cur:
                    for r in de(e, s2, inner(ty), ('de', y, fl)):
                        if isinstance(r, Outcome):
                            out.append(r); continue
                        for s3, n3 in rsplit(e, r[0], r[1]):
                            if n3 == 'Err':
                                out.append((s3, ERR(DERR)))
                            else:
                                nxt.append((s3, acc + (pl(r[1], 'Ok'),)))
                cur = nxt
            out += [(s2, OK(('arr', acc))) for s2, acc in cur]
        return out
    w, e.wire = e.wire, None
    try:
        return M.from_value(e, st, ty, x)
    finally:
        e.wire = w


def bindok(e, rs, k):
    out = []
    for r in rs:
        if isinstance(r, Outcome):
            out.append(r); continue
        for s, n in rsplit(e, r[0], r[1]):
            out += [(s, ERR(DERR))] if n == 'Err' else k(s, pl(r[1], 'Ok'))
    return out


def visit(e, st, f, v, meth, *args):
    """call a Visitor method on the visitor v, whose type is the last generic argument of the call f"""
    k = adt_of(e, f['args'][-1])
    b = names(e)['vis'].get((k, meth))
    if b is None:
        return [(st, ERR(DERR))]
    return e.inline(st, b, [v] + list(args))


def visit_any(e, st, f, v, d, kinds=None):
    """dispatch on the kind of value, as a self-describing format does"""
    x, fl = e.deref(st, d[1]), d[2]
    k = adt_of(e, f['args'][-1])
    if 'UntaggedUnitVisitor' in e.ts(f['args'][-1]) and k is not None and not e.A[k]['local']:
        return [(s, OK(UNIT) if n == 'Null' else ERR(DERR)) for s, n in jsplit(e, st, x, 'Null')]
    vis = names(e)['vis']
    out = []
    cur = [st]
    tab = [('String', 'visit_str'), ('Bool', 'visit_bool'), ('Null', 'visit_unit'), ('Array', 'visit_seq'), ('Object', 'visit_map')]
    if fl == 'cbor':
        tab.append(('Bytes', 'visit_bytes'))
    for kind, meth in tab:
        ms = [m for m in ([meth] + {'visit_str': ['visit_string', 'visit_borrowed_str'], 'visit_unit': ['visit_none']}.get(meth, [])) if (k, m) in vis]
        if not ms or (kinds and kind not in kinds):
            continue
        nxt = []
        for s in cur:
            for s2, n in e.split_eq(s, x, kind, JVARS):
                if n != kind:
                    nxt.append(s2); continue
                a = {'String': lambda: [pl(x, 'String')], 'Bool': lambda: [pl(x, 'Bool')], 'Null': lambda: [], 'Bytes': lambda: [pl(x, 'Bytes')],
                     'Array': lambda: [('sa', pl(x, 'Array'), 0, fl)], 'Object': lambda: [('ma', pl(x, 'Object'), None, 0, None, fl)]}[kind]()
                out += e.inline(s2, vis[(k, ms[0])], [v] + a)
        cur = nxt
    return out + [(s, ERR(DERR)) for s in cur]


def dmodel(*ms):
    def w(fn):
        def g(e, st, f, a, o):
            d = e.deref(st, a[0])
            if d[0] != 'de':
                return None
            return fn(e, st, f, a, d)
        for m in ms:
            TRAIT_MODELS[('serde::Deserializer', m)] = g
        return fn
    return w


@dmodel('deserialize_struct', 'deserialize_map')
def _(e, st, f, a, d):
    return visit_any(e, st, f, e.deref(st, a[-1]), d, ('Object', 'Array'))


@dmodel('deserialize_any', 'deserialize_str', 'deserialize_string', 'deserialize_identifier', 'deserialize_bool', 'deserialize_bytes', 'deserialize_byte_buf', 'deserialize_unit')
def _(e, st, f, a, d):
    return visit_any(e, st, f, e.deref(st, a[-1]), d)


@dmodel('deserialize_seq', 'deserialize_tuple', 'deserialize_tuple_struct')
def _(e, st, f, a, d):
    return visit_any(e, st, f, e.deref(st, a[-1]), d, ('Array',))


@dmodel('deserialize_newtype_struct')
def _(e, st, f, a, d):
    return visit(e, st, f, e.deref(st, a[-1]), 'visit_newtype_struct', d)


@dmodel('deserialize_option')
def _(e, st, f, a, d):
    x = e.deref(st, d[1])
    v = e.deref(st, a[-1])
    out = []
    for s, n in jsplit(e, st, x, 'Null'):
        out += visit(e, s, f, v, 'visit_none') if n == 'Null' else visit(e, s, f, v, 'visit_some', d)
    return out


@dmodel('deserialize_enum')
def _(e, st, f, a, d):
    x, fl = e.deref(st, d[1]), d[2]
    v = e.deref(st, a[-1])
    return visit(e, st, f, v, 'visit_enum', ('ea', x, fl))


def fieldset(e, K):
    """[(name, field value)] that a __Field type distinguishes, and what it does with any other name"""
    c = getattr(e, '_fieldset', None)
    if c is None:
        c = e._fieldset = {}
    k = adt_of(e, K)
    if k in c:
        return c[k]
    fv = names(e)['fv'].get(k, {})
    x = fv.get('visit_str') or fv.get('visit_borrowed_str')
    if x is None:
        c[k] = None
        return None
    key = ('arg', 'wire-key')
    from .core import State
    keep, e.keep = e.keep, None
    kn, other = [], None
    try:
        for o in e.exec(x[1], [('zst', 'visitor'), key], State()):
            if o.kind != 'ret':
                continue
            n = o.st.pos.get(key)
            if n is not None:
                kn.append((n, o.val))
            else:
                other = o.val
    finally:
        e.keep = keep
    # in declaration order
    kn.sort(key=lambda q: (q[1][3][0][2] if q[1][0] == 'adt' and q[1][3] and q[1][3][0][0] == 'adt' else '', q[0]))
    c[k] = (kn, other)
    return c[k]


@model(('serde::de::MapAccess', 'next_key'))
def _(e, st, f, a, o):
    p = a[0]
    m = e.deref(st, p)
    if m[0] != 'ma':
        return None
    fs = fieldset(e, f['args'][1])
    if fs is None:
        return None
    kn, other = fs
    _, mp, seen, i, cur, fl = m
    out = []
    cst = [st]
    n = i
    while n < len(kn):
        nxt = []
        name, fv = kn[n]
        g = map_get(mp, name)
        for s in cst:
            for s2, w in osplit(e, s, g):
                if w == 'Some':
                    s2 = s2.copy() if s2 is st else s2
                    e.write(s2, p[1], p[2], ('ma', mp, seen, n + 1, name, fl))
                    out.append((s2, OK(SOME(pl(fv, 'Ok')))))
                else:
                    nxt.append(s2)
        cst = nxt
        n += 1
    for s in cst:
        if n == len(kn):
            if other is not None and other[0] == 'adt' and other[2] == 'Err':
                for s2, b in e.fork(s, ('only', mp, tuple(k for k, _ in kn))):
                    out.append((s2, OK(NONE)) if b else (s2, ERR(DERR)))
                continue
            if other is not None and other[0] == 'adt' and other[3] and other[3][0][0] == 'adt' and other[3][0][3]:
                # flatten: every other member, at once
                rest = mp
                for k, _ in kn:
                    rest = map_put(rest, k, None)
                s = s.copy()
                e.write(s, p[1], p[2], ('ma', mp, rest, n + 1, 'rest', fl))
                fv = other[3][0]
                out.append((s, OK(SOME(('adt', fv[1], fv[2], (('content', ('restkeys', rest), fl),))))))
                continue
        s = s.copy()
        e.write(s, p[1], p[2], ('ma', mp, seen, n, None, fl))
        out.append((s, OK(NONE)))
    return out


def member_of(m):
    _, mp, seen, i, cur, fl = m
    if cur == 'rest':
        return adt(JV, 'Object', seen)
    return pl(map_get(mp, cur), 'Some')


def member_in(e, st, m):
    """(state, member): every member of a form is a string"""
    v = member_of(m)
    if m[5] == 'form' and m[4] != 'rest' and v[0] != 'adt':
        st = st.copy()
        st.pos[('is', v)] = S('String')
    return st, v


@model(('serde::de::MapAccess', 'next_value'))
def _(e, st, f, a, o):
    m = e.deref(st, a[0])
    if m[0] != 'ma' or m[4] is None:
        return None
    st, v = member_in(e, st, m)
    return de(e, st, e.ts(f['args'][1]), ('de', v, m[5]))


@model(('serde::de::MapAccess', 'next_value_seed'))
def _(e, st, f, a, o):
    m = e.deref(st, a[0])
    if m[0] != 'ma' or m[4] is None:
        return None
    st, v = member_in(e, st, m)
    if 'ContentVisitor' in e.ts(f['args'][1]):
        return [(st, OK(('content', v, m[5])))]
    b = names(e)['vis'].get((adt_of(e, f['args'][1]), 'seed'))
    return e.inline(st, b, [a[1], ('de', v, m[5])]) if b is not None else None


@model(('serde::de::SeqAccess', 'next_element'))
def _(e, st, f, a, o):
    p = a[0]
    m = e.deref(st, p)
    if m[0] != 'sa':
        return None
    _, arr, i, fl = m
    out = []
    for s, b in e.fork(st, has_index(arr, i) if arr[0] != 'arr' else B(i < len(arr[1]))):
        if not b:
            out.append((s, OK(NONE))); continue
        s = s.copy()
        e.write(s, p[1], p[2], ('sa', arr, i + 1, fl))
        out += bindok(e, de(e, s, e.ts(f['args'][1]), ('de', e.index(s, arr, N(i)), fl)), lambda s2, v: [(s2, OK(SOME(v)))])
    return out


@model(('serde::de::EnumAccess', 'variant'))
def _(e, st, f, a, o):
    d = e.deref(st, a[0])
    if d[0] != 'ea':
        return None
    fs = fieldset(e, f['args'][1])
    if fs is None:
        return None
    kn, other = fs
    x, fl = d[1], d[2]
    out = []
    for s, n in jsplit(e, st, x, 'String'):
        if n == 'String':
            cst = [s]
            for name, fv in kn:
                nxt = []
                for s2 in cst:
                    for s3, t in e.eq(s2, pl(x, 'String'), name):
                        for s4, b in e.fork(s3, t):
                            if b:
                                out.append((s4, OK(('tup', (pl(fv, 'Ok'), ('va', None, fl))))))
                            else:
                                nxt.append(s4)
                cst = nxt
            for s2 in cst:
                if other is not None and other[0] == 'adt' and other[2] == 'Ok':
                    out.append((s2, OK(('tup', (pl(other, 'Ok'), ('va', None, fl))))))
                else:
                    out.append((s2, ERR(DERR)))
            continue
        for s2, n2 in jsplit(e, s, x, 'Object'):
            if n2 != 'Object':
                out.append((s2, ERR(DERR))); continue
            mp = pl(x, 'Object')
            cst = [s2]
            for name, fv in kn:
                nxt = []
                for s3 in cst:
                    for s4, w in osplit(e, s3, map_get(mp, name)):
                        if w == 'Some':
                            for s5, b in e.fork(s4, ('only', mp, (name,))):
                                out.append((s5, OK(('tup', (pl(fv, 'Ok'), ('va', pl(map_get(mp, name), 'Some'), fl)))) if b else ERR(DERR)))
                        else:
                            nxt.append(s4)
                cst = nxt
            out += [(s3, ERR(DERR)) for s3 in cst]
    return out


@model(('serde::de::VariantAccess', 'unit_variant'))
def _(e, st, f, a, o):
    d = e.deref(st, a[0])
    if d[0] != 'va':
        return None
    if d[1] is None:
        return [(st, OK(UNIT))]
    return [(s, OK(UNIT) if n == 'Null' else ERR(DERR)) for s, n in jsplit(e, st, d[1], 'Null')]


@model(('serde::de::VariantAccess', 'newtype_variant'))
def _(e, st, f, a, o):
    d = e.deref(st, a[0])
    if d[0] != 'va':
        return None
    if d[1] is None:
        return [(st, ERR(DERR))]
    return de(e, st, e.ts(f['args'][1]), ('de', d[1], d[2]))


@model(('serde::de::VariantAccess', 'struct_variant'), ('serde::de::VariantAccess', 'tuple_variant'))
def _(e, st, f, a, o):
    d = e.deref(st, a[0])
    if d[0] != 'va':
        return None
    if d[1] is None:
        return [(st, ERR(DERR))]
    return visit_any(e, st, f, e.deref(st, a[-1]), ('de', d[1], d[2]), ('Object', 'Array'))


@model(('serde::Deserialize', 'deserialize'))
def _(e, st, f, a, o):
    d = e.deref(st, a[0])
    if d[0] == 'adt' and d[1].endswith('FlatMapDeserializer'):
        d = flat_de(e, st, d)
    if d[0] != 'de':
        if len(f['args']) > 1 and e.ts(f['args'][1]).lstrip('&') in ('serde_json::Value', "'a serde_json::Value", "'_ serde_json::Value"):
            return e.M.MODELS['serde_json::from_value'](e, st, dict(f, args=[f['args'][0]]), a, o)
        return None
    return de(e, st, e.ts(f['args'][0]), d)


def flat_de(e, st, d):
    """the members a flattened field sees: those collected because no declared name matched"""
    v = e.deref(st, d[3][0])
    items = [x for x in v[1] if x != NONE] if v[0] == 'arr' else None
    if items is not None and len(items) <= 1:
        if not items:
            return ('de', adt(JV, 'Object', ('obj', None, ())), 'json')
        c = items[0][3][0][1][1]
        return ('de', c[1], c[2])
    return d


@model(('serde::de::DeserializeSeed', 'deserialize'))
def _(e, st, f, a, o):
    d = e.deref(st, a[1])
    if d[0] != 'de':
        return None
    if 'ContentVisitor' in e.ts(f['args'][0]):
        return [(st, OK(('content', e.deref(st, d[1]), d[2])))]
    return None


@model("serde::__private229::de::ContentVisitor::<'de>::new")
def _(e, st, f, a, o):
    return [(st, ('zst', 'ContentVisitor'))]


def _content_de(e, st, f, a, o):
    c = e.deref(st, a[0])
    if c[0] != 'content':
        return None
    return [(st, ('de', c[1], c[2]))]


for n in ("ContentRefDeserializer::<'a, 'de, E>::new", "ContentDeserializer::<'de, E>::new"):
    MODELS['serde::__private229::de::' + n] = _content_de


@model('serde::__private229::de::missing_field')
def _(e, st, f, a, o):
    t = genv(e, e.ts(f['args'][0]))
    return [(st, OK(NONE) if t.startswith('std::option::Option<') else ERR(DERR))]


# ------------------------------------------------------------------ serialising
def ser(e, st, ty, x, s):
    """[(state, Result)] of serialising x of type ty into the serializer s"""
    ty = genv(e, strip_ref(ty))
    x = e.deref(st, x)
    if ty.startswith('std::option::Option<'):
        out = []
        for s2, n in osplit(e, st, x):
            out += emit(e, s2, s, adt(JV, 'Null')) if n == 'None' else ser(e, s2, inner(ty), pl(x, 'Some'), s)
        return out
    if ty.startswith(('std::boxed::Box<', 'std::sync::Arc<', 'std::borrow::Cow<')):
        return ser(e, st, split_args(inner(ty))[-1], x, s)
    b = local(e, ty, 'ser')
    if b is not None and expand(e, ty):
        return scoped(e, ty, lambda: e.inline(st, b, [x, s]))
    if ty == '()':
        return emit(e, st, s, adt(JV, 'Null'))
    if ty.startswith('serde_bytes::'):
        return emit(e, st, s, adt(JV, 'Bytes', e.deep(st, x)))
    tup = ty.startswith('(') and ty != '()'
    if (ty.startswith('std::vec::Vec<') or ty.startswith('[') or tup) and (x[0] == 'arr' or tup):
        it = inner(ty) if '<' in ty and not ty.startswith('[') and not tup else ty[1:].split(';')[0].rstrip(']')
        cur, out = [(st, ())], []
        parts = [(t, x[1][i] if x[0] == 'tup' else fld(x, str(i))) for i, t in enumerate(split_args(ty[1:-1]))] if tup else [(it, y) for y in x[1]]
        for it, y in parts:
            nxt = []
            for s2, acc in cur:
                for r in ser(e, s2, it, y, ('ser', s[1] if s[0] == 'ser' else 'json')):
                    if isinstance(r, Outcome):
                        out.append(r); continue
                    for s3, n in rsplit(e, r[0], r[1]):
                        if n == 'Err':
                            out.append((s3, ERR(DERR)))
                        else:
                            nxt.append((s3, acc + (pl(r[1], 'Ok'),)))
            cur = nxt
        for s2, acc in cur:
            out += emit(e, s2, s, adt(JV, 'Array', ('arr', acc)))
        return out
    w, e.wire = e.wire, None
    try:
        v = M.to_value_term(e, ty, e.deep(st, x))
    finally:
        e.wire = w
    if v is None:
        v = app('value', ty, e.deep(st, x))
    return emit(e, st, s, v)


def emit(e, st, s, v):
    if s[0] == 'adt' and s[1].endswith(FLAT):
        p = s[3][0]
        m = e.deref(st, p)
        if m[0] == 'sst' and v[0] == 'adt' and v[2] == 'Object':
            st = st.copy()
            base, b2 = m[1], v[3][0]
            if b2[0] == 'obj':
                have = {k for k, y in base[2] if y is not None}
                for k, y in b2[2]:
                    if y is not None or k not in have:      # a member that the inner map lacks takes nothing away
                        base = map_put(base, k, y)
                if b2[1] is not None:
                    base = ('obj', b2[1], base[2]) if base[1] is None else app('merge', base, b2)
            else:
                base = ('obj', b2, base[2]) if base[1] is None else app('merge', base, b2)
            e.write(st, p[1], p[2], ('sst', base, m[2]))
            return [(st, OK(UNIT))]
        if v == adt(JV, 'Null'):
            return [(st, OK(UNIT))]
        return [(st, ERR(DERR))]
    return [(st, OK(v))]


def smodel(trait, *ms):
    def w(fn):
        def g(e, st, f, a, o):
            s = e.deref(st, a[0])
            if s[0] not in ('ser', 'sst', 'ssq') and not (s[0] == 'adt' and s[1].endswith(FLAT)):
                return None
            return fn(e, st, f, a, s)
        for m in ms:
            TRAIT_MODELS[(trait, m)] = g
        return fn
    return w


def fl_of(s):
    return s[1] if s[0] == 'ser' else s[2] if s[0] in ('sst', 'ssq') else 'json'


@smodel('serde::Serializer', 'serialize_struct', 'serialize_map')
def _(e, st, f, a, s):
    if s[0] == 'adt':
        return [(st, OK(s))]
    return [(st, OK(('sst', ('obj', None, ()), fl_of(s))))]


@smodel('serde::Serializer', 'serialize_seq', 'serialize_tuple', 'serialize_tuple_struct')
def _(e, st, f, a, s):
    return [(st, OK(('ssq', (), fl_of(s))))]


@smodel('serde::Serializer', 'serialize_struct_variant')
def _(e, st, f, a, s):
    return [(st, OK(('sst', ('obj', None, ()), fl_of(s), e.deref(st, a[3]))))]


@smodel('serde::Serializer', 'serialize_newtype_struct')
def _(e, st, f, a, s):
    return ser(e, st, e.ts(f['args'][1]), a[2], s)


@smodel('serde::Serializer', 'serialize_some')
def _(e, st, f, a, s):
    return ser(e, st, e.ts(f['args'][1]), a[1], s)


@smodel('serde::Serializer', 'serialize_unit_variant')
def _(e, st, f, a, s):
    return emit(e, st, s, jstr(a[3]))


@smodel('serde::Serializer', 'serialize_newtype_variant')
def _(e, st, f, a, s):
    return bindok(e, ser(e, st, e.ts(f['args'][1]), a[4], ('ser', fl_of(s))), lambda s2, v: emit(e, s2, s, adt(JV, 'Object', ('obj', None, ((e.deref(s2, a[3]), v),)))))


for _m, _v in (('serialize_str', 'String'), ('serialize_bool', 'Bool'), ('serialize_bytes', 'Bytes'), ('serialize_char', 'String')):
    def _(e, st, f, a, s, v=_v):
        return emit(e, st, s, adt(JV, v, e.deep(st, a[1])))
    smodel('serde::Serializer', _m)(_)
for _m in ('serialize_u8', 'serialize_u16', 'serialize_u32', 'serialize_u64', 'serialize_i8', 'serialize_i16', 'serialize_i32', 'serialize_i64', 'serialize_f64'):
    def _(e, st, f, a, s):
        return emit(e, st, s, adt(JV, 'Number', e.deep(st, a[1])))
    smodel('serde::Serializer', _m)(_)


@smodel('serde::Serializer', 'serialize_none', 'serialize_unit', 'serialize_unit_struct')
def _(e, st, f, a, s):
    return emit(e, st, s, adt(JV, 'Null'))


@smodel('serde::Serializer', 'collect_str')
def _(e, st, f, a, s):
    return emit(e, st, s, jstr(app('str', e.deep(st, a[1]))))


def put(e, st, p, k, ty, v):
    s = e.deref(st, p)
    out = []
    tgt = s[3][0] if s[0] == 'adt' else p
    fl = fl_of(e.deref(st, tgt))
    for r in ser(e, st, ty, v, ('ser', fl)):
        if isinstance(r, Outcome):
            out.append(r); continue
        for s2, n in rsplit(e, r[0], r[1]):
            if n == 'Err':
                out.append((s2, ERR(DERR))); continue
            s2 = s2.copy()
            m = e.deref(s2, tgt)
            e.write(s2, tgt[1], tgt[2], ('sst', map_put(m[1], k, pl(r[1], 'Ok')), fl) + m[3:])
            out.append((s2, OK(UNIT)))
    return out


def add(e, st, p, ty, v):
    s = e.deref(st, p)
    fl = fl_of(s)
    out = []
    for r in ser(e, st, ty, v, ('ser', fl)):
        if isinstance(r, Outcome):
            out.append(r); continue
        for s2, n in rsplit(e, r[0], r[1]):
            if n == 'Err':
                out.append((s2, ERR(DERR))); continue
            s2 = s2.copy()
            m = e.deref(s2, p)
            e.write(s2, p[1], p[2], ('ssq', m[1] + (pl(r[1], 'Ok'),), fl))
            out.append((s2, OK(UNIT)))
    return out


@smodel('serde::ser::SerializeStructVariant', 'serialize_field')
@smodel('serde::ser::SerializeStruct', 'serialize_field')
def _(e, st, f, a, s):
    return put(e, st, a[0], e.deref(st, a[1]), e.ts(f['args'][1]), a[2])


@smodel('serde::ser::SerializeStructVariant', 'skip_field')
@smodel('serde::ser::SerializeStruct', 'skip_field')
def _(e, st, f, a, s):
    return [(st, OK(UNIT))]


@smodel('serde::ser::SerializeMap', 'serialize_entry')
def _(e, st, f, a, s):
    return put(e, st, a[0], e.deep(st, a[1]), e.ts(f['args'][2]), a[2])


for _t, _ms in (('SerializeTuple', ('serialize_element',)), ('SerializeSeq', ('serialize_element',)), ('SerializeTupleStruct', ('serialize_field',))):
    @smodel('serde::ser::' + _t, *_ms)
    def _(e, st, f, a, s):
        return add(e, st, a[0], e.ts(f['args'][1]), a[1])

for _t in ('SerializeTuple', 'SerializeSeq', 'SerializeTupleStruct', 'SerializeStruct', 'SerializeStructVariant', 'SerializeMap'):
    @smodel('serde::ser::' + _t, 'end')
    def _(e, st, f, a, s):
        if s[0] == 'ssq':
            return [(st, OK(adt(JV, 'Array', ('arr', s[1]))))]
        if s[0] == 'sst':
            if len(s) > 3:
                return [(st, OK(adt(JV, 'Object', ('obj', None, ((s[3], adt(JV, 'Object', s[1])),)))))]
            return [(st, OK(adt(JV, 'Object', s[1])))]
        return [(st, OK(UNIT))]


@model(('serde::Serialize', 'serialize'))
def _(e, st, f, a, o):
    s = e.deref(st, a[1])
    if s[0] not in ('ser', 'sst') and not (s[0] == 'adt' and s[1].endswith(FLAT)):
        return None
    return ser(e, st, e.ts(f['args'][0]), a[0], s)


# ------------------------------------------------------------------ entry points of the formats
def formenc(e, st, v):
    """application/x-www-form-urlencoded text of a serialised struct"""
    if v[0] == 'adt' and v[2] == 'Object' and v[3][0][0] == 'obj':
        m = v[3][0]
        ps = tuple((k, y) for k, y in m[2] if y != adt(JV, 'Null'))
        m = ('obj', m[1], ps)
        if m[1] is None and all(y is not None and y[0] == 'adt' and y[2] in ('String', 'Bool', 'Number') for _, y in ps):
            return OK(app('formenc', m))
        return ('app', 'formenc_r', m)
    return ('app', 'formenc_r', v)


def form_ser(e, st, ty, x):
    return bindok(e, ser(e, st, ty, x, ('ser', 'form')), lambda s, v: [(s, formenc(e, s, v))])


def form_de(e, st, ty, x):
    x = e.deep(st, x)
    m = x[2] if x[0] == 'app' and x[1] == 'formenc' else ('app', 'form_map', x)
    return de(e, st, ty, ('de', adt(JV, 'Object', m), 'form'))
