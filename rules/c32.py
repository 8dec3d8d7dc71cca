from rules.common import *

D = CR + 'dcql_query::'
QUICK_ELEMS = 3
TECHNIQUE = 'static dataflow over MIR: every constructor, getter, setter and serde implementation of the query types, each field tracked as a term from where it is set to where it is read or written'

# field: (setter argument is optional, wire name); the getter is the field's name, or <name>_raw where a default applies
TYPES = {
    'DcqlQuery': {'credentials': (False, 'credentials'), 'credential_sets': (True, 'credential_sets')},
    'DcqlCredentialQuery': {'id': (False, 'id'), 'format': (False, 'format'), 'meta': (False, 'meta'), 'claims': (True, 'claims'), 'claim_sets': (True, 'claim_sets'),
                            'trusted_authorities': (True, 'trusted_authorities'), 'require_cryptographic_holder_binding': (True, 'require_cryptographic_holder_binding'), 'multiple': (True, 'multiple')},
    'TrustedAuthoritiesQuery': {'authority_type': (False, 'type'), 'values': (False, 'values')},
    'DcqlCredentialSetQuery': {'options': (False, 'options'), 'required': (True, 'required')},
    'DcqlCredentialClaimsQuery': {'id': (True, 'id'), 'path': (False, 'path'), 'values': (True, 'values'), 'intent_to_retain': (True, 'intent_to_retain')},
}
NEW = {'DcqlQuery': ('credentials',), 'DcqlCredentialQuery': ('id', 'format'), 'TrustedAuthoritiesQuery': ('authority_type', 'values'), 'DcqlCredentialSetQuery': ('options',), 'DcqlCredentialClaimsQuery': ('path',)}
DEFAULTS = {('DcqlCredentialQuery', 'require_cryptographic_holder_binding'): ('require_cryptographic_holder_binding', True), ('DcqlCredentialQuery', 'multiple'): ('multiple', False),
            ('DcqlCredentialSetQuery', 'required'): ('is_required', True)}
ENUMS = {'TrustedAuthorityType': {'Aki': 'aki', 'EtsiTl': 'etsi_tl', 'OpenidFederation': 'openid_federation'}}
LIST = ('NonEmptyVec',)   # wrapper types that are their content on the wire


def getter(c, ty, f):
    for n in (f + '_raw', f):
        if c.e.root(f'{D}{ty}::{n}') is not None:
            return f'{D}{ty}::{n}'
    raise Bad(f'anchor missing: getter of {ty}.{f}')


def bare(t):
    """a value without the wrappers that are transparent on the wire"""
    while t[0] == 'adt' and t[1].endswith('NonEmptyVec') or t[0] == 'fld' and t[2] == '0':
        t = t[3][0] if t[0] == 'adt' else t[1]
    return t


def content(j):
    """the Rust value a JSON value term was made from"""
    if j[:2] == ('app', 'value'):
        return bare(j[3])
    if j[0] == 'adt' and j[1] == JV and j[2] in ('String', 'Bool', 'Object', 'Array'):
        return bare(j[3][0])
    return j


def read(q, t, m):
    """t is what the JSON value m reads as"""
    t = bare(t)
    if t[0] == 'pl' and t[2] == 'Ok' and t[1][:2] == ('app', 'from_value'):
        return t[1][3] == m
    if t == m:
        return True
    if t[0] == 'b':
        return q.json(m, 'Bool') and q.eqv(t, pl(m, 'Bool'))
    return any(t == pl(m, k) and q.json(m, k) for k in ('String', 'Bool', 'Object', 'Array'))


def check(c):
    e = c.e
    for ty, fields in TYPES.items():
        X = arg('x')
        gets = {f: getter(c, ty, f) for f in fields}
        was = {f: c.value('getter', g, X) for f, g in gets.items()}
        c.fact('distinct-fields', len({bare(v) for v in was.values()}) == len(was) and all(contains(v, X) for v in was.values()), f'getters of {ty} do not read distinct fields: { {f: show(v) for f, v in was.items()} }', D + ty)

        def view(q, v, f):
            """what the getter of f reports, as an Option for optional fields"""
            return q.run(gets[f], v)

        def construct(q):
            for f, (opt, _) in fields.items():
                v = view(q, q.val, f)
                if f in NEW[ty]:
                    q.same(bare(v), bare(arg('new_' + f)), f'{f} of a new {ty}')
                elif opt:
                    q.need(not q.some(v), f'{f} of a new {ty} is set')
                else:
                    q.need(v == ('obj', None, ()), f'{f} of a new {ty} is not empty: {show(v)[:100]}')
            return True
        c.check('constructor', f'{D}{ty}::new', construct, [arg('new_' + f) for f in NEW[ty]])

        for f, (opt, _) in fields.items():
            V = arg('v')

            def setter(q):
                n = q.after('x')
                for g in fields:
                    got = view(q, n, g)
                    q.same(bare(got), bare(V if g == f else was[g]), f'{g} after set_{f}')
                return True
            c.check('setter', f'{D}{ty}::set_{f}', setter, [mut('x', X), V])
            if c.e.root(f'{D}{ty}::{f}_mut') is not None:
                def place(q):
                    q.same(bare(q.e.deep(q.st, q.val)), bare(was[f]), f'the place {f}_mut gives out')
                    q.same(q.after('x'), X, f'the query after {f}_mut')
                    return True
                c.check('mutable-view', f'{D}{ty}::{f}_mut', place, [mut('x', X)])
            if (ty, f) in DEFAULTS:
                name, dflt = DEFAULTS[ty, f]

                def default(q):
                    if q.some(was[f]):
                        q.same(q.val, pl(was[f], 'Some'), f'{name} with an explicit value')
                    else:
                        q.same(q.val, B(dflt), f'default of {name}')
                    return True
                c.check('default', f'{D}{ty}::{name}', default, [X], min_ok=2)

        names = {w: f for f, (_, w) in fields.items()}

        def ser(q):
            q.need(q.is_ok, 'serialization fails')
            j = q.okval
            q.need(j[0] == 'adt' and j[2] == 'Object' and j[3][0][0] == 'obj' and j[3][0][1] is None, f'not written as an object of known members: {show(j)[:200]}')
            ms = {k[1]: v for k, v in j[3][0][2]}
            for w in ms:
                q.need(w in names, f'{ty} is written with an extra member {w}')
            for f, (opt, w) in fields.items():
                v = was[f]
                if opt:
                    if not q.some(v):
                        q.need(w not in ms, f'an absent {f} is written')
                        continue
                    v = pl(v, 'Some')
                q.need(w in ms, f'{f} is not written as {w}')
                q.same(content(ms[w]), bare(v), f'member {w}')
            return True
        c.wire('serialize', ty, 'ser', ser, X, types=(ty,) + LIST)

        JO = arg('json')

        def de(q):
            if not q.json(JO, 'Object'):
                return False
            m = pl(JO, 'Object')
            if not q.is_ok:
                return False
            for f, (opt, w) in fields.items():
                o = member(m, w)
                v = view(q, q.okval, f)
                if not q.some(o):
                    q.need(opt or f == 'meta', f'a {ty} without {w} is accepted')
                    if opt:
                        q.need(not q.some(v), f'an absent {w} reads as present')
                    continue
                x = pl(o, 'Some')
                if opt:
                    if q.json(x, 'Null'):
                        q.need(not q.some(v), f'a null {w} reads as present')
                        continue
                    q.need(q.some(v), f'{w} is dropped')
                    v = pl(v, 'Some')
                q.need(read(q, v, x), f'{f} is read as {show(v)[:200]}, not from {w}')
            return True
        c.wire('deserialize', ty, 'de', de, JO, types=(ty,) + LIST)

    for en, names in ENUMS.items():
        X, JO = arg('x'), arg('json')

        def ser(q):
            q.need(q.is_ok, 'serialization fails')
            v = q.variant(X, tuple(names) + ('Other',))
            q.same(q.okval, jstr(S(names[v]) if v in names else pl(X, v)), f'{en}::{v}')
            return True
        c.wire('serialize', en, 'ser', ser, X, min_ok=2)

        def de(q):
            if not q.json(JO, 'String') or not q.is_ok:
                return False
            s = pl(JO, 'String')
            for v, w in names.items():
                if q.eq(s, S(w)):
                    q.need(q.variant(q.okval, tuple(names) + ('Other',)) == v, f"'{w}' is read as another {en}")
                    return True
            q.need(q.variant(q.okval, tuple(names) + ('Other',)) == 'Other', f'an unknown {en} is read as a known one')
            q.same(pl(q.okval, 'Other'), s, f'{en}::Other')
            return True
        c.wire('deserialize', en, 'de', de, JO, min_ok=len(names) + 1)

    # path elements and expected values keep their JSON type
    for en, kinds in (('DcqlCredentialClaimsQueryPath', {'String': 'String', 'Null': 'Null', 'Integer': 'usize'}), ('DcqlCredentialClaimsQueryValue', {'String': 'String', 'Boolean': 'Bool', 'Integer': 'isize'})):
        X, JO = arg('x'), arg('json')

        def ser(q):
            q.need(q.is_ok, 'serialization fails')
            v = q.variant(X, tuple(kinds))
            k = kinds[v]
            want = adt(JV, 'Null') if k == 'Null' else adt(JV, k, pl(X, v)) if k in ('String', 'Bool') else app('value', k, pl(X, v))
            q.same(q.okval, want, f'{en}::{v}')
            return True
        c.wire('serialize', en, 'ser', ser, X, min_ok=3)

        def de(q):
            if not q.is_ok:
                for k in ('String', 'Null', 'Bool'):
                    if k in kinds.values():
                        q.need(not q.json(JO, k), f'a {k} is refused as {en}')
                return False
            v = q.variant(q.okval, tuple(kinds))
            k = kinds[v]
            if k in ('String', 'Null', 'Bool'):
                q.need(q.json(JO, k), f'{en}::{v} is read from another type')
                if k != 'Null':
                    q.same(pl(q.okval, v), pl(JO, k), f'{en}::{v}')
            else:
                q.same(pl(q.okval, v), pl(('app', 'from_value', k, JO), 'Ok'), f'{en}::{v}')
            return True
        c.wire('deserialize', en, 'de', de, JO, min_ok=3)

    # as a request parameter
    X, JO = arg('x'), arg('json')
    old, e.wire = e.wire, True
    try:
        def into(q):
            v = q.ser(D + 'DcqlQuery', X)
            q.need(q.ok(v), 'serialization fails')
            q.same(q.val, pl(v, 'Ok'), 'parameter value')
            return True
        c.check('parameter', f'<impl std::convert::From<{D}DcqlQuery> for serde_json::Value>::from', into, [X])

        def back(q):
            v = q.de(D + 'DcqlQuery', JO)
            q.need(q.is_ok == q.ok(v), 'parameter parsing accepts something else than a query')
            if not q.is_ok:
                return False
            q.same(q.okval, pl(v, 'Ok'), 'parsed query')
            return True
        c.check('parameter', f'<{D}DcqlQuery as std::convert::TryFrom<serde_json::Value>>::try_from', back, [JO])
    finally:
        e.wire = old
