from rules.common import *

P = CR + 'response::parameters::'
VT, ITEM = P + 'VpToken', P + 'VpTokenItem'
QUICK_ELEMS = 3
TECHNIQUE = 'static dataflow over MIR: the token\'s map after every operation, as a term over the map before it and the arguments'
OBJECTS = ('ssi_claims::ssi_vc::v1::JsonPresentation', 'ssi_claims::ssi_vc::v2::syntax::JsonPresentation', 'ssi_claims::ssi_vc::AnyJsonPresentation',
           'ssi_claims::ssi_vc::v2::syntax::JsonPresentation<ssi_claims::ssi_vc::v2::SpecializedJsonCredential<ssi_json_ld::json_ld_syntax::Object>>',
           'ssi_claims::ssi_data_integrity::DataIntegrity<ssi_claims::ssi_vc::AnyJsonPresentation, ssi_claims::ssi_data_integrity::AnySuite>',
           'ssi_claims::ssi_data_integrity::DataIntegrity<ssi_claims::ssi_data_integrity::DataIntegrityDocument, ssi_claims::ssi_data_integrity::AnySuite>')


def check(c):
    e = c.e
    T, ID, PS, OTHER = arg('token'), arg('id'), arg('presentations'), arg('other')
    own = fld(T, '0')
    EMPTY = ('obj', None, ())

    def text(t):
        """the id an impl Into<String> argument denotes"""
        while t[0] == 'app' and t[1] in ('from', 'into', 'str'):
            t = t[-1]
        return t

    def entries(q, t, base):
        m = f0(t)
        q.need(m == base or m[0] == 'obj' and (m[1] == base or base == EMPTY and m[1] is None), f'other entries are not kept: {show(m)[:200]}')
        return {} if m == base else {text(k): v for k, v in m[2]}

    def stored(base):
        def spec(q):
            t = q.after('token') if base == own else q.val
            d = entries(q, t, base)
            q.need(set(d) == {ID}, f'stored under {[show(k)[:80] for k in d]}')
            q.same(d[ID], PS, 'presentations stored')
            return True
        return spec
    c.check('insert', VT + '::insert', stored(own), [mut('token', T), ID, PS])
    c.check('with-credential', VT + '::with_credential', stored(EMPTY), [ID, PS])

    def empty(q):
        q.need(f0(q.val) == EMPTY, f'a new token is {show(q.val)[:100]}')
        return True
    c.check('new', VT + '::new', empty, [])
    c.check('default', f'<{VT} as std::default::Default>::default', empty, [])

    def get(q):
        if q.haskey(own, ID):
            q.need(q.some(q.val), 'a stored id is not found')
            v = pl(q.val, 'Some')
            # looked up, or found by walking the entries
            walked = any(v == fld(('el', own, i), '1') and q.eqv(fld(('el', own, i), '0'), ID) for i in range(e.ELEMS))
            if not walked:
                q.same(v, pl(M.map_get(own, ID), 'Some'), 'presentations found')
        else:
            q.need(not q.some(q.val), 'an id that is not stored is found')
        return True
    c.check('get', VT + '::get', get, [T, ID])

    def is_empty(q):
        b = q.ask(q.val)
        q.need(b == q.ask(('isempty', own)), f'is_empty answers {b} wrongly')
        return True
    c.check('is-empty', VT + '::is_empty', is_empty, [T], min_ok=1)

    def length(q):
        n = q.val
        if n == ('len', own) or n == ('app', 'len', own):
            return True
        q.need(n[0] in ('n', 'int'), f'length is {show(n)[:200]}')
        k = q.count(own)
        q.need(n[1] == k, f'length of a token with {k} entries is {n[1]}')
        return True
    c.check('len', VT + '::len', length, [T])

    def iterate(q):
        if q.val == ('it', 'src', own, 0):
            return True
        got = q.choose([r for r in M.materialise(e, q.st, q.val) if isinstance(r, tuple)])
        n = q.count(own)
        want = [('el', own, i) for i in range(n)]
        got = [x[1][0][1] if x[0] == 'tup' and x[1][0][0] == 'fld' and x[1] == (fld(x[1][0][1], '0'), fld(x[1][0][1], '1')) else x for x in got]
        q.need(got == want, f'iteration over {n} entries yields {[show(x)[:80] for x in got]}')
        return True
    c.check('iter', VT + '::iter', iterate, [T])

    # items
    X = arg('presentation')

    def string(q):
        v = q.variant(q.val, ('String', 'JsonObject'))
        q.need(v == 'String', 'text does not become a string item')
        q.same(pl(q.val, 'String'), X, 'text of the item')
        return True
    c.check('item-from-text', f'<{ITEM} as std::convert::From<std::string::String>>::from', string, [X])

    def obj(q):
        v = q.variant(q.val, ('String', 'JsonObject'))
        q.need(v == 'JsonObject', 'a JSON presentation does not become an object item')
        got = pl(q.val, 'JsonObject')
        ser = next((k[1] for k in q.st.pos if k[0] == 'is' and k[1][:2] == ('app', 'to_value') and k[1][-1] == X), None)
        q.need(got[0] == 'pl' and got[2] == 'Object' and (ser is not None and got[1] == pl(ser, 'Ok') or got[1][:2] == ('app', 'value') and got[1][-1] == X), f'the item is not the JSON of the presentation: {show(got)[:200]}')
        return True
    found = [r['path'] for r in e.roots if r['path'].startswith(f'<{ITEM} as std::convert::From<') and r['path'].endswith('>::from') and 'String' not in r['path'].split('From<')[1]]
    c.fact('item-conversions', len(found) >= len(OBJECTS), f'conversions of JSON presentations to items are missing: {found}', ITEM)
    for p in found:
        c.check('item-from-json', p, obj, [X])

    # on the wire: the map as it is, items by kind
    def ser(q):
        if not q.is_ok:
            return False
        q.same(q.okval, jstr(pl(X, 'String')), 'JSON of a string item') if q.variant(X, ('String', 'JsonObject')) == 'String' else q.same(q.okval, adt(JV, 'Object', pl(X, 'JsonObject')), 'JSON of an object item')
        return True
    c.wire('item-json', 'VpTokenItem', 'ser', ser, X, types=('VpTokenItem',), min_ok=2)
    J = arg('json')

    def de(q):
        if not q.is_ok:
            q.need(not q.json(J, 'String') and not q.json(J, 'Object'), 'a string or object item is refused')
            return False
        k = q.variant(q.okval, ('String', 'JsonObject'))
        want = {'String': 'String', 'JsonObject': 'Object'}[k]
        q.need(q.json(J, want), f'JSON that is not a {want} is read as {k}')
        q.same(pl(q.okval, k), pl(J, want), 'content of the item')
        return True
    c.wire('item-read', 'VpTokenItem', 'de', de, J, types=('VpTokenItem',), min_ok=2)
