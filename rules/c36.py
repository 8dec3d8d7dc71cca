from rules.common import *

CF = CR + 'credential_format::'
VPF = CR + 'metadata::parameters::verifier::VpFormats'
VPFS = CR + 'metadata::parameters::wallet::VpFormatsSupported'
QUICK_ELEMS = 3
TECHNIQUE = 'static dataflow over MIR: answers and updated payloads as terms over the format map, format and method'
NAMES = {'JwtVcJson': 'jwt_vc_json', 'LdpVc': 'ldp_vc', 'MsoMDoc': 'mso_mdoc', 'DcSdJwt': 'dc+sd-jwt'}
PAYLOADS = ('AlgValues', 'ProofTypeValues', 'Other')


def check(c):
    F, D, MTH, P, X = arg('formats'), arg('format'), arg('method'), arg('payload'), arg('value')
    own = fld(F, '0')

    def supports(q):
        a = q.ask(q.val)
        o = M.map_get(own, D)
        listed = False
        if q.some(o):
            k = q.variant(pl(o, 'Some'), PAYLOADS)
            listed = k != 'Other' and q.isin(pl(pl(o, 'Some'), k), MTH)
        q.need(a == listed, 'a method the format\'s own entry does not list counts as supported' if a else 'a method listed in the format\'s own entry does not count as supported')
        return a
    c.check('security-method', VPF + '::supports_security_method', supports, [F, D, MTH])

    def present(q):
        a = q.ask(q.val)
        q.need(a == q.haskey(own, D), f'a format {"without" if a else "with"} an entry counts as {"" if a else "not "}supported')
        return True
    c.check('format', VPFS + '::is_claim_format_supported', present, [F, D], min_ok=2)

    def adds(kind):
        def spec(q):
            n = q.after('payload')
            k = q.variant(P, PAYLOADS)
            if k != kind:
                q.same(n, P, f'payload of kind {k} after adding to {kind}')
                return True
            q.need(n[0] == 'adt' and n[2] == kind or n[0] == 'upd', f'kind after adding: {show(n)[:200]}')
            l, old = pl(n, kind), pl(P, kind)
            q.need(l == ('seq', (old, ('arr', (X,)))), f'list after adding: {show(l)[:200]}')
            return True
        return spec
    c.check('add-algorithm', CF + 'ClaimFormatPayload::add_alg', adds('AlgValues'), [mut('payload', P), X], min_ok=3)
    c.check('add-proof-type', CF + 'ClaimFormatPayload::add_proof_type', adds('ProofTypeValues'), [mut('payload', P), X], min_ok=3)

    C = arg('claim_format')

    def designation(q):
        k = q.variant(C, tuple(NAMES) + ('Other',))
        q.need(q.variant(q.val, tuple(NAMES) + ('Other',)) == k, f'designation of {k} is {show(q.val)[:100]}')
        if k == 'Other':
            v = pl(C, 'Other')
            named = q.json(v, 'Object') and q.ask(M.has_index(pl(v, 'Object'), 0))
            t = pl(q.val, 'Other')
            if named:
                q.same(t, fld(('el', pl(v, 'Object'), 0), '0'), 'name of another format')
        return True
    c.check('designation', CF + 'ClaimFormat::designation', designation, [C], min_ok=6)

    # designations and their names
    DES = CF + 'ClaimFormatDesignation'
    T = arg('name')

    def named(q):
        for k, n in NAMES.items():
            if q.eq(T, S(n)):
                q.need(q.variant(q.val, tuple(NAMES) + ('Other',)) == k, f'"{n}" is read as {show(q.val)[:100]}')
                return True
        q.need(q.variant(q.val, tuple(NAMES) + ('Other',)) == 'Other', f'another name is read as {show(q.val)[:100]}')
        q.same(pl(q.val, 'Other'), T, 'name of another format')
        return True
    c.check('from-text', f'<{DES} as std::convert::From<&str>>::from', named, [T], min_ok=5)
    c.check('from-string', f'<{DES} as std::convert::From<std::string::String>>::from', named, [T], min_ok=5)
    c.check('from-name', DES + '::from_name', named, [T], min_ok=5)

    def name_of(q, d, t, what):
        k = q.variant(d, tuple(NAMES) + ('Other',))
        q.same(t, pl(d, 'Other') if k == 'Other' else S(NAMES[k]), f'{what} of {k}')
        return True
    c.check('to-string', f'<impl std::convert::From<{DES}> for std::string::String>::from', lambda q: name_of(q, D, q.val, 'text'), [D], min_ok=5)
    c.check('display', f'<{DES} as std::fmt::Display>::fmt', lambda q: name_of(q, D, q.after('out'), 'text'), [D, mut('out', S(''))], min_ok=5)
    c.wire('serialize', 'ClaimFormatDesignation', 'ser', lambda q: q.is_ok and name_of(q, D, pl(q.okval, 'String'), 'JSON'), D, types=('ClaimFormatDesignation',), min_ok=5)
    J = arg('json')

    def read(q):
        if not q.is_ok:
            q.need(not q.json(J, 'String'), 'a format name is refused')
            return False
        q.need(q.json(J, 'String'), 'JSON that is not text is read as a format')
        t = pl(J, 'String')
        for k, n in NAMES.items():
            if q.eq(t, S(n)):
                q.need(q.variant(q.okval, tuple(NAMES) + ('Other',)) == k, f'"{n}" is read as {show(q.okval)[:100]}')
                return True
        q.need(q.variant(q.okval, tuple(NAMES) + ('Other',)) == 'Other', f'another name is read as {show(q.okval)[:100]}')
        q.same(pl(q.okval, 'Other'), t, 'name of another format')
        return True
    c.wire('deserialize', 'ClaimFormatDesignation', 'de', read, J, types=('ClaimFormatDesignation',), min_ok=5)

    # payloads by their wire names
    WIRE = {'AlgValues': 'alg_values', 'ProofTypeValues': 'proof_type_values'}

    def content(j):
        return j[3] if j[:2] == ('app', 'value') else j[3][0] if j[0] == 'adt' and j[2] == 'Array' else j

    def wpayload(q):
        if not q.is_ok:
            return False
        k = q.variant(P, PAYLOADS)
        j = q.okval
        if k == 'Other':
            q.same(j, pl(P, 'Other'), 'JSON of another payload')
            return True
        q.need(j[0] == 'adt' and j[2] == 'Object' and j[3][0][0] == 'obj' and j[3][0][1] is None, f'JSON of {k}: {show(j)[:200]}')
        d = dict(j[3][0][2])
        q.need(set(d) == {S(WIRE[k])}, f'{k} is written as {[show(x) for x in d]}')
        q.need(content(d[S(WIRE[k])]) == pl(P, k), f'list of {k}: {show(d[S(WIRE[k])])[:200]}')
        return True
    c.wire('payload-serialize', 'ClaimFormatPayload', 'ser', wpayload, P, types=('ClaimFormatPayload',), min_ok=3)

    def rpayload(q):
        if not q.is_ok:
            return False
        k = q.variant(q.okval, PAYLOADS)
        if k == 'Other':
            q.same(pl(q.okval, 'Other'), J, 'other payload')
            return True
        q.need(q.json(J, 'Object'), f'{k} is read from JSON that is not an object')
        o = member(pl(J, 'Object'), WIRE[k])
        q.need(q.some(o), f'{k} is read without {WIRE[k]}')
        l = pl(q.okval, k)
        q.need(contains(l, pl(o, 'Some')), f'list of {k} is {show(l)[:200]}')
        return True
    c.wire('payload-deserialize', 'ClaimFormatPayload', 'de', rpayload, J, types=('ClaimFormatPayload',), min_ok=3)

    # claim formats by their wire names
    FIELD = {'JwtVcJson': 'alg_values_supported', 'LdpVc': 'proof_type'}
    FM = arg('format')

    def wformat(q):
        if not q.is_ok:
            return False
        k, j = q.variant(FM, tuple(NAMES) + ('Other',)), q.okval
        if k == 'Other':
            q.same(j, pl(FM, 'Other'), 'JSON of another format')
            return True

        def only(j, name):
            q.need(j[0] == 'adt' and j[2] == 'Object' and j[3][0][0] == 'obj' and j[3][0][1] is None, f'JSON of {k}: {show(j)[:200]}')
            d = dict(j[3][0][2])
            q.need(set(d) == {S(name)}, f'{k} is written with {[show(x) for x in d]}')
            return d[S(name)]
        j = only(j, NAMES[k])
        if k in FIELD:
            q.need(content(only(j, FIELD[k])) == pl(FM, k), f'list of {k}: {show(j)[:200]}')
        else:
            q.same(j, pl(FM, k), f'content of {k}')
        return True
    c.wire('format-serialize', 'ClaimFormat', 'ser', wformat, FM, types=('ClaimFormat',), min_ok=5)
