from rules.common import *

CM = PAR + 'ClientMetadata'
VPARAM = CR + 'metadata::parameters::verifier::'
TECHNIQUE = 'static dataflow over MIR: every getter\'s result as a term over the member of the specification name, compared with the parse of that member'
DCQL = CR + 'dcql_query::DcqlQuery'
CM_KEY = 'client_metadata'


def check(c):
    R, MD = arg('request'), arg('metadata')

    def parse(q, ty, v):
        return q.run(f'<{ty} as std::convert::TryFrom<serde_json::Value>>::try_from', v)

    def request_map(q):
        return untyped(q.run(f'<{ARO} as std::ops::Deref>::deref', R))

    def reads(q, ty, key, m, r, what):
        """r (a Result) is the parse of the present member"""
        p = parse(q, ty, pl(member(m, key), 'Some'))
        good = q.ok(p)
        q.need(q.ok(r) == good, f'a {"well-formed" if good else "malformed"} {what} is {"refused" if good else "accepted"}')
        if good:
            q.same(pl(r, 'Ok'), pl(p, 'Ok'), what)
        return good

    def optional(ty, key, mapof):
        def spec(q):
            m = mapof(q)
            o = member(m, key)
            if not q.some(o):
                q.need(not q.some(q.val), f'an absent {key} is reported')
                return True
            q.need(q.some(q.val), f'a present {key} is reported as absent')
            reads(q, ty, key, m, pl(q.val, 'Some'), key)
            return True
        return spec

    def required(ty, key, mapof):
        def spec(q):
            m = mapof(q)
            if not q.some(member(m, key)):
                q.need(not q.is_ok, f'an absent {key} is reported as a value')
                return True
            return reads(q, ty, key, m, q.val, key)
        return spec

    def of_metadata(q):
        return untyped(f0(MD))

    def of_request_metadata(q):
        """the map inside the client_metadata of the request, when that parses"""
        return untyped(f0(pl(parse(q, CM, pl(member(request_map(q), CM_KEY), 'Some')), 'Ok')))

    c.check('dcql-query', ARO + '::dcql_query', optional(DCQL, 'dcql_query', request_map), [R], min_ok=2)
    c.check('state', ARO + '::state', optional(PAR + 'State', 'state', request_map), [R], min_ok=2)
    c.check('client-metadata', ARO + '::client_metadata', required(CM, CM_KEY, request_map), [R])
    c.check('jwks', CM + '::jwks', optional(VPARAM + 'JWKs', 'jwks', of_metadata), [MD], min_ok=2)
    c.check('vp-formats', CM + '::vp_formats', required(VPARAM + 'VpFormats', 'vp_formats_supported', of_metadata), [MD])

    def formats(q):
        m = request_map(q)
        if not q.some(member(m, CM_KEY)) or not q.ok(parse(q, CM, pl(member(m, CM_KEY), 'Some'))):
            q.need(not q.is_ok, 'formats are reported without a readable client_metadata')
            return False
        return required(VPARAM + 'VpFormats', 'vp_formats_supported', of_request_metadata)(q)
    c.check('request-vp-formats', ARO + '::vp_formats', formats, [R])

    def resolve(q):
        m = request_map(q)
        if q.some(member(m, CM_KEY)):
            return reads(q, CM, CM_KEY, m, q.val, CM_KEY)
        q.need(q.is_ok, 'an absent client_metadata is an error')
        q.need(untyped(f0(q.okval)) == ('obj', None, ()), f'an absent client_metadata reads as {show(q.okval)[:200]}')
        return True
    c.check('resolve', CM + '::resolve', resolve, [R], min_ok=2)

    ENC = VPARAM + 'EncryptedResponseEncValuesSupported'

    def enc(q):
        m = of_metadata(q)
        key = 'encrypted_response_enc_values_supported'
        if q.some(member(m, key)):
            return reads(q, ENC, key, m, q.val, key)
        q.need(q.is_ok, 'absent content-encryption values are an error')
        q.need(f0(q.okval) == ('arr', (S('A128GCM'),)), f'absent content-encryption values read as {show(q.okval)[:200]}')
        return True
    c.check('enc-values', CM + '::encrypted_response_enc_values_supported', enc, [MD], min_ok=2)

    # what the parse of these members is
    J = arg('json')

    def list_of_text(q):
        sl = StrList(q, J)
        q.need(q.is_ok == sl.wellformed(), 'content-encryption values: a list of text is refused or something else accepted')
        if not q.is_ok:
            return False
        l = f0(q.okval)
        q.need(sl.coll is not None and l == sl.coll or l[0] == 'arr' and all(x == pl(('el', pl(J, 'Array'), i), 'String') for i, x in enumerate(l[1])), f'content-encryption values: {show(l)[:200]}')
        return True
    c.check('enc-values-parse', f'<{ENC} as std::convert::TryFrom<serde_json::Value>>::try_from', list_of_text, [J])

    def metadata(q):
        if not q.is_ok:
            q.need(not q.json(J, 'Object'), 'a JSON object is refused as client_metadata')
            return False
        q.need(q.json(J, 'Object'), 'JSON that is not an object is accepted as client_metadata')
        q.same(untyped(f0(q.okval)), pl(J, 'Object'), 'client_metadata')
        return True
    old, c.e.wire = c.e.wire, ('UntypedObject', 'ClientMetadata')
    c.check('client-metadata-parse', f'<{CM} as std::convert::TryFrom<serde_json::Value>>::try_from', metadata, [J])
    c.e.wire = old

    def keyset(q):
        if q.json(J, 'Array'):
            return False        # the positional form serde also offers
        m = q.json(J, 'Object')
        o = member(pl(J, 'Object'), 'keys') if m else None
        l = m and q.some(o) and q.json(pl(o, 'Some'), 'Array')
        if not l:
            q.need(not q.is_ok, 'a key set without a list of keys is accepted')
            return False
        arr = pl(pl(o, 'Some'), 'Array')
        whole = ('app', 'from_value', 'std::vec::Vec<serde_json::Map<std::string::String, serde_json::Value>>', pl(o, 'Some'))
        if ('is', whole) in q.st.pos:
            q.need(q.is_ok == q.ok(whole), 'the key set is not the parse of its list of keys')
            if q.is_ok:
                q.same(sf(q.e, q.okval, 'keys'), pl(whole, 'Ok'), 'keys of the key set')
            return q.is_ok
        n = q.count(arr)
        good = all(q.json(('el', arr, i), 'Object') for i in range(n))
        q.need(q.is_ok == good, f'a {"well-formed" if good else "malformed"} key set is {"refused" if good else "accepted"}')
        if not good:
            return False
        ks = sf(q.e, q.okval, 'keys')
        q.need(ks == ('pl', pl(o, 'Some'), 'Array') or ks[0] == 'arr' and len(ks[1]) == n, f'keys of the key set: {show(ks)[:200]}')
        for i in range(n):
            q.same(ks[1][i] if ks[0] == 'arr' else ('el', ks, i), pl(('el', arr, i), 'Object'), 'key of the key set')
        return True
    old, c.e.wire = c.e.wire, ('JWKs',)
    c.check('jwks-parse', f'<{VPARAM}JWKs as std::convert::TryFrom<serde_json::Value>>::try_from', keyset, [J])
    c.e.wire = old

    def id_token(q):
        t = q.run(ARO + '::response_type', R)
        k = q.variant(t, ('VpToken', 'VpTokenIdToken', 'Unsupported'))
        if k == 'Unsupported':
            q.need(not q.some(q.val), 'whether an unsupported response type wants an ID token is claimed to be known')
        else:
            q.need(q.some(q.val), f'{k}: not answered')
            q.need(q.ask(pl(q.val, 'Some')) == (k == 'VpTokenIdToken'), f'{k}: wrong answer')
        return True
    c.check('id-token', ARO + '::is_id_token_requested', id_token, [R], min_ok=3)

    # plain getters hand out what the request holds, and the JSON of the request keeps every member
    seen = {}
    for g in ('client_id', 'response_mode', 'response_type', 'return_uri', 'nonce'):
        seen[g] = c.value('getter', f'{ARO}::{g}', R)
    c.fact('distinct-getters', len(set(seen.values())) == len(seen) and all(contains(v, R) for v in seen.values()), f'getters do not read distinct parts of the request: { {g: show(v) for g, v in seen.items()} }', ARO)
