from rules.c29 import *

J = CR + 'jwe::'
JB = J + 'JweBuilder'
INFO = J + 'EncryptionJwkInfo'
VP = CR + 'response::parameters::VpToken'
RESP = CR + 'response::AuthorizationResponse'
QUICK_ELEMS = 3
TECHNIQUE = 'static dataflow over MIR: selected key, claims, header and encrypter of every path that produces a JWE, as terms over the inputs (josekit as a signatures-only stub)'


def jose(t):
    """short name of a josekit call"""
    return t[1].split('::')[-1] if t[0] == 'app' and 'josekit' in t[1] else None


def same_key(k):
    """a key serialised and parsed again is that key"""
    while True:
        if k[0] == 'pl' and k[2] == 'Ok' and jose(k[1]) in ('from_bytes', 'from_map'):
            x = k[1][-1]
            if x[:2] == ('app', 'json'):
                x = x[2]
            if x[0] == 'adt' and x[1] == JV and x[2] == 'Object':
                x = x[3][0]
            if x[0] == 'pl' and x[2] == 'Object':
                x = x[1]
            if x[0] == 'pl' and x[2] == 'Ok' and x[1][:2] == ('app', 'to_value'):
                k = x[1][3]
                continue
            return ('jwk', x)
        return k


def chain(q, t, what):
    """the setters applied to a fresh josekit object: [(setter, args)]"""
    out = []
    while jose(t) != 'new':
        q.need(t[0] == 'app' and t[1].startswith('mut:josekit') and t[2] == N(0), f'{what} is not built from a fresh one: {show(t)[:200]}')
        out.append((jose(t), t[4:]))
        t = t[3]
    return out[::-1]


def jwe(q, t):
    """claims, header members and key of a JWE text"""
    q.need(t[0] == 'pl' and t[2] == 'Ok' and jose(t[1]) == 'encode_with_encrypter', f'not a JWE made by the encrypter: {show(t)[:200]}')
    claims, header, enc = t[1][3:]
    cs = []
    if claims[0] == 'pl' and claims[2] == 'Ok' and jose(claims[1]) == 'from_map':
        cs = claims[1][-1]
    else:
        for n, a in chain(q, claims, 'the payload'):
            q.need(n == 'set_claim' and len(a) == 2, f'unexpected payload operation {n}')
            cs = [x for x in cs if x[0] != a[0]] + [(a[0], a[1])]
    hs = {}
    for n, a in chain(q, header, 'the header'):
        hs[n] = a
    q.need(enc[0] == 'pl' and enc[2] == 'Ok' and jose(enc[1]) == 'encrypter_from_jwk' and enc[1][3] == ('static', 'josekit::jwe::ECDH_ES'), f'not the ECDH-ES encrypter: {show(enc)[:200]}')
    return cs, hs, enc[1][4]


def recipient(q, R):
    """the response is encrypted to the key selected from the whole key set of the request"""
    cs, hs, key = jwe(q, sf(q.e, pl(q.okval, 'Jwt'), 'response'))
    md = q.run(CM + '::resolve', R)
    q.need(q.ok(md), 'metadata that does not parse is used')
    ks = keyset(q, pl(md, 'Ok'))
    q.need(ks is not None, 'the key does not come from the key set of the request')
    sel = ('app', SEL, ks)
    q.need(q.e.truth(q.st, ('is', sel)) is not None or any(k == ('is', sel) for k in q.st.pos), f'key selection is not over the whole key set of the request: {[show(k)[:200] for k in q.st.pos if k[0] == "is" and k[1][:2] == ("app", SEL)]}')
    info = pl(sel, 'Ok')
    q.same(same_key(key), sf(q.e, info, 'jwk'), 'recipient key')
    return md, info, cs, hs, key


def hdr(hs, n):
    return hs[n][0] if n in hs else None


def check(c):
    KEYS = arg('keys')

    # ---- key selection
    def select(q):
        ks = keys_of(q, KEYS)
        k = next((k for k in ks if encryptable(q, k)), None)
        if k is None:
            q.need(not q.is_ok, 'a key that is not for ECDH-ES on P-256 encryption is selected')
            return False
        p = next((t[1] for t in q.st.pos if t[0] == 'is' and jose(t[1]) in ('from_bytes', 'from_map') and contains(t[1], k)), None)
        q.need(p is not None or q.is_ok, 'the first suitable key is not used')
        if not q.is_ok:
            q.need(not q.ok(p), 'the first suitable key is refused')
            return False
        v = q.okval
        q.same(same_key(sf(q.e, v, 'jwk')), ('jwk', k), 'selected key')
        q.same(sf(q.e, v, 'alg'), text_of(q, k, 'alg'), 'alg of the selected key')
        kid = text_of(q, k, 'kid')
        got = sf(q.e, v, 'kid')
        if kid is None:
            q.need(not q.some(got), 'a kid is made up')
        else:
            q.need(q.some(got), 'the kid of the key is dropped')
            q.same(pl(got, 'Some'), kid, 'kid of the selected key')
        return True
    c.check('key-selection', SEL, select, [KEYS], min_ok=2)

    # ---- the builder
    P, K, A, E, I, OBJ = arg('payload'), arg('key'), arg('alg'), arg('enc'), arg('kid'), arg('object')
    obj = adt(JV, 'Object', M.map_put(M.map_put(('obj', None, ()), S('a'), arg('v1')), S('b'), arg('v2')))
    new = c.value('builder', JB + '::new')
    for payload in (None, P, obj):
        for bits in range(16):
            have = {'recipient_key': K if bits & 1 else None, 'alg': A if bits & 2 else None, 'enc': E if bits & 4 else None, 'kid': I if bits & 8 else None}
            b = new
            if payload is not None:
                b = c.value('builder', JB + '::payload', b, payload)
            for n, v in have.items():
                if v is not None:
                    b = c.value('builder', JB + '::' + n, b, v)

            at, et, it = [f if contains(b, f) else x for x, f in ((x, ('app', 'from', 'std::string::String', x)) for x in (A, E, I))]   # impl Into<String>

            def built(q, payload=payload, have=have, at=at, et=et, it=it):
                ok = payload is not None and have['recipient_key'] is not None and have['alg'] is not None
                if not ok or not q.json(payload, 'Object') or not q.eq(at, S('ECDH-ES')):
                    q.need(not q.is_ok, 'a JWE is built without payload object, key or a supported algorithm')
                    return True
                if not q.is_ok:
                    return False
                cs, hs, key = jwe(q, q.okval)
                m = pl(payload, 'Object')
                if isinstance(cs, tuple):
                    q.same(cs, m, 'payload')
                elif payload == obj:
                    q.need(dict(cs) == {S('a'): SOME(arg('v1')), S('b'): SOME(arg('v2'))}, f'payload is {[(show(x), show(y)) for x, y in cs]}')
                else:
                    i = 0
                    while i < len(cs):
                        q.need(cs[i] == (fld(('el', m, i), '0'), SOME(fld(('el', m, i), '1'))), f'payload has {show(cs[i][0])}: {show(cs[i][1])}')
                        i += 1
                    if i < q.e.ELEMS:
                        q.need(not q.ask(M.has_index(m, i)), 'a member of the payload is left out')
                q.same(key, K, 'recipient key')
                q.same(hdr(hs, 'set_algorithm') or S(''), at, 'header alg')
                q.same(hdr(hs, 'set_content_encryption') or S(''), et if have['enc'] else S('A128GCM'), 'header enc')
                kid(q, hs, SOME(it) if have['kid'] else NONE, K)
                return True
            c.check('build', JB + '::build', built, [b])

    def fromjson(q):
        if not q.is_ok:
            return False
        b = q.run(JB + '::build', q.run(JB + '::alg', q.run(JB + '::payload', q.okval, obj), S('ECDH-ES')))
        if not q.ok(b):
            return False
        cs, hs, key = jwe(q, pl(b, 'Ok'))
        q.same(same_key(key), ('jwk', P), 'recipient key')
        return True
    c.check('key-from-json', JB + '::recipient_key_json', fromjson, [new, P])

    # ---- encrypted response
    R, T, ST = arg('request'), arg('token'), arg('state')
    with summarised(c, SEL):
        def response(q):
            if not q.is_ok:
                return False
            q.need(q.variant(q.okval, ('Jwt', 'Unencoded')) == 'Jwt', 'the response is not encrypted')
            md, info, cs, hs, key = recipient(q, R)
            q.same(hdr(hs, 'set_algorithm') or S(''), sf(q.e, info, 'alg'), 'header alg')
            kid(q, hs, sf(q.e, info, 'kid'), key)
            ev = q.run(CM + '::encrypted_response_enc_values_supported', pl(md, 'Ok'))
            q.need(q.ok(ev), 'malformed content-encryption values are ignored')
            l = f0(pl(ev, 'Ok'))
            first = M.index_term(l, 0) if hasattr(M, 'index_term') else (l[1][0] if l[0] in ('arr', 'seq') and l[1] else ('el', l, 0))
            none = l in (('arr', ()), ('seq', ())) or l[0] not in ('arr', 'seq') and not q.ask(M.has_index(l, 0))
            q.same(hdr(hs, 'set_content_encryption') or S(''), S('A128GCM') if none else first, 'header enc')
            v = q.ser(VP, T)
            q.need(q.ok(v), 'a token that does not serialise is sent')
            want = {S('vp_token'): SOME(pl(v, 'Ok'))}
            if q.some(ST):
                want[S('state')] = SOME(jstr(f0(pl(ST, 'Some'))))
            got = dict(cs) if not isinstance(cs, tuple) else {k: SOME(v) for k, v in cs[2]}
            for k in sorted(set(got) | set(want)):
                q.need(k in want, f'the payload has an extra member {show(k)}')
                q.need(k in got, f'the payload lacks {show(k)}')
                q.same(got[k], want[k], f'payload member {show(k)}')
            return True
        old, c.e.wire = c.e.wire, True
        try:
            c.check('response', J + 'build_encrypted_response', response, [R, T, ST], min_ok=4)
        finally:
            c.e.wire = old


def kid(q, hs, given, key):
    """the kid given, else the key's own"""
    k = hdr(hs, 'set_key_id')
    if q.some(given):
        q.need(k is not None, 'the kid is left out')
        q.same(k, pl(given, 'Some'), 'header kid')
        return
    own = next((t[1] for t in q.st.pos if t[0] == 'is' and jose(t[1]) == 'key_id'), None)
    if k is None:
        q.need(own is None or not q.some(own), "the key's kid is left out")
    else:
        q.need(own is not None and own[-1] == key, 'a kid is made up')
        q.same(k, pl(own, 'Some'), 'header kid')
