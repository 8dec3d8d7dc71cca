from rules.common import *
from engine.core import State

ALGS, ENCS, VENC = 'authorization_encryption_alg_values_supported', 'authorization_encryption_enc_values_supported', 'encrypted_response_enc_values_supported'
JWKS = CR + 'metadata::parameters::verifier::JWKs'
WALLET = arg('wallet')
RESERVED = ('direct_post.jwt', 'dc_api.jwt')


def mode_of(q, m):
    t = jstring(q, member(m, 'response_mode'))
    q.need(t is not None, 'a request without a readable response_mode is accepted')
    for k in ('direct_post', 'direct_post.jwt', 'dc_api', 'dc_api.jwt'):
        if q.eq(t, S(k)):
            return k
    q.need(False, 'a request with an unsupported response_mode is accepted')


def metadata(q, m):
    """the client metadata map, or None"""
    o = member(m, 'client_metadata')
    if not q.some(o):
        return None
    x = pl(o, 'Some')
    q.need(q.json(x, 'Object'), 'a request is accepted whose client_metadata is not an object')
    return pl(x, 'Object')


def jwks(q, cm):
    o = member(cm, 'jwks')
    if not q.some(o):
        return None
    fv = [k[1] for k, v in q.st.pos.items() if k[0] == 'is' and k[1][0] == 'app' and k[1][1] == 'from_value' and k[1][3] == pl(o, 'Some') and v == S('Ok')]
    q.need(fv, 'an encrypted response mode is accepted with a jwks that was not read successfully')
    return fld(pl(fv[0], 'Ok'), 'keys')


def validated(q):
    return q.run('<' + ARO + ' as std::ops::Deref>::deref', q.okval)


def check(c):
    # every kind of request and client: an encrypted mode needs a key set that was read
    req = arg('request')
    mm = mentions('response_mode')

    def keep(t):
        return mm(t) or t[0] == 'is' and (t[1][0] == 'get' and t[1][2] in (S('jwks'), S('client_metadata')) or t[1][0] == 'pl' and t[1][1][0] == 'get' and t[1][1][2] in (S('client_metadata'), S('jwks')) or t[1][0] == 'app' and t[1][1] == 'from_value' and 'JWK' in t[1][2])

    def any_request(q):
        if not q.is_ok:
            return False
        m = untyped(validated(q))
        mode = mode_of(q, m)
        if mode not in RESERVED:
            return False
        cm = metadata(q, m)
        q.need(cm is not None, f'{mode} is accepted without client_metadata')
        q.need(jwks(q, cm) is not None, f'{mode} is accepted without jwks')
        return True
    c.check('needs-keys', AR + '::validate', any_request, [req, WALLET], keep=keep, min_ok=2)

    # the negotiation itself, on a direct request of a pre-registered client
    CM = arg('client_metadata')

    def request(mode):
        u = arg('response_uri')
        ms = [(S('client_metadata'), adt(JV, 'Object', CM)), (S('nonce'), jstr(arg('nonce'))), (S('response_mode'), jstr(S(mode))), (S('response_type'), jstr(S('vp_token')))]
        st = State()
        if mode.startswith('direct_post'):
            ms.append((S('response_uri'), jstr(u)))
            st.pos[('is', ('app', 'parse', 'url::Url', u))] = S('Ok')
        m = ('obj', None, ())
        for k, v in ms:
            m = M.map_put(m, k, v)
        return adt(AR, 'AuthorizationRequest', *[{'client_id': NONE, 'request_indirection': adt(RI, 'Direct', adt(UO, 'UntypedObject', m))}[f['name']] for f in c.e.adt_info(AR)['variants'][0]['fields']]), st

    def negotiate(part):
        def spec(q):
            if not q.is_ok:
                return False
            keys = jwks(q, CM)
            q.need(keys is not None, 'an encrypted response mode is accepted without jwks')
            algs = []
            for k in range(q.e.ELEMS):
                if not q.ask(M.has_index(keys, k)):
                    break
                key = ('el', keys, k)
                u = jstring(q, member(key, 'use'))
                if u is None or not q.eq(u, S('enc')):
                    continue
                a = jstring(q, member(key, 'alg'))
                if a is not None:
                    algs.append(a)
            q.need(algs, "an encrypted response mode is accepted without a key with use 'enc' and a string 'alg'")
            md = [x for x in q.ev if x[0].endswith('Wallet::metadata')]
            q.need(md and all(x[1] == (WALLET,) for x in md), 'the wallet metadata is not asked from the wallet')
            w = untyped(q.run('<' + WM + ' as std::ops::Deref>::deref', md[-1][2]))
            o = member(w, ALGS)
            if part == 'alg' and q.some(o):
                l = StrList(q, pl(o, 'Some'))
                q.need(l.wellformed(), f'an encrypted response mode is accepted with a malformed {ALGS}')
                q.need(any(l.contains(a) for a in algs), f"accepted although no encryption key has an 'alg' in {ALGS}")
            o = member(w, ENCS)
            v = member(CM, VENC)
            if part == 'enc':
                vals = [S('A128GCM')]
                if q.some(v):
                    vl = StrList(q, pl(v, 'Some'))
                    q.need(vl.wellformed(), f'an encrypted response mode is accepted with a malformed {VENC}')
                    vals = [('el', vl.coll, k) if vl.coll else pl(('el', pl(pl(v, 'Some'), 'Array'), k), 'String') for k in range(q.e.ELEMS) if q.ask(M.has_index(vl.coll or pl(pl(v, 'Some'), 'Array'), k))]
                if q.some(o):
                    l = StrList(q, pl(o, 'Some'))
                    q.need(l.wellformed(), f'an encrypted response mode is accepted with a malformed {ENCS}')
                    q.need(any(l.contains(a) for a in vals), f'accepted although none of the content encryption values is in {ENCS}')
            return True
        return spec

    for mode in RESERVED:
        for part, other in (('alg', (ENCS, VENC)), ('enc', (ALGS,))):
            rq, st = request(mode)
            mo = mentions(*other)
            c.check(f'negotiate-{part}', AR + '::validate', negotiate(part), [rq, WALLET], st=st, keep=lambda t: not mo(t), min_ok=2)
