from rules.c28 import *

CM = PAR + 'ClientMetadata'
THUMB = ISO + 'compute_jwk_thumbprint'
SEL = CR + 'jwe::find_encryption_jwk'
REQ = arg('request')
TECHNIQUE = 'static dataflow over MIR: the key selected for the thumbprint on every path, compared with the key selected for response encryption on key sets of up to two symbolic keys'


def keyset(q, v):
    """the key maps of a ClientMetadata value, or None"""
    j = q.run(CM + '::jwks', v)
    if not q.some(j) or not q.ok(pl(j, 'Some')):
        return None
    return sf(q.e, pl(pl(j, 'Some'), 'Ok'), 'keys')


def keys_of(q, ks):
    """the elements of a key list on this path, and whether it may have more"""
    if ks[0] in ('arr', 'seq'):
        return list(ks[1])
    out = []
    for i in range(q.e.ELEMS):
        if not q.ask(M.has_index(ks, i)):
            break
        out.append(('el', ks, i))
    return out


def text_of(q, k, name):
    return jstring(q, member(k, name))


def encryptable(q, k):
    """response encryption would select this key"""
    a = text_of(q, k, 'alg')
    if a is None or not q.eq(a, S('ECDH-ES')):
        return False
    a = text_of(q, k, 'crv')
    if a is None or not q.eq(a, S('P-256')):
        return False
    return usable(q, k)


def usable(q, k):
    u = text_of(q, k, 'use')
    return u is None or q.eq(u, S('enc'))


def thumb(k):
    return ('app', THUMB, adt(JV, 'Object', k))


def check(c):
    with summarised(c, THUMB):
        def spec(q):
            m = q.run(ARO + '::client_metadata', REQ)
            ks = keyset(q, pl(m, 'Ok')) if q.ok(m) else None
            if ks is None:
                q.need(not q.some(q.val), 'a request without readable client_metadata and jwks has a thumbprint')
                return False
            return select(q, keys_of(q, ks), ks)

        def select(q, ks, lst):
            chosen = q.run(SEL, lst)
            got = q.some(q.val)
            if q.ok(chosen):
                from rules.c30 import same_key
                want = same_key(sf(q.e, pl(chosen, 'Ok'), 'jwk'))
                q.need(want[0] == 'jwk' and want[1] in ks, f'response encryption does not use a key of the key set: {show(want)[:200]}')
                want = want[1]
                r = thumb(want)
                if not q.ok(r):
                    q.need(not got, 'another key than the one used for encryption is named')
                    return False
                q.need(got, 'the encryption key is not named')
                q.same(pl(q.val, 'Some'), pl(r, 'Ok'), 'thumbprint of the encryption key')
                return True
            if got:
                v = pl(q.val, 'Some')
                for k in ks:
                    if v == pl(thumb(k), 'Ok'):
                        q.need(usable(q, k), 'a key reserved for another use is named')
                        return True
                q.need(False, f'the thumbprint is not that of a key of the key set: {show(v)[:300]}')
            if not any(encryptable(q, k) for k in ks):
                for k in ks:
                    q.need(not usable(q, k) or not q.ok(thumb(k)), 'a usable key is not named')
            return False
        c.check('selection', ISO + 'get_encryption_jwk_thumbprint', spec, [REQ], min_ok=2)

    # response encryption selects from the same key set, and uses the key it selected
    from rules.c30 import recipient
    with summarised(c, SEL):
        def used(q):
            if not q.is_ok or q.variant(q.okval, ('Jwt', 'Unencoded')) != 'Jwt':
                return False
            recipient(q, REQ)
            return True
        c.check('encryption-key', CR + 'jwe::build_encrypted_response', used, [REQ, arg('token'), arg('state')])
