from rules.hooks import *


def check(c):
    def spec(q):
        if not q.is_ok:
            return False
        alg = alg_supported(q)
        if q.ask(M.has_term(alg, S('none'))):
            return False
        kids = header_str(q, 'kid')
        q.need(kids, "a JWT without a string 'kid' is accepted")
        cid, src = client_id_source(q, 'decentralized_identifier')
        good = []
        for kid in kids:
            did = M.before(kid, S('#'))
            if q.ask(M.has_term(kid, S('#'))) and (q.eqv(did, src) or q.eqv(cat(S('decentralized_identifier:'), did), cid)):
                good.append((kid, did))
        q.need(good, "a request is accepted whose client_id is not the DID of 'kid'")
        kid, did = good[0]
        if q.some(TRUST):
            l = pl(TRUST, 'Some')
            q.need(q.isin(l, did) if not q.isin_any(l, (did, src)) else True, 'an untrusted DID is accepted')
        evs = q.events('JWKResolver')
        keys = [pl(x[2], 'Ok') for x in evs if x[1][0] == RES_ and x[1][1] == SOME(kid) and q.ok(x[2])]
        q.need(keys, "the key is not resolved for exactly the JWT's 'kid'")
        ver = [k[1] for k, v in q.st.pos.items() if k[0] == 'is' and v == S('Ok') and k[1][0] == 'app' and k[1][1].endswith('decode_verify')]
        q.need(any(v[-2] == JWT and v[-1] in keys for v in ver), 'the JWT is accepted without verifying it under the resolved key')
        return True
    c.check('did-binding', VF + 'did::verify_with_resolver', spec, [WMA, AROA, JWT, TRUST, RES_], min_ok=2)
