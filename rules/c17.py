from rules.common import *
from rules.c18 import CL, SIGNER, RES_, VM, X5C

BODY = arg('body')
B64 = ('b64', 'URL_SAFE_NO_PAD')
TYP = 'oauth-authz-req+jwt'


QUICK_ELEMS = 3
def clients(c, rule, ty, args):
    """every client the constructor gives, with the facts known at that point"""
    r, outs = c.outcomes(rule, CL + ty + '::new', args)
    seen = []
    for o in outs:
        if o.kind == 'ret' and not (o.val[0] == 'adt' and o.val[2] == 'Err'):
            v = pl(o.val, 'Ok')
            if v not in seen:
                seen.append(v)
    c.fact(rule, bool(seen), f'{ty}::new gives no client', CL + ty)
    return seen


def parts(q, jwt):
    """header JSON, body JSON and signature of a compact JWS built by the library"""
    ps = jwt[1] if jwt[0] == 'cat' else ()
    q.need(len(ps) == 5 and ps[1] == ps[3] == S('.'), f'not a compact JWS: {show(jwt)[:300]}')
    out = []
    for p in (ps[0], ps[2], ps[4]):
        q.need(p[:3] == ('app', 'b64enc', B64), f'not base64url without padding: {show(p)[:200]}')
        out.append(p[3])
    for p in out[:2]:
        q.need(p[:2] == ('app', 'json'), f'not JSON: {show(p)[:200]}')
    return out[0][2], out[1][2], out[2], cat(*ps[:3])


def check(c):
    c.e.wire = True

    def spec(x5c):
        def f(q):
            if not q.is_ok:
                return False
            h, b, sig, signed = parts(q, q.okval)
            evs = q.events('RequestSigner::sign', 'RequestSigner::try_sign')
            q.need(len(evs) == 1, f'{len(evs)} signatures are made')
            q.need(evs[0][1] == (SIGNER, signed), f'the signature is over {show(evs[0][1][1])[:200]}, not over the header and body in the JWT')
            q.same(sig, evs[0][2] if evs[0][0].endswith('::sign') else pl(evs[0][2], 'Ok'), 'signature')
            q.need(b[0] == 'adt' and b[2] == 'Object' and b[3][0] == as_map(q, BODY), f'the body is {show(b)[:200]}, not the given request object')
            q.need(h[0] == 'adt' and h[2] == 'Object' and h[3][0][0] == 'obj' and h[3][0][1] is None, f'the header is {show(h)[:200]}')
            m = dict(h[3][0][2])
            algs = [x for x in q.events('RequestSigner::alg')]
            q.need(len(algs) >= 1 and all(x[1] == (SIGNER,) for x in algs), 'the algorithm is not that of the signer')
            want = {S('alg'): [jstr(pl(x[2], 'Ok')) for x in algs], S('typ'): [jstr(S(TYP))]}
            if not x5c:
                want[S('kid')] = [jstr(VM)]
            for k, w in want.items():
                q.need(m.get(k) in w, f"header member {show(k)} is {show(m.get(k) or NONE)[:200]}, required {show(w[0])[:200]}")
            extra = set(m) - set(want) - ({S('x5c')} if x5c else set())
            q.need(not extra, f'further header members {[show(k) for k in extra]}')
            if x5c:
                q.need(S('x5c') in m, 'the header has no x5c')
                chain(q, m[S('x5c')])
            return True
        return f

    for ty, args, x5c in (('DIDClient', [VM, SIGNER, RES_], False), ('X509SanDnsClient', [X5C, SIGNER], True), ('X509HashClient', [X5C, SIGNER], True)):
        for v in clients(c, ty, ty, args):
            c.check(ty, f'<{CL}{ty} as {CL}Client>::generate_request_object_jwt', spec(x5c), [v, BODY], min_ok=2 if x5c else 1)


def chain(q, j):
    """all certificates of the chain, in order, in standard base64"""
    q.need(j[0] == 'adt' and j[2] == 'Array' and j[3][0][0] == 'arr', f'x5c is {show(j)[:200]}')
    xs = j[3][0][1]
    n = len(xs)
    q.need(q.whole(X5C, n), f'x5c has only {n} certificates of the chain')
    for i, x in enumerate(xs):
        q.need(x[0] == 'adt' and x[2] == 'String', f'x5c entry {i} is {show(x)[:200]}')
        t = x[3][0]
        q.need(t[:3] == ('app', 'b64enc', ('b64', 'STANDARD')), f'x5c entry {i} is not standard base64: {show(t)[:200]}')
        d = t[3]
        q.need(d[0] == 'pl' and d[2] == 'Ok' and d[1][0] == 'app' and 'to_der' in d[1][1] and d[1][-1] == ('el', X5C, i), f'x5c entry {i} is not certificate {i} of the chain: {show(d)[:200]}')
