from rules.common import *


def check(c):
    req, wallet = arg('request'), arg('wallet')
    ind = fld(req, 'request_indirection')

    def spec(q):
        if not q.is_ok:
            return False
        aro = q.okval
        cid = q.run(ARO + '::client_id', aro)
        hooks = q.events('RequestVerifier')
        # which hook this object needs
        p = None
        if q.some(cid):
            p = prefix_of(q, f0(pl(cid, 'Some')))
        if p is None:
            want = 'preregistered'
        else:
            q.need(not q.eq(p, S('origin')), "a request with the reserved prefix 'origin' is accepted")
            want = next((h for h in HOOKS if q.eq(p, S(h))), 'other')
        good = []
        for name, a, v in hooks:
            if name != 'RequestVerifier::' + want:
                continue
            rest = a[1:]
            if want == 'other':
                if rest[0] != p:
                    continue
                rest = rest[1:]
            if a[0] == wallet and rest[0] == aro and q.ok(v):
                good.append(rest[1])
        q.need(good, f'a request is accepted without a successful call of the hook {want} on the returned object')
        jwt = good[-1]
        # the JWT handed to the hook is the one the object was decoded from
        obj = q.run('<' + ARO + ' as std::ops::Deref>::deref', aro)
        kind = q.variant(ind, ('ByValue', 'ByReference', 'Direct'))
        if kind == 'Direct':
            q.need(jwt == NONE, 'the hook is handed a JWT for an unsigned request')
        else:
            q.need(q.some(jwt), 'the hook is not handed the JWT of a signed request')
            j = pl(jwt, 'Some')
            q.need(only_from(obj, j, req), 'the hook is handed another JWT than the one the object was decoded from')
        return True
    c.check('hook-dispatch', AR + '::validate', spec, [req, wallet], keep=lambda t: t == ('is', ind) or M_prefix(t))

    # hooks a wallet does not implement
    for h in HOOKS + ('preregistered', 'other'):
        path = CR + 'authorization_request::verification::RequestVerifier::' + h

        def refuse(q):
            q.need(q.kind == 'ret' and not q.is_ok, f'the default {h} hook accepts')
            return True
        c.check('default-refuses', path, refuse)


def M_prefix(t):
    """facts about a client_id and its prefix, and about hook results"""
    if t[0] == 'is':
        return t[1][0] == 'call' and t[1][1].startswith('RequestVerifier') or about_cid(t)
    return t[0] in ('before', 'app', 'has', 'sw', 'eq') and about_cid(t)
