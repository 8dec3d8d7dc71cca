from rules.common import *

TYP = S('oauth-authz-req+jwt')


def typed(q, jwt):
    """the path established that the header of jwt has the request-object type"""
    for o in header_member(q, jwt, 'typ'):
        if q.st.pos.get(('is', o)) == S('Some') and q.st.pos.get(('is', pl(o, 'Some'))) == S('String') and q.st.pos.get(pl(pl(o, 'Some'), 'String')) == TYP:
            return True
    return False


def relaxed(q, req):
    outer = fld(req, 'client_id')
    return q.some(outer) and q.ask(M.sw_term(pl(outer, 'Some'), S('redirect_uri:')))


def keep(req):
    ind, outer = fld(req, 'request_indirection'), fld(req, 'client_id')
    m = mentions('typ')
    return lambda t: t in (('is', ind), ('is', outer)) or t[0] == 'sw' and t[1] == pl(outer, 'Some') or m(t)


def check(c):
    req = arg('request')
    ind = fld(req, 'request_indirection')

    def spec(q):
        if not q.is_ok:
            return False
        if q.variant(ind, ('ByValue', 'ByReference', 'Direct')) == 'Direct':
            return False
        if relaxed(q, req):
            return False
        jwt = fld(q.okval, '1') if q.okval[0] != 'tup' else q.okval[1][1]
        q.need(q.some(jwt), 'a signed request resolves without its JWT')
        q.need(typed(q, pl(jwt, 'Some')), "a JWT is accepted without 'typ' = 'oauth-authz-req+jwt'")
        return True
    c.check('typ-checked', AR + '::resolve_request', spec, [req, arg('http')], keep=keep(req), min_ok=2)

    def spec2(q):
        if not q.is_ok:
            return False
        if q.variant(ind, ('ByValue', 'ByReference', 'Direct')) == 'Direct' or relaxed(q, req):
            return False
        hooks = q.events('RequestVerifier')
        q.need(hooks, 'no hook was called')
        jwt = hooks[-1][1][-1]
        q.need(q.some(jwt), 'a signed request validates without its JWT')
        q.need(typed(q, pl(jwt, 'Some')), "validation accepts a JWT without 'typ' = 'oauth-authz-req+jwt'")
        return True
    c.check('typ-checked-validate', AR + '::validate', spec2, [req, arg('wallet')], keep=keep(req), min_ok=2)
