from engine.terms import *
from rules.common import about_cid

AR = 'openid4vp::core::authorization_request::AuthorizationRequest'
ARO = 'openid4vp::core::authorization_request::AuthorizationRequestObject'


def check(c):
    req = ('arg', 'request')
    outer = fld(req, 'client_id')

    def keep(t):
        # which client_ids there are and how they compare; not what follows from their prefix
        return about_cid(t) and not any(x[0] in ('before', 'has', 'in') for x in walk(t) if x)

    def spec(q):
        if not q.is_ok:
            return False
        inner = q.run(ARO + '::client_id', q.okval)
        if q.some(outer) and q.some(inner):
            i = pl(inner, 'Some')
            i = i[3][0] if i[0] == 'adt' else fld(i, '0')
            q.need(q.eq(pl(outer, 'Some'), i), 'a request is accepted although its outer and inner client_id differ')
            return True
    c.check('outer-inner', AR + '::validate', spec, [req, ('arg', 'wallet')], keep=keep)
