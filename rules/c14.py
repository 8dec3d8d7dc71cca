from rules.common import *

URL, EP, REQ, W = arg('url'), arg('endpoint'), arg('request'), arg('wallet')
WIRE = ('AuthorizationRequest', 'RequestIndirection', 'UntypedObject')


def arrived(q, ep):
    """the URL has a query and comes in at the endpoint"""
    for part in ('authority', 'path'):
        q.need(q.eqv(app(part, URL), app(part, ep)), f'a request is accepted although the {part} of its URL differs from that of the authorization endpoint')
    q.need(q.st.pos.get(('is', app('query', URL))) == S('Some'), 'a URL without a query is accepted')


def keep(t):
    """facts about the parts of the URL themselves (not about what was parsed from them)"""
    return any(isinstance(x, tuple) and x in [app(p, URL) for p in ('authority', 'path', 'query')] for x in t)


def parts(q, r):
    cid, ind = sf(q.e, r, 'client_id'), sf(q.e, r, 'request_indirection')
    return cid, ind


def check(c):
    c.e.wire = WIRE

    def url(q):
        if not q.is_ok:
            return False
        arrived(q, EP)
        want = q.run(AR + '::from_query_params', pl(app('query', URL), 'Some'))
        q.need(q.ok(want), 'accepted although the query does not parse')
        q.same(q.okval, pl(want, 'Ok'), 'request')
        return True
    c.check('own-endpoint', AR + '::from_url', url, [URL, EP], min_ok=3)

    def parse(q):
        if not q.is_ok:
            return False
        m = app('form_map', QP)

        def text(name):
            o = member(m, name)
            if not q.some(o):
                return None
            q.st.pos[('is', pl(o, 'Some'))] = S('String')
            return pl(pl(o, 'Some'), 'String')
        cid, ind = parts(q, q.okval)
        t = text('client_id')
        q.same(cid, NONE if t is None else SOME(t), 'client_id')
        req, uri = text('request'), text('request_uri')
        u = ('app', 'parse', 'url::Url', uri) if uri is not None else None
        k = q.variant(ind, ('ByValue', 'ByReference', 'Direct'))
        if req is not None:
            q.need(k == 'ByValue', f"a query with 'request' is read as {k}")
            q.same(pl(ind, k), req, 'request object by value')
        elif u is not None and q.ok(u):
            q.need(k == 'ByReference', f"a query with 'request_uri' is read as {k}")
            q.same(pl(ind, k), pl(u, 'Ok'), 'request_uri')
        else:
            q.need(k == 'Direct', f'a query without a reference is read as {k}')
            q.need(only_keys(untyped(pl(ind, k)), m, ['client_id']), f'parameters are not those of the query: {show(pl(ind, k))[:300]}')
        return True
    QP = arg('query')
    c.check('query', AR + '::from_query_params', parse, [QP], min_ok=4)

    def tourl(q):
        if not q.is_ok:
            return False
        u = q.okval
        q.need(u[:2] == ('app', 'set_query') and u[2] == EP, f'not the endpoint with its query replaced: {show(u)[:300]}')
        t = u[3]
        q.need(q.some(t), 'the query is removed')
        t = pl(t, 'Some')
        m = None
        if t[:2] == ('app', 'formenc'):
            m = t[2]
        elif t[0] == 'pl' and t[2] == 'Ok' and t[1][:2] == ('app', 'formenc_r'):
            m = t[1][2]
        q.need(m is not None, f'the query is not a form encoding: {show(t)[:300]}')
        cid, ind = sf(q.e, REQ, 'client_id'), sf(q.e, REQ, 'request_indirection')
        q.same(member(m, 'client_id'), SOME(jstr(pl(cid, 'Some'))) if q.some(cid) else (NONE if q.variant(ind, ('ByValue', 'ByReference', 'Direct')) != 'Direct' else member(m, 'client_id')), 'client_id in the query')
        k = q.variant(ind, ('ByValue', 'ByReference', 'Direct'))
        if k == 'ByValue':
            q.same(member(m, 'request'), SOME(jstr(pl(ind, k))), "'request' in the query")
            q.need(only_keys(m, None, ['client_id', 'request']), f'extra parameters: {show(m)[:200]}')
        elif k == 'ByReference':
            q.same(member(m, 'request_uri'), SOME(jstr(app('str', pl(ind, k)))), "'request_uri' in the query")
            q.need(only_keys(m, None, ['client_id', 'request_uri']), f'extra parameters: {show(m)[:200]}')
        else:
            q.need(only_keys(m, untyped(pl(ind, k)), ['client_id']), f'not the request parameters: {show(m)[:200]}')
        return True
    c.check('to-url', AR + '::to_url', tourl, [REQ, EP], min_ok=6)

    c.e.wire = None

    def wallet(q):
        if not q.is_ok:
            return False
        md = ('call', 'Wallet::metadata', H((W,)), 0)
        arrived(q, f0(q.run(WM + '::authorization_endpoint', md)))
        return True
    c.check('wallet-endpoint', 'openid4vp::wallet::Wallet::validate_request', wallet, [W, URL], keep=keep, min_ok=1)
